"""Mod/ref effects: which fields, globals and parameters an expression reads or writes."""
from .core import *

READ_NONCONST = {"begin", "end", "rbegin", "rend", "find", "at", "data", "back", "front", "size", "empty", "get", "operator->",
                 "operator*", "lower_bound", "upper_bound", "equal_range", "count", "c_str", "load", "top", "native_handle", "str",
                 "operator bool", "cbegin", "cend", "value", "has_value", "second", "first"}
ELEM = {"at", "back", "front", "[]", "begin", "end", "find", "rbegin", "rend", "top", "lower_bound", "upper_bound", "value"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%=", "++", "--", "post++", "post--"}


class Root:
    """what an lvalue is a part of: ('field', q, base) ('global', q) ('param', i) ('local', id) ('deref', expr) ('tmp',)"""


def root(view, e, depth=0):
    if e is None or depth > 12:
        return ("tmp",)
    k = e.get("k")
    if k in ("icast", "cast", "defarg"):
        return root(view, e["e"], depth + 1)
    if k == "mem":
        b = e.get("b")
        if b is None:
            return ("tmp",)
        if e.get("arrow") or b.get("k") == "this":
            return ("field", e["q"], b)
        if strip_type(e.get("q", "")).startswith("std::"):
            return root(view, b, depth + 1)
        rb = root(view, b, depth + 1)
        if rb[0] in ("field", "global"):
            return rb
        # value member of a local/param object
        if rb[0] == "tmp" or rb[0] == "deref":
            return ("field", e["q"], b)
        return ("field", e["q"], b) if rb[0] == "param" else rb
    if k == "ref":
        dk = e.get("dk")
        if dk in ("global",):
            return ("global", e["q"])
        if dk == "slocal":
            return ("global", view.f.q + "::" + e["n"])
        if dk == "param":
            d = e.get("d")
            if d in view.pidx:
                return ("param", view.pidx[d])
            return ("local", d)
        if dk in ("local", "bind"):
            d = e.get("d")
            if d in view.binds:
                src, i, rv = view.binds[d]
                if rv is not None:
                    t = view.decls[rv].get("t", "")
                    if t.endswith("&"):
                        return root(view, view.rng[rv], depth + 1)
                    return ("local", d)
                dcl = None
                for v in view.decls.values():
                    if any(x["d"] == d for x in v.get("binds", [])):
                        dcl = v
                if src is not None and dcl is not None and dcl.get("ref"):
                    return root(view, src, depth + 1)
                return ("local", d)
            if d in view.rng:
                if view.decls[d].get("ref"):
                    return root(view, view.rng[d], depth + 1)
                return ("local", d)
            v = view.decls.get(d)
            if v is not None and v.get("static"):
                return ("global", view.f.q + "::" + v["n"])
            if v is not None and v.get("i") is not None and (v.get("ref") or is_iter(v)):
                return root(view, v["i"], depth + 1)
            return ("local", d)
        return ("tmp",)
    if k == "op":
        o = e["o"]
        a = e.get("a", [])
        if o == "[]":
            return root(view, a[0], depth + 1)
        if o in ("*", "->") and len(a) == 1:
            inner = a[0]
            t = strip_type(expr_t(inner))
            if is_iter({"t": t, "i": inner}) or "iterator" in t:
                return root(view, inner, depth + 1)
            return ("deref", inner)
        if o == "&" and len(a) == 1:
            return root(view, a[0], depth + 1)
        if o in ASSIGN and a:
            return root(view, a[0], depth + 1)
        return ("tmp",)
    if k == "call":
        f = last(e.get("f") or "")
        if "obj" in e:
            if f in ELEM or (f in ("get", "operator*", "operator->") and not is_smart(e.get("ot"))):
                return root(view, e["obj"], depth + 1)
            if f in ("get", "operator->", "operator*"):
                return ("deref", e["obj"])
            g = view.F.funcs.get(e.get("fid"))
            n = trivial_getter(g)
            if n is not None and g.rt.endswith("&"):
                q = (g.cls or "") + "::" + n
                b = e["obj"]
                return ("field", q, b)
            # accessor with a body returning a reference to a global (function-local static)
        if f in ("move", "forward", "ref") and len(e.get("a", [])) == 1:
            return root(view, e["a"][0], depth + 1)
        g = view.F.funcs.get(e.get("fid"))
        if g is not None and g.body and g.rt and g.rt.endswith("&"):
            for n in walk(g.body, False):
                if n.get("k") == "return" and n.get("e"):
                    r = strip_copy(n["e"])
                    if r.get("k") == "ref" and r.get("dk") in ("global", "slocal"):
                        return root(view.F.view(g), r)
                    if r.get("k") == "mem" and r.get("b", {}).get("k") == "this" and "obj" in e:
                        return ("field", r["q"], e["obj"])
        return ("tmp",)
    if k == "cond":
        return root(view, e["x"], depth + 1)
    return ("tmp",)


def expr_t(e):
    return e.get("t") or ""


def is_iter(v):
    t = v.get("t") or ""
    return "iterator" in t


def effects(F, f, body=None):
    """yields (mode, root, node, ancestors) for reads 'R' and writes 'W' in f"""
    view = F.view(f)
    out = []

    def rec(e, writing=False):
        pass

    for r in ([body] if body is not None else list(f.roots())):
        for n in walk(r):
            k = n.get("k")
            if k == "op" and n["o"] in ASSIGN and n.get("a"):
                if n["o"].endswith(("++", "--")) or True:
                    out.append(("W", root(view, n["a"][0]), n))
            elif k == "op" and n["o"] == "[]" and n.get("fid") and not n.get("const"):
                t = strip_type(n.get("f", ""))
                if "map" in t:
                    out.append(("W", root(view, n["a"][0]), n))
            elif k == "delete":
                out.append(("W", root(view, n["e"]), n))
            elif k == "op" and n.get("fid") and n["o"] in ("<<", ">>") and n.get("a"):
                out.append(("W", root(view, n["a"][0]), n))
            if k in ("call", "ctor"):
                fn = last(n.get("f") or "")
                q = n.get("f") or ""
                if "obj" in n and n.get("fid") and not n.get("const") and not n.get("static") and not n.get("conv"):
                    if not q.startswith("std::") and F.targets(n):
                        ot = n.get("ot", "")
                        if not ot.endswith("*") and not is_smart(ot):
                            out.append(("T", root(view, n["obj"]), n))
                    else:
                        if fn not in READ_NONCONST:
                            ot = n.get("ot", "")
                            ob = n["obj"]
                            if not (ot.endswith("*")):
                                out.append(("W", root(view, ob), n))
                            else:
                                out.append(("W", ("deref", ob), n))
                pts = n.get("pt", [])
                for i, a in enumerate(n.get("a", [])):
                    if a is None or is_defarg(a):
                        continue
                    t = pts[i] if i < len(pts) else ""
                    if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                        out.append(("A", root(view, a), n, i))
                    elif t.endswith("*") and a.get("k") == "op" and a.get("o") == "&" and not t.startswith("const "):
                        out.append(("A", root(view, a["a"][0]), n, i))
            if k == "mem":
                out.append(("R", ("field", n["q"], n.get("b")), n))
            if k == "ref" and n.get("dk") in ("global", "slocal"):
                out.append(("R", root(view, n), n))
    return out


class ModRef:
    """per-function summary: parameters (index) a function may modify through a reference, transitively"""

    def __init__(self, F):
        self.F = F
        self.eff = {}
        self.mod = {}
        for f in F.all:
            if f.body is not None or f.inits:
                self.eff[f.fid] = effects(F, f)
        ch = True
        self.selfcalls = {}
        for f in F.all:
            self.mod.setdefault(f.fid, set())
            if f.cls and f.body is not None:
                l = []
                for n in f.nodes():
                    if n.get("k") == "call" and "obj" in n and strip_copy(n["obj"]).get("k") == "this":
                        l.append((n, F.targets(n)))
                self.selfcalls[f.fid] = l
        rounds = 0
        while ch and rounds < 8:
            ch = False
            rounds += 1
            for f in F.all:
                if f.fid not in self.eff:
                    continue
                s = self.mod[f.fid]
                n0 = len(s)
                for e in self.eff[f.fid]:
                    if e[0] == "W" and e[1][0] == "param":
                        s.add(e[1][1])
                    if e[0] == "A" and e[1][0] == "param" and self.arg_mod(e[2], e[3]):
                        s.add(e[1][1])
                    if e[1][0] == "field" and e[1][2] is not None and e[1][2].get("k") == "this":
                        if e[0] == "W" or (e[0] == "A" and self.arg_mod(e[2], e[3])) or (e[0] == "T" and self.obj_mod(e[2])):
                            s.add("this")
                    if e[0] == "T" and e[1][0] == "param" and self.obj_mod(e[2]):
                        s.add(e[1][1])
                for n, ts in self.selfcalls.get(f.fid, []):
                    if any("this" in self.mod.get(t.fid, ()) for t in ts):
                        s.add("this")
                ch |= len(s) != n0

    def obj_mod(self, call):
        """may the method called modify its object?"""
        return any("this" in self.mod.get(t.fid, ()) for t in self.F.targets(call))

    def arg_mod(self, call, i):
        """may callee modify by-ref argument i? unknown callees: yes"""
        ts = self.F.targets(call)
        if not ts:
            q = call.get("f") or ""
            if q.startswith(("std::", "fmt::")) and last(q) not in ("swap", "sort", "getline", "remove_if", "reverse", "stable_sort", "iota", "transform", "exchange"):
                return False
            return True
        return any(i in self.mod.get(t.fid, ()) for t in ts)

    def writes(self, f):
        """(root, node) for every write including through by-ref arguments"""
        for e in self.eff.get(f.fid, []):
            if e[0] == "W":
                yield e[1], e[2]
            elif e[0] == "A" and self.arg_mod(e[2], e[3]):
                yield e[1], e[2]
            elif e[0] == "T" and self.obj_mod(e[2]):
                yield e[1], e[2]

    def reads(self, f):
        for e in self.eff.get(f.fid, []):
            if e[0] == "R":
                yield e[1], e[2]
