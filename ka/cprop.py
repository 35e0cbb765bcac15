"""Path-sensitive constant propagation over function bodies.

Values are constants (integers of their C++ width, booleans, enumerators,
strings, null), sets/lists of constants, string concatenations, or symbolic
terms named by the canonical location text.  Branches on constants are decided,
branches on anything else are followed both ways and remembered by their
normalised atom.  Loops over unknown ranges are followed for no and for one
element.  Nothing is executed and no solver is involved: unknown stays unknown."""
import json, re
from .core import *
from .core import is_smart

BITS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
        "uint64_t": (64, False), "int64_t": (64, True), "uint32_t": (32, False), "int32_t": (32, True), "size_t": (64, False), "std::size_t": (64, False),
        "uint8_t": (8, False), "uint16_t": (16, False)}


def ibits(t):
    t = strip_type(t or "").replace("const ", "").strip()
    if t.startswith("std::vector<") and t.endswith("::size_type"):
        t = "size_t"
    return BITS.get(t)


def wrap(v, bs):
    b, s = bs
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class Budget(AnalysisError):
    pass


class St:
    __slots__ = ("env", "trail", "eff")

    def __init__(self, env=None, trail=(), eff=()):
        self.env = env if env is not None else {}
        self.trail = trail
        self.eff = eff

    def fork(self):
        return St(dict(self.env), self.trail, self.eff)

    def emit(self, *e):
        self.eff = self.eff + (e,)


class Out:
    __slots__ = ("kind", "val", "st", "given")

    def __init__(self, kind, val, st):
        self.kind = kind  # 'ret', 'throw', 'end'
        self.val = val
        self.st = st

    def __repr__(self):
        return "%s %s | %s | %s" % (self.kind, text(self.val) if self.val is not None else "", [atext(a, p) for a, p in self.st.trail], [tuple(text(x) if isinstance(x, tuple) else x for x in e) for e in self.st.eff])


def atext(a, p):
    return ("" if p else "!") + (" ".join(x for x in (a[0], a[1], a[2]) if x) if a[0] not in ("==", "<", "in") else "%s %s %s" % (a[1], a[0], a[2]))


def elem(x, i):
    """x[i]; the element a loop over all of x is looking at is each(x)"""
    if i == "index(%s)" % x:
        return "each(%s)" % x
    return "%s[%s]" % (x, i)


def text(v):
    if v is None:
        return "?"
    if not v:
        return "{}"
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "b":
        return "true" if v[1] else "false"
    if k == "e":
        return short(v[1])
    if k == "s":
        return json.dumps(v[1])
    if k == "t":
        return v[1]
    if k == "null":
        return "null"
    if k == "op":
        if len(v) == 3:
            return "(%s%s)" % (v[1], text(v[2]))
        return "(%s %s %s)" % (text(v[2]), v[1], text(v[3]))
    if k == "cat":
        return "cat(%s)" % ", ".join(text(x) for x in v[1])
    if k == "set":
        return "{%s}" % ", ".join(sorted(text(x) for x in v[1]))
    if k == "list":
        return "[%s]" % ", ".join(text(x) for x in v[1])
    if k == "call":
        return "%s(%s)" % (v[1], ", ".join(text(x) for x in v[2]))
    if k == "tup":
        return "<%s>" % ", ".join(text(x) for x in v[1])
    if k == "in":
        return "%s in %s" % (text(v[1]), text(v[2]))
    if k == "it":
        return "find(%s, %s)" % (text(v[1]), text(v[2]))
    if k == "end":
        return "end(%s)" % text(v[1])
    if k == "lam":
        return "λ@%s" % v[1].get("l")
    if k == "addr":
        return "&" + v[1]
    if k == "ptr":
        return "&<%s>" % (v[1],)
    if k == "opt":
        return "some(%s)" % text(v[1])
    return str(v)


def glyph(v, e):
    """a character value is text when it is put into text"""
    if v[0] == "i" and e is not None and (strip_type(e.get("t") or "") == "char" or strip_all(e).get("k") == "char") and 0 < v[1] < 128:
        return ("s", chr(v[1]))
    return v


def cat(*xs):
    out = []
    for x in xs:
        ps = x[1] if x[0] == "cat" else (x,)
        for p in ps:
            if p[0] == "i":
                p = ("s", str(p[1]))
            if p[0] == "s" and not p[1]:
                continue
            if p[0] == "s" and out and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + p[1])
            else:
                out.append(p)
    if not out:
        return ("s", "")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


CONST = ("i", "b", "e", "s", "null")
HANDLE = {"key": 0, "mapped": 1, "value": 0}  # of a node taken out of a container


def is_assoc(t):
    return strip_type(t or "").replace("const ", "").startswith(("std::set<", "std::unordered_set<", "std::map<", "std::unordered_map<"))


FORWARDING = {"emplace", "emplace_back", "emplace_front", "emplace_hint", "try_emplace", "insert_or_assign", "push_back", "insert", "make_pair", "make_tuple", "make_shared", "make_unique", "forward", "find", "count"}
TRANSPARENT = {"get", "as", "shared_from_this", "move", "forward", "static_pointer_cast", "dynamic_pointer_cast", "reinterpret_pointer_cast", "const_pointer_cast", "value", "c_str", "as_const"}
STRINGS = ("std::string", "std::basic_string", "basic_string", "const std::string")


def is_string(t):
    t = strip_type(t or "")
    return t.startswith(("std::string", "std::basic_string", "basic_string", "std::__cxx11::basic_string"))


class Prop:
    def __init__(self, F, given=None, assume=(), depth=6, budget=20000, opaque=(), loops=(0, 1), hook=None, inline_virtual=True, keep=None, casts=False, recur=1, fresh=(), types=None, stubs=None):
        self.stubs = dict(stubs or {})
        self.fresh = set(fresh)
        self.types = dict(types or {})
        self.recur = recur
        self.casts = casts
        self.F = F
        self.given = dict(given or {})
        self.assume = list(assume)
        self.depth = depth
        self.budget = budget
        self.opaque = set(opaque)
        self.loops = loops
        self.hook = hook
        self.iv = inline_virtual
        self.seen = set()
        self.keep = keep

    # ------------------------------------------------------------ entry
    def run(self, f, args=None, this="this", st=None):
        view = View(self.F, f, {}, this)
        fr = Frame(self, f, view, 0)
        st = st or St()
        for i, p in enumerate(f.params):
            if args and i in args:
                st.env[(fr.id, p["d"])] = args[i]
            if refptr(p["t"]):
                st.env[("alias", fr.id, p["d"])] = ("alias", "$%d" % i)
        self.seen.add(f.fid)
        return fr.call(st)

    def tick(self):
        self.budget -= 1
        if self.budget <= 0:
            raise Budget("constant propagation gave up: too many paths")


_fid = [0]


def lref(t):
    t = (t or "").strip()
    return t.endswith("&") and not t.startswith("const ") and not t.endswith("const &") and " const &" not in t


def refptr(t):
    """a reference through which a pointer can be re-seated"""
    t = (t or "").strip()
    if not t.endswith("&") or t.endswith("&&"):
        return False
    t = t[:-1].strip()
    return not t.endswith("const") and not t.startswith("const std::") and (t.endswith("*") or t.startswith(("std::shared_ptr<", "shared_ptr<")))


class Frame:
    def __init__(self, P, f, view, depth, this=None):
        _fid[0] += 1
        self.id = _fid[0]
        self.P = P
        self.F = P.F
        self.f = f
        self.view = view
        self.depth = depth
        self.body = f.body

    def call(self, st):
        outs = []
        sts = [st]
        for i in self.f.inits:
            if i.get("e") is None:
                continue
            nxt = []
            for s in sts:
                if i.get("m"):
                    for v, s2 in self.ev(i["e"], s):
                        s2 = s2.fork()
                        loc = self.view.this + "." + last(i["m"])
                        s2.env[loc] = v
                        s2.emit("store", loc, v)
                        nxt.append(s2)
                else:
                    g = self.F.funcs.get(i["e"].get("fid")) if i["e"].get("k") == "ctor" else None
                    if g is not None and g.body is not None and self.depth < self.P.depth:
                        nxt += [o.st for o in self.inline_outs(g, i["e"].get("a", []), self.view.this, None, s) if o.kind != "throw"]
                    else:
                        nxt.append(s)
            sts = nxt
        for s in sts:
            for kind, v, s2 in self.block([self.body], s):
                if kind == "fall":
                    outs.append(Out("end", None, s2))
                elif kind == "ret":
                    outs.append(Out("ret", v, s2))
                elif kind == "throw":
                    outs.append(Out("throw", v, s2))
        return outs

    # ------------------------------------------------------------ statements: [(kind, value, state)]
    def block(self, stmts, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for r in self.stmt(s, c):
                    if r[0] == "fall":
                        nxt.append(r[2])
                    else:
                        done.append(r)
            cur = merge(nxt)
            if not cur:
                break
        return done + [("fall", None, c) for c in cur]

    def stmt(self, s, st):
        self.P.tick()
        if s is None:
            return [("fall", None, st)]
        k = s["k"]
        if k == "block" or k == "ostmt":
            return self.block(s.get("b", []), st)
        if k == "nop":
            return [("fall", None, st)]
        if k == "expr":
            return self.exprs(s["e"], st)
        if k == "decl":
            cur, bad = [st], []
            for v in s["v"]:
                nxt = []
                for c in cur:
                    nxt += self.decl(v, c, bad)
                cur = nxt
            return [("fall", None, c) for c in cur] + [("throw", None, c) for c in bad]
        if k == "if":
            pre = [("fall", None, st)]
            if s.get("init"):
                pre = self.stmt(s["init"], st)
            out = []
            for kind, v, c in pre:
                if kind != "fall":
                    out.append((kind, v, c))
                    continue
                bad = []
                cs = self.decl(s["cv"], c, bad) if s.get("cv") else [c]
                out += [("throw", None, x) for x in bad]
                for c in cs:
                    for b, c2 in self.cond(s["c"], c):
                        if b is None:
                            out.append(("throw", None, c2))
                        else:
                            out += self.stmt(s["x"] if b else s.get("y"), c2)
            return out
        if k == "return":
            e = s.get("e")
            if e is None:
                return [("ret", None, st)]
            if e.get("k") == "throw":
                return self.throw(e, st)
            return [("ret", self.fold(v, c), c) if v != THROW else ("throw", None, c) for v, c in self.ev(e, st)]
        if k == "switch":
            return self.switch(s, st)
        if k in ("case", "default"):
            return self.stmt(s["b"], st)
        if k == "break":
            return [("break", None, st)]
        if k == "continue":
            return [("continue", None, st)]
        if k == "rfor":
            return self.rfor(s, st)
        if k in ("for", "while", "do"):
            return self.loop(s, st)
        if k == "try":
            out = []
            for kind, v, c in self.stmt(s["b"], st):
                if kind == "throw":
                    for h in s["h"]:
                        out += self.stmt(h["b"], c)
                else:
                    out.append((kind, v, c))
            return out
        raise AnalysisError("cprop: statement kind %s" % k)

    def exprs(self, e, st):
        if e.get("k") == "throw":
            return self.throw(e, st)
        return [("fall", None, c) if v != THROW else ("throw", None, c) for v, c in self.ev(e, st)]

    def throw(self, e, st):
        x = e.get("e")
        t = strip_type((x or {}).get("t") or "")
        return [("throw", ("t", t), st)]

    def decl(self, v, st, bad):
        out = []
        key = (self.id, v["d"])
        if v.get("i") is None:
            st = st.fork()
            t = strip_type(v.get("t") or "")
            if is_string(t):
                st.env[key] = ("s", "")
            elif t.startswith(("std::vector<", "std::deque<", "std::set<", "std::unordered_set<", "std::queue<", "std::stack<")):
                st.env[key] = ("list", ())
            elif "stream" in t:
                st.env[key] = ("s", "")
            return [st]
        for x, c in self.ev(v["i"], st):
            c = c.fork()
            if x == THROW:
                bad.append(c)
                continue
            if v.get("binds"):
                for i, b in enumerate(v["binds"]):
                    c.env[(self.id, b["d"])] = self.proj(x, i, v.get("t"), c)
            else:
                t = strip_type(v.get("t") or "")
                if t.startswith(("std::vector<", "std::deque<")) and x[0] == "call" and not x[2]:
                    x = ("list", ())
                bs = ibits(v.get("t"))
                if bs and x[0] == "i":
                    x = ("i", wrap(x[1], bs))
                c.env[key] = x
                i0 = strip_all(v["i"])
                if x[0] == "call" and x[1] == "begin" and i0.get("k") == "call" and last(i0.get("f") or "") in ("begin", "cbegin") and (i0.get("obj") is not None or i0.get("a")):
                    L = self.lvalue(i0.get("obj") or i0["a"][0], c)
                    if L is not None:
                        c.env[("begin", self.id, v["d"])] = ("alias", L)
                if lref(v.get("t")):
                    L = self.lvalue(v["i"], c)
                    if L is not None:
                        c.env[("alias", self.id, v["d"])] = ("alias", L)
            out.append(c)
        return out

    def lvalue(self, e, st):
        """the location an expression denotes, when it is a plain one"""
        e = strip_copy(e)
        k = e.get("k")
        if k == "ref" and e.get("dk") in ("local", "param"):
            a = st.env.get(("alias", self.id, e["d"]))
            return a[1] if a is not None else (self.id, e["d"])
        if k == "mem":
            return text(self.name(e, st))
        if k == "op" and e["o"] == "*" and len(e["a"]) == 1:
            x = strip_all(e["a"][0])
            a = st.env.get(("iter", self.id, x.get("d"))) if x.get("k") == "ref" else None
            if a is None:
                v = self.ev(x, st)[0][0]
                return v[1] if v[0] == "ptr" else None
            return a[1]
        if k == "op" and e["o"] == "[]" or k == "call" and last(e.get("f") or "") == "at" and "obj" in e and len(e.get("a", [])) == 1:
            b, x = (e["a"][0], e["a"][1]) if k == "op" else (e["obj"], e["a"][0])
            base, i = self.lvalue(b, st), self.ev(x, st)[0][0]
            if base is not None and i[0] in CONST:
                v = self.read(base, st)
                if v is None and isinstance(base, tuple) and base[0] == "mapel" and is_map(b.get("t")):
                    v = ("list", ())
                if v is not None and v[0] == "list" and is_map(b.get("t")) and all(x[0] in ("tup", "list") and len(x[1]) == 2 and x[1][0][0] in CONST for x in v[1]):
                    return ("mapel", base, i)
                if is_map(b.get("t")):
                    return None
            if base is not None and i[0] == "i":
                return ("el", base, i[1])
            return None
        if k == "call" and "obj" in e and not e.get("a") and last(e.get("f") or "") in HANDLE and "_Node_handle" in (e.get("f") or ""):
            base = self.lvalue(e["obj"], st)
            v = self.read(base, st) if base is not None else None
            if v is not None and v[0] == "tup":
                return ("el", base, HANDLE[last(e["f"])] if len(v[1]) == 2 else 0)
        if k == "call" and "obj" in e and not e.get("a"):
            g = self.F.funcs.get(e.get("fid"))
            fld = trivial_getter(g) if isinstance(g, Func) else None
            if fld:
                return text(self.ev(e["obj"], st)[0][0]) + "." + fld
        return None

    def read(self, L, st):
        """the value at a location, when it is known"""
        if isinstance(L, tuple) and L[0] in ("el", "mapel"):
            b = self.read(L[1], st)
            if b is None or b[0] not in ("list", "tup") or b[0] == "tup" and L[0] != "el":
                return None
            if L[0] == "el":
                return b[1][L[2]] if -len(b[1]) <= L[2] < len(b[1]) else None
            for x in b[1]:
                if x[0] in ("tup", "list") and len(x[1]) == 2 and x[1][0] == L[2]:
                    return x[1][1]
            return None
        v = st.env.get(L)
        if v is None and isinstance(L, str) and self.P.given:
            v = self.P.given.get(L)
        return None if v is None or callable(v) else v

    def write(self, L, val, st):
        """store at a location (st is already forked); false when its container is unknown"""
        if isinstance(L, tuple) and L[0] in ("el", "mapel"):
            b = self.read(L[1], st)
            if b is None and L[0] == "mapel" and isinstance(L[1], tuple) and L[1][0] == "mapel":
                b = ("list", ())
            if b is not None and b[0] == "tup" and L[0] == "el" and 0 <= L[2] < len(b[1]):
                return self.write(L[1], ("tup", b[1][:L[2]] + (val,) + b[1][L[2] + 1:]), st)
            if b is None or b[0] != "list" or L[0] == "el" and self.read(L, st) is None:
                return False
            if L[0] == "el":
                i = L[2] % len(b[1])
                new = b[1][:i] + (val,) + b[1][i + 1:]
            else:
                new = tuple(("tup", (L[2], val)) if x[1][0] == L[2] else x for x in b[1])
                if not any(x[1][0] == L[2] for x in b[1]):
                    new += (("tup", (L[2], val)),)
            return self.write(L[1], ("list", new), st)
        st.env[L] = val
        # references to it see the same value
        for k in [k for k, v in st.env.items() if isinstance(k, tuple) and k[0] == "alias" and v[1] == L]:
            st.env[k[1:]] = val
        if isinstance(L, str):
            st.emit("store", L, val)
        return True

    def place(self, L, st):
        """the only member that holds this list now"""
        at = {k for k, v in st.env.items() if isinstance(k, str) and v == L}
        at |= {k for k, v in (self.P.given or {}).items() if isinstance(k, str) and v == L and k not in st.env and not k.endswith(")")}
        at = {k for k in at if k.endswith("_") and not (".is_" in k and k.replace(".is_", ".") in at)} or at
        return at.pop() if len(at) == 1 else None

    def held(self, e, v, st):
        """the elements a class's own begin() walks over, when they are known"""
        c = strip_type(e.get("t") or "").replace("const ", "").rstrip(" &*")
        if not c.startswith("kratos::"):
            return None
        for g in self.F.find(c + "::begin"):
            if g.body is None or g.params or self.depth >= self.P.depth:
                continue
            try:
                outs = self.inline_outs(g, [], text(v), None, st)
            except RecursionError:
                return None
            if len(outs) == 1 and outs[0].val is not None:
                p = position(outs[0].val)
                if p is not None and p[1] == 0:
                    return list(p[0][1])
        return None

    def entry(self, m, k, t, insert):
        """the entry of a known map, or the value operator[] makes"""
        if m[0] != "list" or not is_map(t) or k[0] not in CONST or any(x[0] not in ("tup", "list") or len(x[1]) != 2 or x[1][0][0] not in CONST for x in m[1]):
            return None
        for x in m[1]:
            if x[1][0] == k:
                return x[1][1]
        v = targs2(strip_type(t or "").replace("const ", ""))
        if not insert:
            return None
        if v.startswith(("std::set<", "std::unordered_set<", "std::vector<", "std::map<", "std::unordered_map<")):
            return ("list", ())
        if v == "bool":
            return ("b", False)
        return ("i", 0) if ibits(v) else ("null",) if v.endswith("*") or is_smart(v) else ("s", "") if is_string(v) else None

    def proj(self, x, i, t=None, st=None):
        if x[0] == "it" and len(x) > 3 and i < len(x[3]):
            return x[3][i]
        if x[0] == "tup" and i < len(x[1]):
            return x[1][i]
        k = self.F.classes.get(strip_type(t or "").replace("const ", "").rstrip(" &")) if t else None
        if k is not None:
            if x[0] == "list" and i < len(x[1]):
                return x[1][i]
            fl = [m for m in k.get("fields", [])]
            if x[0] == "e" and i < len(fl):
                n = text(x) + "." + fl[i]["n"]
                v = st.env.get(n)
                return v if v is not None else self.P.given.get(n, ("t", n))
        return ("t", project(text(x), i))

    def switch(self, s, st):
        out = []
        pre = [st]
        if s.get("init"):
            pre = [c for k, v, c in self.stmt(s["init"], st) if k == "fall"]
        if s.get("cv"):
            bad = []
            pre = [c2 for c in pre for c2 in self.decl(s["cv"], c, bad)]
            out += [("throw", None, x) for x in bad]
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []
        for x in body:
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x["v"] if x["k"] == "case" else None)
                x = x["b"]
            flat.append((labs, x))
        for c in pre:
            for v, c2 in self.ev(s["c"], c):
                if v == THROW:
                    out.append(("throw", None, c2))
                    continue
                starts = []
                default = None
                neg = []
                decided = False
                for i, (labs, x) in enumerate(flat):
                    for l in labs:
                        if l is None:
                            default = i
                            continue
                        lv = self.ev(l, c2)[0][0]
                        d = self.decide_eq(v, lv, c2)
                        if d is True:
                            starts.append((i, c2))
                            decided = True
                        elif d is None:
                            c3 = c2.fork()
                            a = eqatom(v, lv)
                            c3.trail = c3.trail + ((a, True),)
                            starts.append((i, c3))
                            neg.append((a, False))
                if not decided:
                    c3 = c2.fork()
                    c3.trail = c3.trail + tuple(neg)
                    if default is not None:
                        starts.append((default, c3))
                    else:
                        out.append(("fall", None, c3))
                for i, c3 in starts:
                    for r in self.block([x for _, x in flat[i:]], c3):
                        if r[0] == "break":
                            out.append(("fall", None, r[2]))
                        else:
                            out.append(r)
        return out

    def decide_eq(self, a, b, st):
        if a[0] in CONST and b[0] in CONST:
            if a[0] == b[0]:
                return a[1:] == b[1:]
            return None if {a[0], b[0]} <= {"i", "e", "b"} else False
        if a[0] in ("tup", "list") and b[0] in ("tup", "list") and (a[0] == "tup" or b[0] == "tup" or len(a[1]) == len(b[1])):
            if len(a[1]) != len(b[1]):
                return False
            ds = [self.decide_eq(x, y, st) for x, y in zip(a[1], b[1])]
            if False in ds:
                return False
            if None not in ds:
                return True
        elif a[0] == b[0] == "list" and all(x[0] in CONST for x in a[1] + b[1]):
            return False
        if a[0] == "cat" and b == ("s", ""):
            if any(x[0] == "s" and x[1] for x in a[1]):
                return False
        if a == b and a[0] != "call":
            return True
        return self.known(eqatom(a, b), st)

    def known(self, atom, st):
        if atom[0] in ("null", "truth"):
            # a pointer tested as a truth value
            other = ("truth" if atom[0] == "null" else "null",) + atom[1:]
            v = self.known1(atom, st)
            if v is None:
                v = self.known1(other, st)
                v = None if v is None else not v
            return v
        return self.known1(atom, st)

    def known1(self, atom, st):
        if atom[0] == "null" and atom[1] == "this":
            return False
        if atom[0] == "in" and atom[1] == "each(%s)" % atom[2]:
            return True
        if atom[0] == "in" and atom[1] in ("each(%s)#0" % atom[2],):
            return True
        if atom[0] == "in" and atom[2] == "[]":
            return False
        if atom[0] == "<" and atom[1].startswith("index(") and atom[2] == atom[1][6:-1] + ".size()":
            return True
        for a, p in st.trail:
            if a == atom:
                return p
            # y == A excludes y == B for distinct constants
            if p and a[0] == "==" and atom[0] == "==":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    for u, w in ((atom[1], atom[2]), (atom[2], atom[1])):
                        if x == u and y != w and is_const_text(y) and is_const_text(w):
                            return False
        for f in self.P.assume:
            v = f.value(atom)
            if v is not None:
                return v
        return None

    def iterate(self, s, st, bind, body, more):
        """no element, or one element"""
        out = []
        if 0 in self.P.loops:
            out.append(("fall", None, st))
        if 1 in self.P.loops:
            c = st.fork()
            c.emit("loop", more)
            bind(c)
            for r in self.stmt(body, c):
                if r[0] in ("fall", "break", "continue"):
                    c2 = r[2].fork()
                    c2.emit("endloop", more)
                    out.append(("fall", None, c2))
                else:
                    out.append(r)
        return out

    def rfor(self, s, st):
        out = []
        for rv, c in self.ev(s["r"], st):
            v = s["v"]
            items = None
            if rv[0] == "list":
                items = rv[1]
            elif rv[0] == "set":
                items = sorted(rv[1])
            else:
                items = self.held(s["r"], rv, c)
                if items is None:
                    L = self.ranged(s["r"], rv, c)
                    if L is not None:
                        rv, items = L, L[1]
            if items is not None and len(items) <= 64:
                cur = [c]
                base = self.lvalue(s["r"], c) if rv[0] in ("list", "set") and refptr(v.get("t")) else None
                for n, it in enumerate(items):
                    nxt = []
                    for x in cur:
                        x = x.fork()
                        self.bindvar(x, v, it)
                        if base is not None:
                            x.env[("alias", self.id, v["d"])] = ("alias", ("el", base, n))
                        for r in self.stmt(s["b"], x):
                            if r[0] in ("fall", "continue"):
                                nxt.append(r[2])
                            elif r[0] == "break":
                                out.append(("fall", None, r[2]))
                            else:
                                out.append(r)
                    cur = merge(nxt)
                out += [("fall", None, x) for x in cur]
                continue
            rt = text(rv)
            out += self.iterate(s, c, lambda x: self.bindvar(x, v, ("t", "each(%s)" % rt)), s["b"], rt)
        return out

    def ranged(self, e, rv, st):
        """the known list a class of the code base hands out as its own range (begin())"""
        t = pointee(e.get("t") or "") or strip_type(e.get("t") or "")
        t = t.replace("const ", "").strip()
        if not t.startswith("kratos::") and not any(q == "kratos::" + t for q in self.F.classes):
            return None
        t = t if t.startswith("kratos::") else "kratos::" + t
        for q in [t] + list(self.F.bases(t)):
            for g in self.F.find(q + "::begin"):
                if g.params or not g.file.startswith("src/"):
                    continue
                rs = [(o.kind, o.val) for o in self.inline_outs(g, [], text(rv), None, st)]
                if len(rs) == 1 and rs[0][0] == "ret" and rs[0][1] is not None:
                    p = position(rs[0][1])
                    if p is not None and p[1] == 0:
                        return p[0]
        return None

    def bindvar(self, st, v, val):
        if v.get("binds"):
            for i, b in enumerate(v["binds"]):
                st.env[(self.id, b["d"])] = self.proj(val, i, v.get("t"), st)
        else:
            st.env[(self.id, v["d"])] = val

    def loop(self, s, st):
        pre = [st]
        if s["k"] == "for" and s.get("init"):
            pre, out = [], []
            for x in self.stmt(s["init"], st):
                if x[0] == "fall":
                    pre.append(x[2])
                else:
                    out.append(x)
        else:
            out = []
        for c in pre:
            sp = self.span(s, c)
            if sp is not None:
                d, cont, val, body = sp
                if cont[0] == "s" and cont[1].isascii():
                    cont = ("list", tuple(("i", ord(x)) for x in cont[1]))
                if cont[0] in ("list", "set") and len(cont[1]) <= 64:
                    cur = [c]
                    base = c.env.get(("begin", self.id, d))
                    for n, it in enumerate(cont[1] if cont[0] == "list" else sorted(cont[1])):
                        nxt = []
                        for x in cur:
                            x = x.fork()
                            x.env[(self.id, d)] = it
                            if base is not None:
                                x.env[("iter", self.id, d)] = ("alias", ("el", base[1], n))
                            for r in self.block(body, x):
                                if r[0] in ("fall", "continue"):
                                    nxt.append(r[2])
                                elif r[0] == "break":
                                    out.append(("fall", None, r[2]))
                                else:
                                    out.append(r)
                        cur = merge(nxt)
                    out += [("fall", None, x) for x in cur]
                    continue

                def bind(x, d=d, val=val):
                    x.env[(self.id, d)] = val
                out += self.iterate(s, c, bind, {"k": "block", "b": body}, text(cont))
                continue
            # counted loop with constant bounds: follow it as long as the condition is constant
            cur = [(c, 0)]
            while cur:
                c1, n = cur.pop()
                self.P.tick()
                if s["k"] == "do" and n == 0:
                    conds = [(True, c1)]
                elif s.get("c") is None:
                    conds = [(True, c1)]
                else:
                    bad = []
                    cs = self.decl(s["cv"], c1, bad) if s.get("cv") else [c1]
                    out += [("throw", None, x) for x in bad]
                    conds = []
                    for c1 in cs:
                        conds += self.cond(s["c"], c1)
                forked = len(conds) > 1
                for b, c2 in conds:
                    if not b:
                        if b is None or not forked or 0 in self.P.loops or not any(x for x, _ in conds):
                            out.append(("fall" if b is not None else "throw", None, c2))
                        continue
                    if forked and 1 not in self.P.loops:
                        continue
                    if n >= (1 if forked else 70):
                        continue
                    hav = c2
                    if forked:
                        hav = self.havoc(s, c2)
                    for r in self.stmt(s["b"], hav):
                        if r[0] == "break":
                            out.append(("fall", None, r[2]))
                        elif r[0] in ("fall", "continue"):
                            c3 = r[2]
                            cs = [c3]
                            if s["k"] == "for" and s.get("inc"):
                                cs = [x for v, x in self.ev(s["inc"], c3)]
                            for x in cs:
                                if forked:
                                    out.append(("fall", None, self.havoc(s, x)))
                                else:
                                    cur.append((x, n + 1))
                        else:
                            out.append(r)
        return out

    def span(self, s, st):
        """(local, container, value, body) of a loop that visits every element of a container once, in order, by index or iterator"""
        cond = s.get("c")
        while cond is not None and cond.get("k") in ("icast", "cast", "expr"):
            cond = cond["e"]
        if cond is None or s["k"] not in ("for", "while") or s.get("cv") or cond.get("k") != "op" or cond.get("o") not in ("<", "!=", ">") or len(cond.get("a", [])) != 2:
            return None
        x, y = [strip_all(z) for z in cond["a"]]
        body = s["b"].get("b") if s["b"].get("k") == "block" else [s["b"]]
        inc = s.get("inc")
        if inc is None and s["k"] == "while" and body:
            inc, body = body[-1], body[:-1]
            if any(n.get("k") == "continue" for n in walk({"k": "block", "b": body})):
                return None
        while inc is not None and inc.get("k") in ("icast", "cast", "expr"):
            inc = inc["e"]
        if inc is None or inc.get("o") not in ("++", "post++") or not inc.get("a"):
            return None
        for v, lim in ((x, y), (y, x)):
            if v.get("k") != "ref" or v.get("dk") != "local" or cond["o"] == "<" and v is not x or cond["o"] == ">" and v is not y:
                continue
            d = v["d"]
            if strip_all(inc["a"][0]).get("d") != d or modifies({"k": "block", "b": body}, d):
                continue
            cur = st.env.get((self.id, d))
            rs = self.ev(lim, st)
            if cur is None or len(rs) != 1:
                return None
            lv = rs[0][0]
            if cur == ("i", 0) and lv[0] != "i" and text(lv).endswith(".size()"):
                c = text(lv)[:-7]
                return d, ("t", c), ("t", "index(%s)" % c), body
            if cur[0] == "call" and cur[1] == "begin" and cond["o"] == "!=" and (lv == ("end", cur[2][0]) or self.end_of(cur[2][0]) == lv):
                return d, cur[2][0], ("t", "each(%s)" % text(cur[2][0])), body
        return None

    def end_of(self, o):
        return end_of(o)

    def havoc(self, s, st):
        """forget locals a loop of unknown length modifies (counters become symbolic)"""
        st = st.fork()
        for n in walk(s):
            if n.get("k") == "op" and n.get("a") and isinstance(n["a"][0], dict) and n["a"][0].get("k") == "ref" and n["o"] in ("++", "--", "post++", "post--", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>="):
                d = n["a"][0].get("d")
                key = (self.id, d)
                v = st.env.get(key)
                if v is not None and v[0] in ("i",):
                    st.env[key] = ("t", "%" + n["a"][0]["n"])
        return st

    # ------------------------------------------------------------ conditions: [(bool, state)]
    def cond(self, e, st):
        while e.get("k") in ("icast", "cast") and e["e"].get("k") in ("op", "icast", "cast", "bool", "cond"):
            e = e["e"]
        k = e.get("k")
        if k == "op" and e.get("bi"):
            if e["o"] == "!":
                return [((not b) if b is not None else None, c) for b, c in self.cond(e["a"][0], st)]
            if e["o"] == "&&":
                out = []
                for b, c in self.cond(e["a"][0], st):
                    out += self.cond(e["a"][1], c) if b else [(b, c)]
                return out
            if e["o"] == "||":
                out = []
                for b, c in self.cond(e["a"][0], st):
                    out += [(b, c)] if b or b is None else self.cond(e["a"][1], c)
                return out
        if k == "cond":
            out = []
            for b, c in self.cond(e["c"], st):
                out += self.cond(e["x"] if b else e["y"], c)
            return out
        out = []
        for v, c in self.ev(e, st):
            out += self.split(v, c, e)
        return out

    def fold(self, v, c):
        """a comparison or membership test that the facts of this path decide"""
        if v is not None and (v[0] == "in" or v[0] == "op" and v[1] in ("!", "==", "!=", "<", ">", "<=", ">=")):
            a, pol = self.atom(v)
            d = self.known(a, c)
            if d is not None:
                return ("b", d == pol)
            if v[0] == "op" and a[0] == "in":
                i = ("in", ("t", a[1]), ("t", a[2]))
                return i if pol else ("op", "!", i)
        return v

    def split(self, v, c, e=None):
        if v == THROW:
            return [(None, c)]
        b = truth(v)
        if b is not None:
            return [(b, c)]
        a, pol = self.atom(v, e)
        d = self.known(a, c)
        if d is not None:
            return [(d == pol, c)]
        out = []
        for val in (True, False):
            c2 = c.fork()
            c2.trail = c2.trail + ((a, val),)
            out.append((val == pol, c2))
        return out

    def atom(self, v, e=None):
        """normalised atom of a symbolic truth value"""
        if v[0] == "op":
            o = v[1]
            if o == "!" and len(v) == 3:
                a, p = self.atom(v[2])
                return a, not p
            if o in ("==", "!=") and len(v) == 4:
                x, y = v[2], v[3]
                pol = o == "=="
                for p, q in ((x, y), (y, x)):
                    if q[0] == "end" and p[0] == "it":
                        return ("in", text(p[2]), text(p[1])), not pol
                    if q == ("i", 0) and text(p).endswith(".size()"):
                        return ("empty", text(p)[:-7], ""), pol
                    if q[0] == "null":
                        return ("null", text(p), ""), pol
                    if q[0] == "b":
                        a, pp = self.atom(p)
                        return a, (pp == q[1]) == pol
                    if q == ("s", ""):
                        return ("empty", text(p), ""), pol
                    if text(q).endswith("npos"):
                        return ("==", text(p), "npos"), pol
                return eqatom(x, y), pol
            if o in ("<", ">", "<=", ">=") and len(v) == 4:
                x, y = text(v[2]), text(v[3])
                pol = o in ("<", ">")
                if o in (">", "<="):
                    x, y = y, x
                # now: x < y with polarity pol
                if y.endswith(".size()") and x == "0":
                    return ("empty", y[:-7], ""), not pol
                if x.endswith(".size()") and y == "1":
                    return ("empty", x[:-7], ""), pol
                return ("<", x, y), pol
        if v[0] == "call":
            n = v[1]
            if n.endswith(".empty") and not v[2]:
                return ("empty", n[:-6], ""), True
        if v[0] == "in":
            return ("in", text(v[1]), text(v[2])), True
        while e is not None and e.get("k") in ("icast", "cast") and strip_type(e.get("t") or "") == "bool":
            e = e["e"]
        if e is not None and e.get("k") == "call" and e.get("conv"):
            e = e["obj"]
        t = strip_type((e or {}).get("t") or "")
        x = text(v)
        if x.endswith(".empty()"):
            return ("empty", x[:-8], ""), True
        if x.endswith(".size()"):
            return ("empty", x[:-7], ""), False
        if t.endswith("*") or is_smart(t):
            return ("null", x, ""), False
        return ("truth", x, ""), True

    # ------------------------------------------------------------ expressions: [(value, state)]
    def evs(self, es, st):
        cur = [((), st)]
        for e in es:
            nxt = []
            for vs, c in cur:
                if vs and vs[-1] == THROW:
                    nxt.append((vs, c))
                    continue
                for v, c2 in self.ev(e, c):
                    nxt.append((vs + (v,), c2))
            cur = nxt
        return cur

    def loc(self, e, st):
        """key of an assignable location"""
        e = strip_copy(e)
        k = e.get("k")
        if k == "ref" and e.get("dk") in ("local", "param", "bind"):
            v = st.env.get((self.id, e["d"]))
            if v is not None and v[0] == "addr":
                return v[2]
            return (self.id, e["d"])
        if k == "op" and e["o"] in ("*", "&") and len(e["a"]) == 1:
            if e["o"] == "*":
                x = strip_copy(e["a"][0])
                if x.get("k") == "ref" and x.get("dk") == "local":
                    v = st.env.get((self.id, x["d"]))
                    if v is not None and text(v).startswith("find("):
                        return "*" + text(v)
            return self.loc(e["a"][0], st)
        if k == "call" and "obj" in e and not e.get("a"):
            g = self.F.funcs.get(e.get("fid"))
            fld = trivial_getter(g) if isinstance(g, Func) else None
            if fld:
                return text(self.ev(e["obj"], st)[0][0]) + "." + fld
        return text(self.name(e, st))

    def name(self, e, st):
        """symbolic name of a member location (not its value)"""
        e = strip_copy(e)
        k = e.get("k")
        if k == "mem":
            b = e.get("b")
            if b is None:
                return ("t", e["n"])
            bv = self.ev(b, st)[0][0]
            return ("t", text(bv) + "." + e["n"])
        if k == "op" and e["o"] == "[]":
            return ("t", elem(text(self.name(e["a"][0], st)), text(self.ev(e["a"][1], st)[0][0])))
        return self.ev(e, st)[0][0]

    def ev(self, e, st):
        r = self.ev_(e, st)
        if self.P.given:
            out = []
            for v, c in r:
                if v[0] in ("t", "op", "call"):
                    g = self.P.given.get(text(v))
                    if g is not None:
                        v = g(c) if callable(g) else g
                out.append((v, c))
            return out
        return r

    def ev_(self, e, st):
        self.P.tick()
        if e is None:
            return [(("null",), st)]
        k = e.get("k")
        if k in ("defarg", "definit"):
            return self.ev(e["e"], st) if e.get("e") else [(("t", "?"), st)]
        if k in ("icast", "cast"):
            bs = ibits(e.get("t"))
            out = []
            for v, c in self.ev(e["e"], st):
                if self.P.types and e.get("s") == "dynamic":
                    v = self.dyncast(v, e.get("t"))
                if v[0] == "i" and bs:
                    v = ("b", v[1] != 0) if strip_type(e["t"]) == "bool" else ("i", wrap(v[1], bs))
                elif v[0] == "b" and bs and strip_type(e["t"]) != "bool":
                    v = ("i", int(v[1]))
                elif v[0] == "e" and bs:
                    ev = self.enum_value(v[1])
                    if ev is not None:
                        v = ("i", wrap(ev, bs))
                elif v[0] == "i" and v[1] == 0 and strip_type(e.get("t") or "").endswith("*"):
                    v = ("null",)
                elif strip_type(e.get("t") or "") == "bool" and v[0] not in CONST and v[0] not in ("op", "in") and pointerish(e["e"]):
                    v = ("op", "!=", v, ("null",))
                elif bs and self.P.casts:
                    v = self.recast(v, e["e"].get("t"), bs)
                out.append((v, c))
            return out
        if k == "int":
            bs = ibits(e.get("t")) or (64, True)
            return [(("i", wrap(int(e["v"]), bs)), st)]
        if k == "bool":
            return [(("b", bool(e["v"])), st)]
        if k == "char":
            return [(("i", e["v"]), st)]
        if k == "str":
            return [(("s", e["v"]), st)]
        if k == "null":
            return [(("null",), st)]
        if k == "this":
            return [(("t", self.view.this), st)]
        if k == "ref":
            return [(self.ref(e, st), st)]
        if k == "mem":
            return self.member(e, st)
        if k == "memfn":
            return [(("t", self.view.canon(e)), st)]
        if k == "lambda":
            return [(("lam", Lam(e, self)), st)]
        if k == "cond":
            out = []
            for b, c in self.cond(e["c"], st):
                if b is None:
                    out.append((THROW, c))
                else:
                    out += self.ev(e["x"] if b else e["y"], c)
            return out
        if k == "throw":
            return [(THROW, st)]
        if k == "op":
            return self.op(e, st)
        if k == "call":
            return self.call_(e, st)
        if k == "ctor":
            return self.ctor(e, st)
        if k == "init":
            ps = {i: self.listptr(x, st) for i, x in enumerate(e.get("a", []))}
            return [(("list", tuple(ps[i] or v for i, v in enumerate(vs))) if THROW not in vs else THROW, c) for vs, c in self.evs(e.get("a", []), st)]
        if k == "sizeof":
            bs = ibits(e["t"])
            return [(("i", bs[0] // 8) if bs else ("t", "sizeof(%s)" % e["t"]), st)]
        if k == "new":
            return [(("t", "new(%s)" % e["t"]), st)]
        return [(("t", self.view.canon(e)), st)]

    def listptr(self, e, st):
        """the address of a local container"""
        x = strip_all(e)
        if x.get("k") == "op" and x["o"] == "&" and len(x["a"]) == 1:
            y = strip_copy(x["a"][0])
            if y.get("k") == "ref" and y.get("dk") == "local" and ("alias", self.id, y["d"]) not in st.env:
                v = st.env.get((self.id, y["d"]))
                if v is not None and v[0] in ("list", "set"):
                    return ("ptr", (self.id, y["d"]))
        return None

    def dyncast(self, v, t):
        """a checked downcast of an object whose class is known"""
        q = self.P.types.get(text(v).lstrip("&*"))
        m = re.search(r"([\w:]+)\s*[*&>]*\s*$", (t or "").replace("const", "").strip())
        if not q or not m:
            return v
        want = m.group(1) if m.group(1).startswith("kratos::") else "kratos::" + m.group(1)
        return v if want == q or q in self.F.subclasses(want) else ("null",)

    def recast(self, v, frm, bs):
        fb = ibits(frm)
        if fb is None or fb == bs or v[0] not in ("t", "op", "call") or fb[0] == 1:
            return v
        if fb[0] < bs[0] and (bs[1] or not fb[1]):
            return v
        return ("call", ("s" if bs[1] else "u") + str(bs[0]), (v,))

    def enum_value(self, q):
        en = q.rsplit("::", 1)[0]
        d = self.F.enums.get(en)
        if not d:
            return None
        for i, c in enumerate(d["c"]):
            if c["q"] == q:
                return int(c["v"]) if "v" in c else i
        return None

    def ref(self, e, st):
        dk = e.get("dk")
        if e.get("q") == "std::nullopt":
            return ("null",)
        if dk in ("local", "param", "bind", "slocal"):
            al = st.env.get(("alias", self.id, e.get("d")))
            if al is not None and isinstance(al[1], tuple) and al[1][0] in ("el", "mapel"):
                v = self.read(al[1], st)
                if v is not None:
                    return v
            v = st.env.get((self.id, e.get("d")))
            if v is not None:
                if v[0] == "addr":
                    return st.env.get(v[2], ("t", v[1]))
                return v
            if dk == "slocal":
                q = e.get("q") or (self.f.q + "::" + e["n"])
                x = self.F.vars.get(q)
                if x is not None and x.get("i"):
                    return self.ev(x["i"], St())[0][0]
            # a local captured by a lambda of an enclosing frame
            return ("t", self.view.canon(e))
        if dk == "enumc":
            return ("e", e["q"])
        if dk == "global":
            q = e.get("q") or e["n"]
            x = self.F.vars.get(q)
            if x is not None and x.get("i") and (strip_type(x.get("t", "")).startswith("const ") or "const" in (x.get("t") or "") or x.get("constexpr")):
                return self.ev(x["i"], St())[0][0]
            return ("t", short(q))
        return ("t", self.view.canon(e))

    def member(self, e, st):
        b = e.get("b")
        if b is None:
            return [(("t", e["n"]), st)]
        if strip_copy(b).get("k") == "this" and self.view.alias.get(e.get("q")) is not None:
            return self.ev(self.view.alias[e["q"]], st)
        out = []
        for v, c in self.ev(b, st):
            if v == THROW:
                out.append((v, c))
                continue
            n = e["n"]
            if n in ("first", "second"):
                if v[0] == "tup" or strip_type(e.get("q", "")).startswith("std::pair"):
                    out.append((self.proj(v, 0 if n == "first" else 1), c))
                    continue
            t = text(v) + "." + n
            out.append((c.env.get(t, ("t", t)), c))
        return out

    def element(self, tgt, st):
        """(container expression, index) when tgt is an element of a list whose contents are known"""
        t = strip_copy(tgt or {})
        k = t.get("k")
        obj, idx = None, None
        if k == "call" and t.get("obj") is not None:
            n = (t.get("f") or "").split("::")[-1]
            if n in ("front", "back"):
                obj, idx = t["obj"], 0 if n == "front" else -1
            elif n in ("at", "operator[]") and len(t.get("a", [])) == 1:
                obj, idx = t["obj"], t["a"][0]
        elif k == "op" and t.get("o") == "[]" and len(t.get("a", [])) == 2:
            obj, idx = t["a"][0], t["a"][1]
        if obj is None or is_map(obj.get("t")):
            return None
        rs = self.ev(obj, st)
        if len(rs) != 1 or rs[0][0][0] != "list":
            return None
        L = rs[0][0]
        if isinstance(idx, dict):
            r = self.ev(idx, st)
            if len(r) != 1 or r[0][0][0] != "i":
                return None
            idx = r[0][0][1]
        if not -len(L[1]) <= idx < len(L[1]):
            return None
        return obj, L, idx % len(L[1])

    def update(self, tgt, val, st):
        """put a known container back where it came from"""
        el = self.element(tgt, st)
        if el is not None:
            obj, L, i = el
            return self.update(obj, ("list", L[1][:i] + (val,) + L[1][i + 1:]), st)
        st = st.fork()
        L = self.lvalue(tgt, st)
        if isinstance(L, tuple) and L[0] == "mapel" and self.write(L, val, st):
            return st
        st.env[self.loc(tgt, st)] = val
        return st

    def mapped(self, tgt, val, st):
        """assignment to an entry of a map whose entries are known"""
        t = strip_copy(tgt or {})
        if t.get("k") == "call" and t.get("obj") is not None and (t.get("f") or "").split("::")[-1] == "operator[]" and len(t.get("a", [])) == 1:
            obj, idx = t["obj"], t["a"][0]
        elif t.get("k") == "op" and t.get("o") == "[]" and len(t.get("a", [])) == 2:
            obj, idx = t["a"]
        else:
            return None
        if not strip_type(obj.get("t") or "").startswith(("std::map<", "std::unordered_map<")):
            return None
        rs = self.ev(obj, st)
        ks = self.ev(idx, st)
        if len(rs) != 1 or len(ks) != 1 or rs[0][0][0] != "list" or ks[0][0][0] not in CONST:
            return None
        L, k = rs[0][0][1], ks[0][0]
        if not all(x[0] in ("tup", "list") and len(x[1]) == 2 and x[1][0][0] in CONST for x in L):
            return None
        new = ("tup", (k, val))
        L = tuple(new if x[1][0] == k else x for x in L) if any(x[1][0] == k for x in L) else L + (new,)
        return self.update(obj, ("list", L), st)

    def assign(self, tgt, val, st, e):
        m = self.mapped(tgt, val, st)
        if m is not None:
            return m
        el = self.element(tgt, st)
        if el is not None:
            obj, L, i = el
            return self.assign(obj, ("list", L[1][:i] + (val,) + L[1][i + 1:]), st, e)
        bs = ibits((tgt or {}).get("t"))
        if bs and val[0] == "i":
            val = ("i", wrap(val[1], bs))
        t = strip_copy(tgt or {})
        if t.get("k") == "call" and "_Node_handle" in (t.get("f") or ""):
            L = self.lvalue(t, st)
            if isinstance(L, tuple) and L[0] == "el":
                st = st.fork()
                if self.write(L, val, st):
                    return st
        if t.get("k") == "op" and t.get("o") == "*" and len(t.get("a", [])) == 1:
            p = self.ev(t["a"][0], st)[0][0]
            if p[0] == "ptr":
                st = st.fork()
                if self.write(p[1], val, st):
                    return st
            q = position(p)
            if q is not None and 0 <= q[1] < len(q[0][1]):
                L = self.place(q[0], st)
                if L is not None:
                    st = st.fork()
                    if self.write(L, ("list", q[0][1][:q[1]] + (val,) + q[0][1][q[1] + 1:]), st):
                        return st
        key = self.loc(tgt, st)
        st = st.fork()
        st.env[key] = val
        if isinstance(key, str):
            st.emit("store", key, val)
        else:
            al = st.env.get(("alias",) + key)
            if al is not None:
                st.env[al[1]] = val
                if isinstance(al[1], str):
                    st.emit("store", al[1], val)
                elif al[1][0] == "mapel":
                    self.write(al[1], val, st)
                elif al[1][0] == "el":
                    _, base, i = al[1]
                    L = st.env.get(base)
                    if L is None and isinstance(base, str):
                        L = self.P.given.get(base) if self.P.given else None
                    if L is not None and not callable(L) and L[0] == "list" and i < len(L[1]):
                        L = ("list", L[1][:i] + (val,) + L[1][i + 1:])
                        st.env[base] = L
                        if isinstance(base, str):
                            st.emit("store", base, L)
        return st

    def op(self, e, st):
        o = e["o"]
        a = e.get("a", [])
        if o == "," and len(a) == 2:
            return [r for _, c in self.ev(a[0], st) for r in self.ev(a[1], c)]
        if o in ("&&", "||", "!") and (e.get("bi") or o == "!"):
            if o == "!" and not e.get("bi"):
                return [(("op", "!", v), c) for v, c in self.ev(a[0], st)]
            return [(("b", b) if b is not None else THROW, c) for b, c in self.cond(e, st)]
        if o == "&" and len(a) == 1:
            x = strip_copy(a[0])
            if x.get("k") == "ref" and x.get("dk") in ("local", "param"):
                key = (self.id, x["d"])
                v = st.env.get(key)
                if v is None or v[0] in ("i", "b"):
                    return [(("addr", self.view.canon(x), key), st)]
            L = self.lvalue(a[0], st)
            if isinstance(L, tuple) and L[0] in ("el", "mapel"):
                v = self.read(L, st)
                if v is not None and v[0] in ("i", "b"):
                    return [(("ptr", L), st)]
            return self.ev(a[0], st)
        if o in ("->", "*") and len(a) == 1:
            return [(self.deref(v, c), c) for v, c in self.ev(a[0], st)]
        if o == "=" and len(a) == 2:
            out = []
            for v, c in self.ev(a[1], st):
                out.append((v, self.assign(a[0], v, c, e) if v != THROW else c))
            return out
        if o in ("++", "--", "post++", "post--"):
            out = []
            for v, c in self.ev(a[0], st):
                if v[0] == "i":
                    n = ("i", v[1] + (1 if "++" in o else -1))
                else:
                    n = self.arith("+" if "++" in o else "-", v, ("i", 1), e.get("t"))
                out.append((v if o.startswith("post") else n, self.assign(a[0], n, c, e)))
            return out
        if o in ("+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%=") and len(a) == 2:
            out = []
            for (x, y), c in self.evs(a, st):
                if o == "+=" and (is_string(a[0].get("t")) or x[0] in ("s", "cat")):
                    v = cat(x, y)
                else:
                    v = self.arith(o[:-1], x, y, e.get("ct") or a[0].get("t"))
                out.append((v, self.assign(a[0], v, c, e)))
            return out
        if o == "<<" and not e.get("bi") and len(a) == 2:
            # stream output
            out = []
            for (x, y), c in self.evs(a, st):
                base = a[0]
                while True:
                    base = strip_copy(base)
                    if base.get("k") == "op" and base["o"] == "<<" and not base.get("bi"):
                        base = base["a"][0]
                        continue
                    break
                y = glyph(y, a[1])
                if x[0] == "cat" or x[0] == "s":
                    v = cat(x, y)
                    c = c.fork()
                    key = self.loc(base, c)
                    c.env[key] = v
                    out.append((v, c))
                else:
                    c = c.fork()
                    c.emit("out", text(x), y)
                    out.append((x, c))
            return out
        if o == "[]" and len(a) == 2:
            out = []
            for (x, y), c in self.evs(a, st):
                m = self.entry(x, y, a[0].get("t"), True)
                if m is not None:
                    v = m
                elif x[0] in ("list", "tup") and y[0] == "i" and 0 <= y[1] < len(x[1]) and not is_map(a[0].get("t")):
                    v = x[1][y[1]]
                elif x[0] == "s" and y[0] == "i" and 0 <= y[1] <= len(x[1]):
                    v = ("i", ord((x[1] + "\0")[y[1]]))
                else:
                    t = elem(text(x), text(y))
                    v = c.env.get(t, ("t", t))
                out.append((v, c))
            return out
        if o == "()":
            return self.call_lambda(e, a, st)
        if len(a) == 1:
            out = []
            for v, c in self.ev(a[0], st):
                out.append((self.unary(o, v, e.get("t")), c))
            return out
        if len(a) == 2:
            out = []
            for vs, c in self.evs(a, st):
                if THROW in vs:
                    out.append((THROW, c))
                    continue
                x, y = vs
                if o == "+" and not e.get("bi") and (is_string(e.get("t")) or x[0] in ("s", "cat") or y[0] in ("s", "cat")):
                    out.append((cat(glyph(x, a[0]), glyph(y, a[1])), c))
                    continue
                out.append((self.arith(o, x, y, e.get("t"), a, c), c))
            return out
        return [(("t", self.view.canon(e)), st)]

    def scan(self, L, lam, st):
        """[(index of the first element a predicate accepts or None, state)]"""
        out, live = [], [st]
        for i, x in enumerate(L):
            nxt = []
            for c in live:
                for v, c2 in lam.invoke(self, (x,), c):
                    for b, c3 in self.split(v, c2):
                        if b is None:
                            out.append((THROW, c3))
                        elif b:
                            out.append((i, c3))
                        else:
                            nxt.append(c3)
            live = nxt
        return out + [(None, c) for c in live]

    def search(self, q, vs, st):
        """std algorithms over the whole of a known list: [(value, state)] or None"""
        f = last(q)
        p, n = position(vs[0]), position(vs[1])
        if p is None and vs[0][0] == "call" and vs[0][1] == "begin" and vs[0][2][0][0] == "list":
            p = vs[0][2][0], 0
        if p is None or p[1] != 0 or not (n == (p[0], len(p[0][1])) or vs[1] == self.end_of(p[0])):
            return None
        L = p[0]
        at = lambda i: ("op", "+", ("call", "begin", (L,)), ("i", i))
        if f == "find":
            if vs[2][0] not in CONST or any(x[0] not in CONST for x in L[1]):
                return None
            i = next((i for i, x in enumerate(L[1]) if x == vs[2]), None)
            return [(self.end_of(L) if i is None else at(i), st)]
        if vs[2][0] != "lam" or len(L[1]) > 16 or self.depth >= self.P.depth:
            return None
        neg = f in ("all_of", "find_if_not")
        lam = vs[2][1]

        class Neg:
            @staticmethod
            def invoke(fr, x, c):
                return [(v if v == THROW else self.unary("!", v, None), c2) for v, c2 in lam.invoke(fr, x, c)]
        out = []
        for i, c in self.scan(L[1], Neg if neg else lam, st):
            if i is THROW:
                out.append((THROW, c))
            elif f in ("any_of", "all_of", "none_of"):
                out.append((("b", (i is not None) == (f == "any_of")), c))
            else:
                out.append((self.end_of(L) if i is None else at(i), c))
        return out

    def deref(self, v, st):
        p = position(v) if v[0] == "op" else None
        if p is not None and 0 <= p[1] < len(p[0][1]):
            return p[0][1][p[1]]
        if v[0] == "call" and v[1] == "begin" and len(v[2]) == 1 and v[2][0][0] == "list" and v[2][0][1]:
            return v[2][0][1][0]
        if v[0] == "addr":
            return st.env.get(v[2], ("t", v[1]))
        if v[0] == "opt":
            return v[1]
        if v[0] == "ptr":
            r = self.read(v[1], st)
            return r if r is not None else v
        return v

    def unary(self, o, v, t):
        bs = ibits(t)
        if v[0] == "b" and o == "!":
            return ("b", not v[1])
        if v[0] == "i":
            bs = bs or (64, True)
            if o == "-":
                return ("i", wrap(-v[1], bs))
            if o == "~":
                return ("i", wrap(~v[1], bs))
            if o == "+":
                return v
            if o == "!":
                return ("b", v[1] == 0)
        return ("op", o, v)

    def arith(self, o, x, y, t, ast=None, st=None):
        bs = ibits(t)
        if x[0] == "i" and y[0] == "t" and y[1].endswith("npos"):
            y = ("i", NPOS)
        elif y[0] == "i" and x[0] == "t" and x[1].endswith("npos"):
            x = ("i", NPOS)
        if o in ("==", "!=", "-", "<") and "op" in (x[0], y[0]) or o in ("-", "<") and {x[0], y[0]} <= {"end", "call"}:
            p, q = position(x), position(y)
            if p is not None and q is not None and p[0] == q[0]:
                return ("i", p[1] - q[1]) if o == "-" else ("b", p[1] < q[1] if o == "<" else (p[1] == q[1]) == (o == "=="))
            for p, z in ((p, y), (q, x)):
                if p is not None and o in ("==", "!=") and z == self.end_of(p[0]):
                    return ("b", (p[1] == len(p[0][1])) == (o == "=="))
        if o in ("==", "!=") and (x[0] == "opt" or y[0] == "opt"):
            if x[0] == "null" or y[0] == "null":
                return ("b", o == "!=")
            x, y = (v[1] if v[0] == "opt" else v for v in (x, y))
        if x[0] == "b" and y[0] == "b":
            x2, y2 = int(x[1]), int(y[1])
            if o in ("==", "!="):
                return ("b", (x2 == y2) == (o == "=="))
            if o in ("&", "|", "^"):
                return ("i", {"&": x2 & y2, "|": x2 | y2, "^": x2 ^ y2}[o])
        if x[0] == "i" and y[0] == "i":
            p, q = x[1], y[1]
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return ("b", {"==": p == q, "!=": p != q, "<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q}[o])
            bs = bs or (64, True)
            try:
                if o in ("<<", ">>") and (q < 0 or q >= bs[0]):
                    return ("t", "oversized-shift(%d %s %d)" % (p, o, q))
                r = {"+": lambda: p + q, "-": lambda: p - q, "*": lambda: p * q, "/": lambda: int(abs(p) // abs(q)) * (1 if (p < 0) == (q < 0) else -1),
                     "%": lambda: p - q * (int(abs(p) // abs(q)) * (1 if (p < 0) == (q < 0) else -1)), "<<": lambda: p << q, ">>": lambda: p >> q,
                     "&": lambda: p & q, "|": lambda: p | q, "^": lambda: p ^ q}[o]()
                return ("i", wrap(r, bs))
            except (KeyError, ZeroDivisionError):
                return ("op", o, x, y)
        if o in ("==", "!="):
            d = self.decide_eq(x, y, st or St())
            for p, q in ((x, y), (y, x)):
                if q[0] == "end" and p[0] == "it" and p[1][0] in ("set", "list") and p[2][0] in CONST and all(i[0] in CONST for i in p[1][1]):
                    d = p[2] not in p[1][1]
                if q == ("null",) and p[0] in ("lam", "list"):
                    d = False
            if d is not None:
                return ("b", d == (o == "=="))
            if text(y) < text(x):
                x, y = y, x
            return ("op", o, x, y)
        if o in ("+", "*", "&", "|", "^") and text(y) < text(x):
            x, y = y, x
        return ("op", o, x, y)

    # ------------------------------------------------------------ calls
    def ctor(self, e, st):
        a = [x for x in e.get("a", []) if not is_defarg(x)]
        t = strip_type(e.get("t") or "")
        out = []
        for vs, c in self.evs(a, st):
            if THROW in vs:
                out.append((THROW, c))
                continue
            if len(vs) == 1 and t.startswith("std::optional<") and vs[0][0] in ("i", "b") and not strip_type(a[0].get("t") or "").replace("const ", "").startswith("std::optional"):
                out.append((("opt", vs[0]), c))
            elif len(vs) == 1 and (is_string(t) or is_smart(t) or "__normal_iterator<" in t or t.startswith(("fmt::", "std::optional", "std::function", "std::basic_string_view"))):
                out.append((vs[0], c))
            elif not vs and is_string(t):
                out.append((("s", ""), c))
            elif not vs and is_smart(t):
                out.append((("null",), c))
            elif len(vs) == 2 and is_string(t) and vs[0][0] == "i" and vs[0][1] < 256 and vs[1][0] == "i" and 0 < vs[1][1] < 128:
                out.append((("s", chr(vs[1][1]) * vs[0][1]), c))
            elif "stringstream" in t:
                out.append((("s", ""), c))
            elif t.startswith(("std::set<", "std::unordered_set<")):
                if len(vs) >= 1 and vs[0][0] == "list":
                    out.append((("set", frozenset(vs[0][1])), c))
                elif not vs:
                    out.append((("list", ()), c))
                else:
                    L = sublist(vs)
                    out.append((("set", frozenset(L[1])) if L and L[0] == "list" else L or ("call", short(t).split("<")[0], vs), c))
            elif t.startswith(("std::queue<", "std::stack<")) and not vs:
                out.append((("list", ()), c))
            elif t.startswith(("std::vector<", "std::deque<", "std::initializer_list<")):
                el = targs1(t)
                zero = ("i", 0) if ibits(el) and el != "bool" else ("b", False) if el == "bool" else ("null",) if el.endswith("*") or is_smart(el) else None
                if vs and vs[0][0] == "i" and 0 <= vs[0][1] <= 64 and len(vs) <= 2 and ibits(a[0].get("t")) and (len(vs) == 2 or zero is not None) and not t.startswith("std::init"):
                    out.append((("list", (vs[1] if len(vs) == 2 else zero,) * vs[0][1]), c))
                elif len(vs) == 1:
                    out.append((vs[0], c))
                elif not vs:
                    out.append((("list", ()), c))
                else:
                    out.append((sublist(vs) or ("call", "vector", vs), c))
            elif t.startswith(("std::pair<", "std::tuple<")):
                out.append((("tup", vs) if len(vs) > 1 else vs[0] if vs else ("t", "{}"), c))
            elif t.startswith(("std::map<", "std::unordered_map<")) and not vs:
                out.append((("list", ()), c))
            elif t.startswith(("std::map<", "std::unordered_map<")) and len(vs) >= 1 and vs[0][0] == "list":
                out.append((("list", vs[0][1]), c))
            elif len(vs) == 1 and e.get("copy"):
                out.append((vs[0], c))
            else:
                c = c.fork()
                c.emit("new", short(t), vs)
                out.append((("call", short(t), vs), c))
        return out

    def inline_outs(self, g, args, this, objval, st):
        """enter g with the given argument expressions"""
        outs = []
        pars = g.params
        for vs, c in self.evs(args, st):
            if THROW in vs:
                outs.append(Out("throw", None, c))
                continue
            back = []
            for i, p in enumerate(g.params):
                t = (p["t"] or "").strip()
                if i < len(vs) and i < len(args) and t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and " const &" not in t and vs[i][0] in ("list", "set", "s", "cat", "i", "b"):
                    x = strip_copy(args[i])
                    if x.get("k") == "ref" and x.get("dk") in ("local", "param", "bind"):
                        back.append((p["d"], self.loc(x, c), vs[i]))
                    elif x.get("k") == "mem" and vs[i][0] in ("list", "set"):
                        L = self.lvalue(x, c)
                        if isinstance(L, str):
                            back.append((p["d"], L, vs[i]))
            al = {}
            for i, p in enumerate(g.params):
                if i < len(args) and refptr(p["t"]):
                    L = self.lvalue(args[i], c)
                    if L is not None:
                        al[p["d"]] = L
            outs += self.enter(g, vs, this, c, back, al)
        return outs

    def enter(self, g, vs, this, st, back=(), al=()):
        view = View(self.F, g, {i: text(v) for i, v in enumerate(vs)}, this)
        fr = Frame(self.P, g, view, self.depth + 1)
        st = st.fork()
        for i, p in enumerate(g.params):
            if i < len(vs):
                v = vs[i]
                bs = ibits(p["t"])
                if bs and v[0] == "i" and strip_type(p["t"]) != "bool":
                    v = ("i", wrap(v[1], bs))
                st.env[(fr.id, p["d"])] = v
        for d in al:
            st.env[("alias", fr.id, d)] = ("alias", al[d])
        self.P.seen.add(g.fid)
        self.stack = getattr(self, "stack", (self.f.fid,))
        fr.stack = self.stack + (g.fid,)
        outs = fr.call(st)
        for d, key, was in back:
            for o in outs:
                v = o.st.env.get((fr.id, d))
                if v is not None and v != was:
                    o.st = o.st.fork()
                    o.st.env[key] = v
                    if isinstance(key, str):
                        o.st.emit("store", key, v)
        return outs

    def can_inline(self, e, g):
        if g is None or g.body is None or self.depth >= self.P.depth:
            return False
        if getattr(self, "stack", (self.f.fid,)).count(g.fid) >= self.P.recur:
            return False
        if g.q in self.P.opaque or g.name in self.P.opaque and not (g.virt and not e.get("virt") and "obj" in e and g.cls != self.f.cls and g.name == self.f.name):
            return False
        if not g.file.startswith("src/"):
            return False
        return True

    def call_(self, e, st):
        f = last(e.get("f") or "")
        a = e.get("a", [])
        if e.get("conv"):
            return self.ev(e["obj"], st)
        if "obj" in e:
            return self.method(e, f, a, st)
        q = e.get("f") or ""
        if f in TRANSPARENT and len(a) == 1:
            if f == "dynamic_pointer_cast" and self.P.types:
                return [(self.dyncast(v, e.get("t")), c) for v, c in self.ev(a[0], st)]
            return self.ev(a[0], st)
        if f == "memcpy" and len(a) == 3:
            out = []
            for vs, c in self.evs(a[:2], st):
                c = c.fork()
                if vs[0][0] == "addr":
                    src = self.deref(vs[1], c)
                    tt = strip_copy(a[0])
                    if tt.get("k") == "op":
                        bs = ibits(tt["a"][0].get("t"))
                        if bs and src[0] == "i":
                            src = ("i", wrap(src[1], bs))
                        elif bs and self.P.casts:
                            ss = strip_copy(a[1])
                            src = self.recast(src, ss["a"][0].get("t") if ss.get("k") == "op" else None, bs)
                    c.env[vs[0][2]] = src
                out.append((vs[0], c))
            return out
        if f == "reverse" and q.startswith("std::") and len(a) == 2:
            x = strip_copy(a[0])
            while x.get("k") in ("icast", "cast"):
                x = strip_copy(x["e"])
            if x.get("k") == "call" and x.get("obj") is not None and last(x.get("f") or "") in ("begin", "rbegin"):
                out = []
                for vs, c in self.evs(a, st):
                    v = vs[0][2][0] if vs[0][0] == "call" and vs[0][1] == "begin" and vs[0][2] else None
                    if v is not None and v[0] == "list" and ends(vs[1], v):
                        out.append((("t", "void"), self.update(x["obj"], ("list", v[1][::-1]), c)))
                    else:
                        c = c.fork()
                        c.emit("call", "std::reverse", vs, tuple(e.get("pt") or ()))
                        out.append((("call", "reverse", vs), c))
                return out
        if f in ("set_intersection", "set_difference", "set_union") and q.startswith("std::") and len(a) >= 5:
            dst = strip_copy(a[4])
            while dst.get("k") in ("icast", "cast"):
                dst = strip_copy(dst["e"])
            if dst.get("k") == "call" and last(dst.get("f") or "") in ("inserter", "back_inserter"):
                out, known = [], True
                for vs, c in self.evs(a[:4], st):
                    ls = [v[2][0] if v[0] == "call" and v[1] == "begin" and v[2] else None for v in (vs[0], vs[2])]
                    if any(l is None or l[0] != "list" or any(x[0] not in CONST for x in l[1]) for l in ls) or not ends(vs[1], ls[0]) or not ends(vs[3], ls[1]):
                        known = False
                        break
                    x, y = ls[0][1], ls[1][1]
                    r = [v for v in x if (v in y) == (f == "set_intersection")] if f != "set_union" else list(x) + [v for v in y if v not in x]
                    out.append((("t", "void"), self.update(dst["a"][0], ("list", tuple(r)), c)))
                if known:
                    return out
        if f == "join" and len(a) >= 3:
            return self.join(e, a, st)
        if f == "format" and q.startswith(("fmt", "format", "kratos::format", "::format")):
            return self.format(e, a, st)
        g = self.F.funcs.get(e.get("fid"))
        if f in self.P.stubs:
            # a helper whose result is stated by the rule
            out = []
            for vs, c in self.evs(a, st):
                v = THROW if THROW in vs else self.P.stubs[f](vs)
                if v is None:
                    v = ("call", short(q), vs)
                out.append((v, c))
            return out
        if self.can_inline(e, g):
            r = self.inline(e, g, [x for x in a], self.view.this, st)
            if r is not None:
                return r
        out = []
        for vs, c in self.evs([x for x in a if not is_defarg(x)], st):
            if THROW in vs:
                out.append((THROW, c))
                continue
            if f in ("make_pair", "make_tuple", "tie"):
                out.append((("tup", vs), c))
                continue
            if q == "std::get" and len(vs) == 1 and vs[0][0] in ("tup", "list") and e.get("targs") and str(e["targs"][0]).startswith("#"):
                i = int(e["targs"][0][1:])
                if i < len(vs[0][1]):
                    out.append((vs[0][1][i], c))
                    continue
            if f == "to_string" and len(vs) == 1:
                out.append((vs[0] if vs[0][0] in ("i",) else ("call", "str", vs), c))
                continue
            if f == "make_shared" and vs is not None:
                c = c.fork()
                t = (e.get("targs") or [e.get("t") or ""])
                nm = short(pointee(strip_type(e.get("t") or "")) or "?")
                c.emit("new", nm, vs)
                out.append((("call", "new " + nm, vs), c))
                continue
            if f in ("min", "max") and len(vs) == 2 and vs[0][0] == "i" and vs[1][0] == "i":
                out.append((("i", (min if f == "min" else max)(vs[0][1], vs[1][1])), c))
                continue
            m = re.fullmatch(r"__builtin_(popcount|parity|clz|ctz|ffs|popcountg)(l|ll)?", f)
            if m and len(vs) == 1 and vs[0][0] == "i":
                w = 64 if m.group(2) or m.group(1) == "popcountg" else 32
                x = vs[0][1] & ((1 << w) - 1)
                y = {"popcount": bin(x).count("1"), "popcountg": bin(x).count("1"), "parity": bin(x).count("1") & 1, "clz": w - x.bit_length() if x else None,
                     "ctz": (x & -x).bit_length() - 1 if x else None, "ffs": (x & -x).bit_length()}[m.group(1)]
                if y is not None:
                    out.append((("i", y), c))
                    continue
            if f in ("begin", "cbegin") and len(vs) == 1:
                out.append((("call", "begin", vs), c))
                continue
            if f in ("end", "cend") and len(vs) == 1:
                out.append((("end", vs[0]), c))
                continue
            if f in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of") and q.startswith("std::") and len(vs) == 3:
                rs = self.search(q, vs, c)
                if rs is not None:
                    out += rs
                    continue
            if q == "std::accumulate" and len(vs) in (3, 4):
                p0, p1 = position(vs[0]), position(vs[1])
                if p0 and p1 and p0[0] == p1[0] and (len(vs) == 3 or vs[3][0] == "lam" and self.depth < self.P.depth):
                    cur = [(vs[2], c)]
                    for x in p0[0][1][p0[1]:p1[1]]:
                        cur = [y for v, c2 in cur for y in ([(v, c2)] if v == THROW else [(self.arith("+", v, x, e.get("t")), c2)] if len(vs) == 3 else vs[3][1].invoke(self, (v, x), c2))]
                    out += cur
                    continue
            if f == "distance" and len(vs) == 2 and position(vs[0]) and position(vs[1]) and position(vs[0])[0] == position(vs[1])[0]:
                out.append((("i", position(vs[1])[1] - position(vs[0])[1]), c))
                continue
            if f == "find" and len(vs) == 3 and vs[0][0] == "call" and vs[0][1] == "begin":
                out.append((("it", vs[0][2][0], vs[2]), c))
                continue
            if q in ("std::sort", "std::stable_sort") and len(vs) in (2, 3):
                srt = self.sorted_list(vs, c)
                tt = strip_copy(a[0])
                if srt is not None and tt.get("k") == "call" and tt.get("obj") is not None:
                    c = c.fork()
                    c.env[self.loc(tt["obj"], c)] = srt
                    out.append((("t", "void"), c))
                    continue
            if q == "std::numeric_limits::max" or (f in ("max", "min", "lowest") and not vs):
                bs = ibits(e.get("t"))
                if bs:
                    b, s = bs
                    v = ((1 << (b - (1 if s else 0))) - 1) if f == "max" else (-(1 << (b - 1)) if s else 0)
                    out.append((("i", v), c))
                    continue
            if f in NORET:
                out.append((THROW, c))
                continue
            v = ("call", short(q), vs)
            c = c.fork()
            c.emit("call", short(q), vs, tuple(e.get("pt") or ()))
            self.byref(e, a, c)
            out.append((v, c))
        return out

    def sorted_list(self, vs, st):
        """the elements of a known list in the order a comparator decides on constants and facts"""
        if vs[0][0] != "call" or vs[0][1] != "begin" or vs[0][2][0][0] not in ("list", "set") or not ends(vs[1], vs[0][2][0]):
            return None
        items = sorted(vs[0][2][0][1]) if vs[0][2][0][0] == "set" else list(vs[0][2][0][1])

        class Undecided(Exception):
            pass

        def less(x, y):
            if len(vs) == 2:
                if x[0] == y[0] and x[0] in ("i", "s"):
                    return x[1] < y[1]
                raise Undecided
            if vs[2][0] != "lam":
                raise Undecided
            res = set()
            for v, c in vs[2][1].invoke(self, (x, y), st):
                if v == THROW:
                    raise Undecided
                for b, _ in self.split(v, c):
                    res.add(b)
            if len(res) != 1 or None in res:
                raise Undecided
            return res.pop()
        try:
            import functools
            items.sort(key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else (1 if less(y, x) else 0)))
        except Undecided:
            if ends(vs[1], vs[0][2][0]) and vs[1] != ("end", vs[0][2][0]):
                return None
            return ("call", "sorted", (("list", tuple(items)),))
        return ("list", tuple(items))

    def byref(self, e, a, c):
        pts = e.get("pt", [])
        if last(e.get("f") or "") in FORWARDING and (e.get("f") or "").startswith("std::"):
            return
        for i, x in enumerate(a):
            if i < len(pts) and pts[i].endswith("&") and not pts[i].endswith("&&") and not pts[i].startswith("const "):
                x = strip_copy(x)
                if x.get("k") == "ref" and (self.id, x.get("d")) in c.env:
                    c.env[(self.id, x["d"])] = ("t", "%" + x["n"])

    def inline(self, e, g, args, this, st):
        out = []
        try:
            outs = self.inline_outs(g, args, this, None, st)
        except RecursionError:
            return None
        for o in outs:
            if o.kind == "throw":
                out.append((THROW, o.st))
            else:
                out.append((o.val if o.val is not None else ("t", "void"), o.st))
        return out

    def join(self, e, a, st):
        out = []
        for vs, c in self.evs(a[:3], st):
            if THROW in vs:
                out.append((THROW, c))
                continue
            b, sep = vs[0], vs[2]
            skip = 0
            if b[0] == "op" and b[1] == "+":
                for x, y in ((b[2], b[3]), (b[3], b[2])):
                    if x[0] == "i" and y[0] == "call" and y[1] == "begin":
                        skip, b = x[1], y
            o = b[2][0] if b[0] == "call" and b[1] == "begin" else b
            if o[0] == "list" and ends(vs[1], o):
                parts = []
                for i, x in enumerate(o[1][skip:]):
                    if i:
                        parts.append(sep)
                    parts.append(x)
                out.append((cat(*parts), c))
            else:
                out.append((("call", "join", (o, sep)), c))
        return out

    def format(self, e, a, st):
        out = []
        for vs, c in self.evs(a, st):
            if THROW in vs:
                out.append((THROW, c))
                continue
            if vs[0][0] != "s":
                out.append((("call", "format", vs), c))
                continue
            parts, n, s = [], 0, vs[0][1]
            i = 0
            buf = ""
            while i < len(s):
                ch = s[i]
                if ch in "{}" and s[i:i + 2] in ("{{", "}}"):
                    buf += ch
                    i += 2
                    continue
                if ch == "{":
                    j = s.index("}", i)
                    body = s[i + 1:j]
                    idx, _, spec = body.partition(":")
                    if idx == "":
                        k = n
                        n += 1
                    else:
                        k = int(idx)
                    parts.append(("s", buf))
                    buf = ""
                    v = vs[k + 1] if k + 1 < len(vs) else ("t", "missing")
                    if spec and v[0] == "i" and re.fullmatch(r"0?\d*[dxXbo]?", spec):
                        v = ("s", format(v[1], spec))
                    elif spec:
                        v = ("call", "fmt:" + spec, (v,))
                    parts.append(v)
                    i = j + 1
                    continue
                buf += ch
                i += 1
            parts.append(("s", buf))
            out.append((cat(*parts), c))
        return out

    def call_lambda(self, e, a, st):
        out = []
        for v, c in self.ev(a[0], st):
            if v[0] == "lam" and self.depth < self.P.depth:
                L = v[1]
                for vs, c2 in self.evs(a[1:], c):
                    out += L.invoke(self, vs, c2)
                continue
            for vs, c2 in self.evs(a[1:], c):
                c2 = c2.fork()
                c2.emit("call", text(v), vs, tuple(e.get("pt") or ()))
                out.append((("call", text(v), vs), c2))
        return out

    def method(self, e, f, a, st):
        out = []
        obj = e["obj"]
        for o, c in self.ev(obj, st):
            if o == THROW:
                out.append((THROW, c))
                continue
            if o[0] == "ptr" and isinstance(o[1], tuple) and len(o[1]) == 2 and f in ("begin", "end", "cbegin", "cend", "size", "empty", "reserve"):
                o = self.deref(o, c)
            if f in TRANSPARENT and not a and (f not in ("value", "get") or (e.get("f") or "").startswith("std::")):
                out.append((o[1] if o[0] == "opt" and f in ("value", "get") else o, c))
                continue
            if o[0] == "lam" and f == "operator()":
                for vs, c2 in self.evs(a, c):
                    out += o[1].invoke(self, vs, c2)
                continue
            if f == "push" and "thread_pool" in (e.get("f") or ""):
                # a task handed to a pool runs once with the given arguments
                for vs, c2 in self.evs(a, c):
                    if vs and vs[0][0] == "lam" and self.depth < self.P.depth:
                        out += vs[0][1].invoke(self, vs[1:], c2)
                    else:
                        c2 = c2.fork()
                        c2.emit("call", "task", vs, tuple(e.get("pt") or ()))
                        out.append((("t", "task"), c2))
                continue
            g = self.F.funcs.get(e.get("fid"))
            tg = None
            if e.get("virt"):
                if self.P.hook:
                    h = self.P.hook(self, e, o, c)
                    if h is not None:
                        tg = h
                if tg is None and self.P.types:
                    q = self.P.types.get(text(o).lstrip("&*"))
                    if q:
                        h = self.F.resolve(q, e.get("fid"))
                        tg = self.F.funcs.get(h) if isinstance(h, str) else h
                if tg is None:
                    ts = self.F.targets(e)
                    ts = [t if not isinstance(t, str) else self.F.funcs.get(t) for t in ts]
                    if len(ts) == 1:
                        tg = ts[0]
            else:
                tg = g
            if isinstance(tg, Func) and self.can_inline(e, tg) and not (tg.params == [] and trivial_getter(tg)):
                r = self.inline(e, tg, a, text(o), c)
                if r is not None:
                    out += r
                    continue
            if isinstance(tg, Func) and not a and trivial_getter(tg) and tg.name not in self.P.opaque:
                t = text(o) + "." + trivial_getter(tg)
                out.append((c.env.get(t, ("t", t)), c))
                continue
            for vs, c2 in self.evs([x for x in a if not is_defarg(x)], c):
                if THROW in vs:
                    out.append((THROW, c2))
                    continue
                out.append(self.builtin(e, f, o, vs, obj, a, c2))
        return out

    def builtin(self, e, f, o, vs, obj, a, st):
        if o[0] == "s":
            vs = tuple(("i", NPOS) if v[0] == "t" and v[1].endswith("::npos") else v for v in vs)
        if o[0] == "s" and all(v[0] in ("s", "i") for v in vs):
            v = strings(f, o[1], [v[1] for v in vs])
            if v is not None:
                return v, st
        if f in ("find", "count", "contains") and len(vs) == 1:
            cn = ("t", text(o)) if o[0] not in ("set", "list", "s", "cat") else o
            if o[0] in ("set", "list") and vs[0][0] in CONST:
                keys = set()
                full = True
                for x in o[1]:
                    if x[0] in ("tup", "list") and len(x[1]) == 2:
                        x = x[1][0]
                    if x[0] not in CONST:
                        full = False
                    keys.add(x)
                if f != "find":
                    if vs[0] in keys:
                        return ("b", True), st
                    if full:
                        return ("b", False), st
                hit = [x[1] for x in o[1] if x[0] in ("tup", "list") and len(x[1]) == 2 and x[1][0] == vs[0]]
                return ("it", ("set", frozenset(keys)) if full else cn, vs[0]) + ((tuple(hit[0]),) if hit and full else ()), st
            if f == "find":
                return ("it", cn, vs[0]), st
            return ("in", vs[0], cn), st
        if f in ("end", "cend"):
            return self.end_of(o), st
        if f in ("begin", "cbegin"):
            return ("call", "begin", (o,)), st
        if f in ("rbegin", "crbegin", "rend", "crend") and o[0] == "s" and o[1].isascii():
            o = ("list", tuple(("i", ord(x)) for x in o[1]))
        if f in ("rbegin", "crbegin") and o[0] == "list":
            return ("call", "begin", (("list", o[1][::-1]),)), st
        if f in ("rend", "crend") and o[0] == "list":
            return self.end_of(("list", o[1][::-1])), st
        if f in ("at", "operator[]") and len(vs) == 1:
            if o[0] == "list":
                for x in o[1]:
                    if x[0] in ("tup", "list") and len(x[1]) == 2 and x[1][0] == vs[0]:
                        return x[1][1], st
                if vs[0][0] == "i" and 0 <= vs[0][1] < len(o[1]) and not is_map(obj.get("t")):
                    return o[1][vs[0][1]], st
                m = self.entry(o, vs[0], obj.get("t"), f == "operator[]")
                if m is not None:
                    return m, st
            t = elem(text(o), text(vs[0]))
            return st.env.get(t, ("t", t)), st
        if f in ("size", "length") and not vs:
            if o[0] in ("list", "set"):
                return ("i", len(o[1])), st
            if o[0] == "s":
                return ("i", len(o[1])), st
        if f == "empty" and not vs:
            if o[0] in ("list", "set"):
                return ("b", not o[1]), st
            if o[0] == "s":
                return ("b", not o[1]), st
            if o[0] == "cat" and any(x[0] == "s" for x in o[1]):
                return ("b", False), st
        if f in ("front", "back") and not vs:
            x = o
            if x[0] == "cat":
                x = x[1][0 if f == "front" else -1]
            if x[0] == "s" and x[1]:
                return ("i", ord(x[1][0 if f == "front" else -1])), st
            if x[0] == "list" and x[1]:
                return x[1][0 if f == "front" else -1], st
        if f == "str" and not vs and o[0] in ("s", "cat"):
            return o, st
        if f == "endl" and not vs:
            return ("s", "\n"), st
        if f in ("emplace", "insert") and o[0] == "list" and len(vs) == 2 and vs[0] == ("call", "begin", (o,)):
            st = st.fork()
            st.env[self.loc(obj, st)] = ("list", (vs[1],) + o[1])
            return ("t", "void"), st
        if f == "insert" and o[0] in ("list", "set") and len(vs) == 2 and "set<" in strip_type(obj.get("t") or "") and position(vs[0]) is not None:
            L = sublist(vs)
            if L is not None and L[0] == "list":
                cur = list(o[1]) if o[0] == "list" else sorted(o[1])
                cur += [x for i, x in enumerate(L[1]) if x not in cur and x not in L[1][:i]]
                return ("t", "void"), self.update(obj, ("list", tuple(cur)), st)
        if f == "insert" and o[0] == "list" and len(vs) == 3 and position(vs[0]) is not None and position(vs[0])[0] == o and position(vs[1]) is not None:
            L = sublist(vs[1:])
            if L is not None and L[0] == "list":
                i = position(vs[0])[1]
                return ("t", "void"), self.update(obj, ("list", o[1][:i] + L[1] + o[1][i:]), st)
        if f in ("push_back", "emplace_back", "emplace", "insert", "push") and o[0] in ("list",):
            v = vs[0] if len(vs) == 1 else ("tup", vs)
            ot = strip_type(obj.get("t") or "").rstrip(" &")
            if f in ("emplace", "insert") and ot.startswith(("std::map<", "std::unordered_map<")) and v[0] in ("tup", "list") and len(v[1]) == 2 and v[1][0][0] in CONST:
                if any(x[0] in ("tup", "list") and x[1] and x[1][0] == v[1][0] for x in o[1]):
                    return ("t", "void"), st
            if f in ("emplace", "insert") and ot.startswith(("std::set<", "std::unordered_set<")) and v[0] in CONST and v in o[1]:
                return ("t", "void"), st
            return ("t", "void"), self.update(obj, ("list", o[1] + (v,)), st)
        if f in ("pop", "pop_back", "pop_front") and not vs and o[0] == "list" and o[1]:
            first = f == "pop_front" or f == "pop" and "stack" not in (e.get("f") or "")
            return ("t", "void"), self.update(obj, ("list", o[1][1:] if first else o[1][:-1]), st)
        if f == "erase" and len(vs) == 1 and o[0] == "list" and position(vs[0]) is not None and position(vs[0])[0] == o and 0 <= position(vs[0])[1] < len(o[1]):
            i = position(vs[0])[1]
            return ("call", "begin", (("list", o[1][i + 1:]),)), self.update(obj, ("list", o[1][:i] + o[1][i + 1:]), st)
        if f == "erase" and o[0] == "s" and len(vs) in (1, 2) and all(x[0] == "i" for x in vs) and vs[0][1] <= len(o[1]):
            p_, n_ = vs[0][1], vs[1][1] if len(vs) == 2 else NPOS
            return ("t", "void"), self.update(obj, ("s", o[1][:p_] + o[1][p_ + n_:]), st)
        if f == "erase" and len(vs) == 1 and vs[0][0] in CONST and o[0] in ("list", "set") and strip_type(obj.get("t") or "").replace("const ", "").startswith(("std::set<", "std::unordered_set<", "std::map<", "std::unordered_map<")):
            key = [x[1][0] if x[0] in ("tup", "list") and len(x[1]) == 2 else x for x in o[1]]
            if all(k in CONST or k[0] in CONST for k in key):
                return ("i", sum(k == vs[0] for k in key)), self.update(obj, ("list", tuple(x for x, k in zip(o[1], key) if k != vs[0])), st)
        if f == "extract" and len(vs) == 1 and vs[0][0] in CONST and o[0] in ("list", "set") and is_assoc(obj.get("t")):
            key = [x[1][0] if x[0] in ("tup", "list") and len(x[1]) == 2 else x for x in o[1]]
            if all(k[0] in CONST for k in key):
                hit = [x for x, k in zip(o[1], key) if k == vs[0]]
                h = ("null",) if not hit else ("tup", tuple(hit[0][1])) if hit[0][0] in ("tup", "list") else ("tup", (hit[0],))
                return h, self.update(obj, ("list", tuple(x for x, k in zip(o[1], key) if k != vs[0])), st)
        if f in HANDLE and not vs and o[0] == "tup" and "_Node_handle" in (e.get("f") or ""):
            return o[1][HANDLE[f] if len(o[1]) == 2 else 0], st
        if f == "clear" and not vs and o[0] in ("list", "set"):
            return ("t", "void"), self.update(obj, ("list", ()), st)
        if f == "top" and not vs and o[0] == "list" and o[1]:
            return o[1][-1], st
        if f == "resize" and len(vs) == 1 and vs[0][0] == "i" and o[0] == "list" and 0 <= vs[0][1] <= 256:
            et = strip_type(obj.get("t") or "").split("<", 1)[-1]
            n = vs[0][1]
            fill = ("list", ()) if et.startswith("std::") else None
            if n <= len(o[1]) or fill:
                return ("t", "void"), self.update(obj, ("list", o[1][:n] + (fill,) * (n - len(o[1]))), st)
        if f == "append" and len(vs) == 1 and o[0] in ("s", "cat"):
            st = st.fork()
            v = cat(o, vs[0])
            st.env[self.loc(obj, st)] = v
            return v, st
        if f in ("has_value",) and not vs:
            if o[0] in CONST or o[0] == "opt":
                return ("b", o[0] != "null"), st
            return ("op", "!=", o, ("null",)), st
        nm = "%s.%s" % (text(o), f)
        if f in self.P.fresh:
            t = text(("call", nm, vs))
            return self.P.given.get(t, ("e", t)), st
        st = st.fork()
        if not e.get("const") or strip_type(e.get("t") or "") == "void":
            st.emit("call", nm, vs, tuple(e.get("pt") or ()))
        self.byref(e, a, st)
        return ("call", nm, vs), st


NORET = {"exit", "abort", "terminate", "__assert_fail"}
THROW = ("throw!",)


NPOS = 2 ** 64 - 1


def strings(f, s, a):
    """member functions of std::string on known text"""
    ints = [x for x in a if isinstance(x, int)]
    if f in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and 1 <= len(a) <= 2:
        t = chr(a[0]) if isinstance(a[0], int) else a[0]
        if len(a) == 2 and not isinstance(a[1], int):
            return None
        back = f in ("rfind", "find_last_of", "find_last_not_of")
        pos = a[1] if len(a) == 2 else NPOS if back else 0
        whole = f in ("find", "rfind")
        hits = [i for i in range(len(s) + 1) if (s.startswith(t, i) if whole else i < len(s) and (s[i] in t) == ("not" not in f))]
        hits = [i for i in hits if (i <= pos if back else i >= pos)]
        return ("i", (hits[-1] if back else hits[0]) if hits else NPOS)
    if f == "substr" and len(a) == len(ints) <= 2:
        p, n = (a + [NPOS])[:2] if a else (0, NPOS)
        return ("s", s[p:p + n]) if p <= len(s) else None
    if f == "compare" and len(a) in (1, 3):
        if len(a) == 3:
            if len(ints) != 2 or a[0] > len(s):
                return None
            s = s[a[0]:a[0] + a[1]]
        if isinstance(a[-1], int):
            return None
        return ("i", (s > a[-1]) - (s < a[-1]))
    if f in ("at", "operator[]") and len(ints) == len(a) == 1 and 0 <= a[0] < len(s):
        return ("i", ord(s[a[0]]))
    return None


def pointerish(e):
    while e.get("k") in ("icast", "cast"):
        e = e["e"]
    if e.get("k") == "call" and e.get("conv"):
        e = e["obj"]
    t = strip_type(e.get("t") or "")
    return t.endswith("*") or is_smart(t)


def strip_all(e):
    e = strip_copy(e)
    while e.get("k") in ("icast", "cast"):
        e = strip_copy(e["e"])
    return e


def modifies(tree, d):
    """does the tree assign the local d or pass it on by reference"""
    for n in walk(tree):
        if n.get("k") == "op" and n.get("a") and n["o"] in ("=", "++", "--", "post++", "post--", "+=", "-=", "*=", "/=", "&"):
            if strip_all(n["a"][0]).get("d") == d and (n["o"] != "&" or len(n["a"]) == 1):
                return True
        if n.get("k") == "call" and any(x in (n.get("f") or "") for x in ("erase", "advance")):
            if any(m.get("k") == "ref" and m.get("d") == d for a in n.get("a", []) for m in walk(a)):
                return True
    return False



class Lam:
    def __init__(self, e, fr):
        self.e = e
        self.fr = fr

    def get(self, k):
        return self.e.get(k)

    def __hash__(self):
        return id(self.e)

    def __eq__(self, o):
        return isinstance(o, Lam) and self.e is o.e

    def __lt__(self, o):
        return id(self.e) < id(o.e)

    def invoke(self, caller, vs, st):
        st = st.fork()
        fr = self.fr
        for i, p in enumerate(self.e.get("params", [])):
            if i < len(vs):
                st.env[(fr.id, p["d"])] = vs[i]
        out = []
        stack = getattr(caller, "lstack", ())
        if self.e in stack or len(stack) > 3:
            return [(("t", "λ()"), st)]
        fr.lstack = stack + (self.e,)
        for kind, v, c in fr.stmt(self.e["body"], st):
            if kind == "ret":
                out.append((v if v is not None else ("t", "void"), c))
            elif kind == "throw":
                out.append((THROW, c))
            else:
                out.append((("t", "void"), c))
        fr.lstack = stack
        return out


def is_map(t):
    return strip_type(t or "").replace("const ", "").startswith(("std::map<", "std::unordered_map<"))


def targs2(t):
    """second template argument of a type"""
    x = targs1(t)
    i = t.find("<") + 1 + len(x)
    return targs1("<" + t[i:].lstrip(" ,")) if x else ""


def targs1(t):
    """first template argument of a type"""
    i, d = t.find("<") + 1, 0
    for j in range(i, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">" and d == 0 or t[j] == "," and d == 0:
            return t[i:j].strip()
        elif t[j] == ">":
            d -= 1
    return ""


def end_of(o):
    if o[0] == "list" and o[1] and all(x[0] in ("tup", "list") and len(x[1]) == 2 for x in o[1]):
        return ("end", ("set", frozenset(x[1][0] for x in o[1])))
    return ("end", o)


def ends(v, o):
    return v == ("end", o) or v == end_of(o)


def position(v):
    """(list, offset) of an iterator into a known list"""
    if v[0] == "call" and v[1] == "begin" and v[2][0][0] == "list":
        return v[2][0], 0
    if v[0] == "end" and v[1][0] == "list":
        return v[1], len(v[1][1])
    if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
        for x, y in ((v[2], v[3]), (v[3], v[2]))[:2 if v[1] == "+" else 1]:
            p = position(x)
            if p is not None and y[0] == "i":
                return p[0], p[1] + (y[1] if v[1] == "+" else -y[1])
    return None


def sublist(vs):
    """the elements between two iterators"""
    if len(vs) != 2:
        return None
    b, e = position(vs[0]), position(vs[1])
    if b is not None and e is not None and b[0] == e[0] and 0 <= b[1] <= e[1] <= len(b[0][1]):
        return ("list", b[0][1][b[1]:e[1]])
    if b is not None and b[1] == 0 and vs[1] == ("end", ("set", frozenset(x[1][0] for x in b[0][1] if x[0] in ("tup", "list") and len(x[1]) == 2))):
        return b[0]
    b = vs[0]
    if b[0] == "call" and b[1] == "begin" and ends(vs[1], b[2][0]):
        return b[2][0]
    return None


def truth(v):
    if v[0] == "b":
        return v[1]
    if v[0] == "i":
        return v[1] != 0
    if v[0] == "null":
        return False
    if v[0] == "e" and "::" not in v[1]:
        return True  # a named object of the rule's own design, never an enumerator
    if v[0] in ("opt", "list", "tup", "s"):
        return True  # only an optional holding it can be tested
    return None


def eqatom(x, y):
    a, b = text(x), text(y)
    if y[0] == "null":
        return ("null", a, "")
    if x[0] == "null":
        return ("null", b, "")
    return ("==",) + tuple(sorted((a, b)))


def is_const_text(t):
    return bool(re.fullmatch(r"-?\d+|\".*\"|true|false|[A-Z][A-Za-z]*(::[A-Z][A-Za-z0-9_]*)+", t))


def merge(sts):
    """drop duplicate states"""
    if len(sts) < 2:
        return sts
    seen, out = set(), []
    for s in sts:
        try:
            key = (s.trail, s.eff, tuple(sorted(((str(k), v) for k, v in s.env.items()), key=lambda x: x[0])))
            hash(key)
        except TypeError:
            out.append(s)
            continue
        if key in seen:
            continue
        seen.add(key)
        out.append(s)
    return out


def returns(F, f, given=None, assume=(), args=None, **kw):
    P = Prop(F, given, assume, **kw)
    return P.run(f, args), P
