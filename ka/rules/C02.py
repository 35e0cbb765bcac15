"""Message formatting: placeholders and arguments agree, on every format call and every raised literal."""
import re
from ..core import *


def parse(fmt):
    """-> (max index+1, set of used indices) or raises ValueError (what fmt would throw)"""
    i, auto, used, manual = 0, 0, set(), False
    autoused = False
    while i < len(fmt):
        ch = fmt[i]
        if ch == "{":
            if fmt[i + 1:i + 2] == "{":
                i += 2
                continue
            j = i + 1
            depth = 1
            while j < len(fmt) and depth:
                if fmt[j] == "{":
                    depth += 1
                elif fmt[j] == "}":
                    depth -= 1
                j += 1
            if depth:
                raise ValueError("unmatched '{'")
            body = fmt[i + 1:j - 1]
            for part, top in [(body.split(":", 1)[0], True)] + [(m, False) for m in re.findall(r"\{([^{}]*)\}", body)]:
                if part == "":
                    used.add(auto)
                    auto += 1
                    autoused = True
                elif part.isdigit():
                    used.add(int(part))
                    manual = True
                else:
                    raise ValueError("named or malformed placeholder {%s}" % part)
            i = j
            continue
        if ch == "}":
            if fmt[i + 1:i + 2] == "}":
                i += 2
                continue
            raise ValueError("unmatched '}'")
        i += 1
    if manual and autoused:
        raise ValueError("mixes {} and {0}")
    return used


def literals(view, e, depth=0):
    """string literals an expression may evaluate to (None if unknown)"""
    e0 = e
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("icast", "cast", "defarg"):
            e = e["e"]
        elif k == "ctor" and e.get("a"):
            e = e["a"][0]
        elif k == "init" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif k == "call" and e.get("conv"):
            e = e["obj"]
        elif k == "call" and last(e.get("f") or "") in ("c_str", "data", "to_string_view", "runtime", "move") and ("obj" in e or e.get("a")):
            e = e.get("obj") or e["a"][0]
        else:
            break
    if not isinstance(e, dict) or depth > 6:
        return None
    k = e.get("k")
    if k == "str":
        return [e["v"]]
    if k == "cond":
        a, b = literals(view, e["x"], depth + 1), literals(view, e["y"], depth + 1)
        return None if a is None or b is None else a + b
    if k == "ref":
        d = e.get("d")
        if e.get("dk") in ("local", "slocal") and view.defs.get(d):
            out = []
            for x in view.defs[d]:
                l = literals(view, x, depth + 1)
                if l is None:
                    return None
                out += l
            return out
        if e.get("dk") == "global":
            v = view.F.vars.get(e.get("q"))
            if v and v.get("cst") and v.get("i"):
                return literals(view, v["i"], depth + 1)
        return None
    if k == "op" and e.get("o") == "+":
        a, b = literals(view, e["a"][0], depth + 1), literals(view, e["a"][1], depth + 1)
        if a is None or b is None:
            return None
        return [x + y for x in a for y in b]
    return None


def is_format(n):
    q = n.get("f") or ""
    return n.get("k") == "call" and (q.startswith("fmt::") and last(q) in ("format", "print", "format_to", "vformat", "format_to_n", "formatted_size"))


def run(F, r, tier):
    r.rule("placeholders-match", "every index a format string uses has an argument, braces balance, and every argument supplied is used", 150)
    r.rule("no-raw-placeholder", "a literal handed straight to an exception carries no unexpanded {n} placeholder", 60)
    fwd = {}  # repo wrappers that forward their string parameter as a format string: fid -> param index
    ch = True
    sites = []
    while ch:
        ch = False
        for f in F.all:
            if f.body is None and not f.inits:
                continue
            view = F.view(f)
            for n in f.nodes():
                idx = None
                if is_format(n):
                    idx = 0 if last(n["f"]) in ("format", "print", "vformat", "formatted_size") else (1 if last(n["f"]) == "format_to" else 2)
                elif n.get("k") in ("call", "ctor") and n.get("fid") in fwd:
                    idx = fwd[n["fid"]]
                if idx is None or idx >= len(n.get("a", [])):
                    continue
                s = strip_copy(n["a"][idx])
                while isinstance(s, dict) and s.get("k") in ("ctor", "icast") and (s.get("a") or s.get("e")):
                    s = s["a"][0] if s.get("k") == "ctor" else s["e"]
                if isinstance(s, dict) and s.get("k") == "ref" and s.get("dk") == "param" and s.get("d") in view.pidx:
                    if f.fid not in fwd and literals(view, n["a"][idx]) is None:
                        fwd[f.fid] = view.pidx[s["d"]]
                        ch = True
    seen = set()
    count = {}
    for f in F.all:
        if f.body is None and not f.inits:
            continue
        view = F.view(f)
        for n in f.nodes():
            if n.get("k") in ("call", "ctor") and (is_format(n) or n.get("fid") in fwd):
                wrapped = not is_format(n)
                idx = fwd[n["fid"]] if wrapped else (0 if last(n["f"]) in ("format", "print", "vformat", "formatted_size") else (1 if last(n["f"]) == "format_to" else 2))
                if idx >= len(n.get("a", [])):
                    continue
                args = [a for a in n["a"][idx + 1:] if not is_defarg(a)]
                if f.fid in fwd and literals(view, n["a"][idx]) is None:
                    continue
                r.saw(f)
                ls = literals(view, n["a"][idx])
                if ls is None:
                    r.ob("placeholders-match", "%s|dynamic" % short(f.q), True, f.loc(n), "format string is not a literal")
                    continue
                packs = any(isinstance(a, dict) and (a.get("k") == "other" and "Pack" in a.get("c", "")) for a in args)
                for l in ls:
                    key = "%s|%s" % (short(f.q), l[:60])
                    msg = None
                    try:
                        used = parse(l)
                        miss = [i for i in used if i >= len(args)]
                        if miss and not packs:
                            msg = "format string %r uses argument %d but only %d supplied: building the message throws" % (l, max(miss), len(args))
                        else:
                            extra = [i for i in range(len(args)) if i not in used]
                            if extra and not packs:
                                msg = "format string %r never prints its argument %s" % (l, extra)
                    except ValueError as e:
                        msg = "format string %r is malformed (%s): building the message throws" % (l, e)
                    r.ob("placeholders-match", key, msg is None, f.loc(n), "%s in %s" % (msg, f.sig()))
            if n.get("k") == "throw" and n.get("e"):
                e = strip_copy(n["e"])
                args = e.get("a", []) if e.get("k") in ("ctor",) else [e]
                for a in args:
                    if a is None:
                        continue
                    # follow into concatenation, not into format calls
                    st = [a]
                    while st:
                        x = st.pop()
                        if not isinstance(x, dict) or is_format(x):
                            continue
                        if x.get("k") == "str":
                            r.saw(f)
                            bad = re.search(r"\{\d*\}", x["v"])
                            r.ob("no-raw-placeholder", "%s|%s" % (short(f.q), x["v"][:60]), not bad, f.loc(n),
                                 "%s raises the literal %r, whose placeholder is never filled in" % (f.sig(), x["v"]))
                        if x.get("k") == "call" and not (x.get("f") or "").startswith("std::"):
                            continue
                        if x.get("k") == "init" and x is not a and False:
                            continue
                        st.extend(kids(x))
                if e.get("k") == "ctor" and e.get("a"):
                    a0 = e["a"][0]
                    l = literals(view, a0)
                    if l and a0 and strip_copy(a0).get("k") == "ref":
                        for v in l:
                            r.ob("no-raw-placeholder", "%s|%s" % (short(f.q), v[:60]), not re.search(r"\{\d*\}", v), f.loc(n), "unexpanded placeholder in %r" % v)
