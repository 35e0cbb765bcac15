"""Decision tables: under the facts of a row, every outcome constant propagation finds for a function
must be one of the row's outcomes (value text, throw, or effects)."""
import json
from .core import *
from .cprop import *
from .valid import Fact, select


def okey(F, f):
    k = short(f.q)
    if len(F.find(f.q)) > 1:
        k += "#" + ",".join(short(strip_type(x["t"])).split("<")[0] for x in f.params)
    return k


def outcome(o):
    if o.kind == "throw":
        return "throw"
    if o.val is None:
        return "void"
    return text(o.val)


def row(F, r, rule, q, want, when=(), given=None, args=None, sel=None, key=None, produce=True, clue=None, **kw):
    """want: set of outcome texts, or a predicate Out -> None / message"""
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        r.saw(f)
        k = "%s|%s" % (okey(F, f), key or " and ".join(when) or "always")
        try:
            outs, P = returns(F, f, given=given, assume=[Fact(F, w) if isinstance(w, str) else w for w in when], args=args, **kw)
        except Budget:
            r.ob(rule, k, False, f.loc(), "%s became too intricate to follow (%s)" % (f.sig(), key or ""))
            continue
        for g in P.seen:
            if g in F.funcs:
                r.saw(F.funcs[g])
        bad = None
        if produce and not outs:
            bad = "no outcome"
        for o in outs:
            o.given = given or {}
            if callable(want):
                try:
                    m = want(o)
                except (TypeError, IndexError, AttributeError, KeyError, ValueError) as ex:
                    m = "does not have the stated form (%s)" % str(ex)[:80]
            else:
                m = None if outcome(o) in want else "yields %s" % outcome(o)[:300]
            if m:
                bad = "%s (when %s)" % (m, "; ".join(atext(a, p) for a, p in o.st.trail)[:300])
                break
        r.ob(rule, k, bad is None, f.loc(), "%s: %s%s, expected %s" % (f.sig(), bad, " [%s]" % " and ".join(map(str, when)) if when else "",
             clue or (sorted(want) if not callable(want) else "per rule")))


def gv(F, d):
    """given-map with every accessor spelling"""
    from .valid import variants
    out = {}
    for k, v in d.items():
        for t in variants(F, k):
            out[t] = v
    return out


def exact(F, cls):
    """hook: virtual calls on the receiver itself resolve in class `cls`"""
    def h(fr, e, o, c):
        if text(o) == "this":
            g = F.resolve(cls, e.get("fid"))
            return F.funcs.get(g) if isinstance(g, str) else g
    return h


def final(o, loc):
    """last value stored into loc on this path"""
    v = None
    for e in o.st.eff:
        if e[0] == "store" and e[1] == loc:
            v = e[2]
    env = o.st.env.get(loc)
    return env if env is not None and (v is None or env[0] == "list") else v


def shape(F, r, rule, q, expect, when=(), given=None, args=None, sel=None, key=None, kinds=("end", "ret"), need_out=True, **kw):
    """every completing path leaves the stated values: polynomial text, list of them, or ('is', {texts})"""
    from . import poly
    kw.setdefault("opaque", ("is_valid_variable_name",))

    def eq(v, w):
        if v is None:
            return False
        if isinstance(w, tuple) and w[0] == "is":
            return text(v) in w[1]
        if isinstance(w, list):
            return v[0] == "list" and len(v[1]) == len(w) and all(eq(a, b) for a, b in zip(v[1], w))
        return poly.same(v, w)

    def want(o):
        if o.kind not in kinds:
            return None
        for loc, w in expect.items():
            v = o.val if loc == "return" else final(o, loc)
            if not eq(v, w):
                return "%s becomes %s instead of %s" % (loc, text(v) if v is not None else "(unset)", w if not isinstance(w, tuple) else sorted(w[1]))
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        row(F, r, rule, f, want, when=when, given=gv(F, given or {}), args=args, key=key, clue="the stated shape", **kw)


PUT = ("emplace", "insert", "insert_or_assign", "try_emplace", "emplace_hint", "emplace_back", "push_back")


def puts(o, table):
    """[(key, value or None)] put into a container on this path (map insertion in any spelling)"""
    out = []
    for e in o.st.eff:
        if e[0] == "call" and e[1].startswith(table + ".") and e[1][len(table) + 1:] in PUT:
            a = list(e[2])
            if len(a) == 1 and a[0][0] in ("tup", "list") and len(a[0][1]) == 2:
                a = list(a[0][1])
            if e[1].endswith(".emplace_hint") or e[1].endswith(".insert") and len(a) == 2 and text(a[0]).startswith(("end", "begin")):
                a = a[1:]
            out.append((text(a[0]) if a else "", a[1] if len(a) > 1 else None))
        elif e[0] == "store" and e[1].startswith(table + "[") and e[1].endswith("]"):
            out.append((e[1][len(table) + 1:-1], e[2]))
    return out


def calls(o, suffix):
    """argument texts of every call whose name is `suffix` or ends in it"""
    return [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "call" and (e[1] == suffix or e[1].endswith("." + suffix) or e[1].endswith("::" + suffix))]


def assumed(o, k, x, y="", pol=True):
    a = (k, x, y)
    return any(t == a and p == pol for t, p in o.st.trail)


def registers(F, r, rule, q, table, key, value=None, guards=None, sel=None, kw_checked=False, ret=True, also=None, when=(), tag="", **kw):
    """every path that completes has established that `key` is not yet in each guard table, puts it into
    `table` exactly once, with the stated object, and hands back that object"""
    guards = [table] if guards is None else guards
    kw.setdefault("opaque", ("is_valid_variable_name", "width"))
    if "hook" not in kw:
        c0 = (q if isinstance(q, str) else q.q).rsplit("::", 1)[0]
        kw["hook"] = exact(F, c0)

    def want(o):
        if o.kind == "throw":
            return None
        for g in guards:
            if not assumed(o, "in", key, g, False) and not assumed(o, "null", "%s[%s]" % (g, key), "", True):
                return "completes without establishing that %s is not yet in %s" % (key, g)
        if kw_checked and not assumed(o, "truth", "is_valid_variable_name(%s)" % key):
            return "completes without establishing that %s is not a keyword" % key
        p = puts(o, table)
        if [k for k, v in p] != [key]:
            return "registers %s in %s" % ([k for k, v in p] or "nothing", table)
        v = p[0][1]
        vt = text(v) if v is not None else None
        if value is not None:
            m = value(vt) if callable(value) else (None if vt in value else "registers %s" % vt)
            if m:
                return m
        if ret and v is not None and (o.val is None or text(o.val) not in (vt, "&" + vt)):
            return "hands back %s instead of the registered object" % (text(o.val) if o.val is not None else "nothing")
        return also(o) if also else None
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        row(F, r, rule, f, want, when=when, key="registers in " + table.replace("this.", "") + (" " + tag if tag else ""), clue="checked, then registered once", **kw)


def printed(o, stream="this.stream_"):
    """what this path writes to a stream, as one template: literal text with values in «»"""
    out = []
    for e in o.st.eff:
        if e[0] == "out" and e[1] == stream:
            v = e[2]
            for p in (v[1] if v[0] == "cat" else (v,)):
                out.append(p[1] if p[0] == "s" else "\n" if p == ("i", 10) else "«%s»" % text(p))
        elif e[0] == "call" and e[1].endswith("dispatch_node"):
            out.append("«node %s»" % text(e[2][0]))
    def known(m):
        v = getattr(o, "given", {}).get(m.group(1) + ".stmts_")
        i = int(m.group(2))
        return "«node %s»" % text(v[1][i]) if v is not None and v[0] == "list" and i < len(v[1]) else m.group(0)
    out = [re.sub(r"«node ([^«»]*?)(?:\.get_child\(|\[)(\d+)[\])]»", known, x) for x in out]
    return re.sub(r"«node ([^«»]*)\.get_child\(index\(\1\.stmts_\)\)»", r"«node each(\1.stmts_)»", "".join(out))


def prints(F, r, rule, q, want, when=(), stream="this.stream_", **kw):
    """every completing path writes one of the templates `want` (spaces at line ends ignored)"""
    from . import poly
    norm = lambda t: re.sub(r" *\n", "\n", t)
    want = {norm(w) for w in ([want] if isinstance(want, str) else want)}

    def check(o):
        if o.kind == "throw":
            return "rejects the statement"
        t = norm(printed(o, stream))
        if t not in want:
            return "prints %s" % json.dumps(t, ensure_ascii=False)
        i = final(o, "this.indent_")
        if i is not None and not poly.same(i, "{this.indent_}"):
            return "leaves the indentation at %s" % text(i)
    row(F, r, rule, q, check, when=when, clue="the text %s" % " or ".join(json.dumps(w, ensure_ascii=False) for w in sorted(want))[:300], **kw)


def world(F, objs):
    """given-map of a small concrete design: {object: {field: value}}; every accessor spelling of a field is given.
    Values: int, bool, None, list, "name" (another object), "#Enum::member", '"text', or a ready value."""
    def val(x):
        if x is True or x is False:
            return ("b", x)
        if isinstance(x, int):
            return ("i", x)
        if x is None:
            return ("null",)
        if isinstance(x, list):
            return ("list", tuple(val(y) for y in x))
        if isinstance(x, dict):
            return ("list", tuple(("tup", (val(k), val(v))) for k, v in x.items()))
        if isinstance(x, str):
            if x.startswith("#"):
                c = [m["q"] for d in F.enums.values() for m in d["c"] if m["q"] == "kratos::" + x[1:] or m["q"].endswith("::" + x[1:])]
                if len(c) != 1:
                    raise AnalysisError("anchor vanished: enumerator %s" % x)
                return ("e", c[0])
            if x.startswith('"'):
                return ("s", x[1:])
            return ("t", x) if x == "this" else ("e", x)
        return x
    g = {}
    for o, d in objs.items():
        for k, x in d.items():
            for sp in ([k] if k.endswith(")") else (k, k + "_", k + "()", "get_" + k + "()", "is_" + k + "_", "is_" + k + "()")):
                g["%s.%s" % (o, sp)] = val(x)
    return g


def classes(F, m):
    """hook: virtual calls on the named objects resolve in the stated classes"""
    def h(fr, e, o, c):
        q = m.get(text(o).lstrip("&*"))
        if q:
            g = F.resolve(q if "::" in q else "kratos::" + q, e.get("fid"))
            return F.funcs.get(g) if isinstance(g, str) else g
    return h
