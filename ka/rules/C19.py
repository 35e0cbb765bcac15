"""The built-in simulator and constant evaluator compute what SystemVerilog computes for known values."""
import itertools
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select
from .C18 import GLOB, handler

K = "kratos::"
S = K + "Simulator::"
M64 = (1 << 64) - 1
OP = "#ExprOp::"


def mask(w):
    return (1 << w) - 1


def sx(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b, w, s):
    """oracle: IEEE 1800 clause 11.4 on w-bit operands; None when the result is unknown"""
    x, y = (sx(a, w), sx(b, w)) if s else (a, b)
    t = {"Add": lambda: x + y, "Minus": lambda: x - y, "Multiply": lambda: x * y, "And": lambda: x & y, "Or": lambda: x | y, "Xor": lambda: x ^ y,
         "Divide": lambda: tdiv(x, y), "Mod": lambda: x - tdiv(x, y) * y,
         "LogicalShiftRight": lambda: a >> b, "ShiftLeft": lambda: a << b if b < 64 else 0, "SignedShiftRight": lambda: x >> b,
         "LAnd": lambda: int(bool(a) and bool(b)), "LOr": lambda: int(bool(a) or bool(b)),
         "LessThan": lambda: int(x < y), "GreaterThan": lambda: int(x > y), "LessEqThan": lambda: int(x <= y), "GreaterEqThan": lambda: int(x >= y),
         "Eq": lambda: int(x == y), "Neq": lambda: int(x != y)}
    if op in ("Divide", "Mod") and y == 0:
        return None
    if op == "Power":
        if y < 0:
            return None if x == 0 else 1 if x == 1 else (1 if y % 2 == 0 else mask(w)) if x == -1 else 0
        return pow(x % (1 << w), y, 1 << w) if w else 0
    return t[op]() & mask(w)


BINARY = ("Add", "Minus", "Divide", "Multiply", "Mod", "LogicalShiftRight", "SignedShiftRight", "ShiftLeft", "Or", "And", "Xor", "Power", "LAnd", "LOr", "LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan", "Eq", "Neq")
COMPARE = ("LAnd", "LOr", "LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan", "Eq", "Neq")
UNARY = ("UInvert", "UMinus", "UPlus", "UOr", "UNot", "UAnd", "UXor")


def unop(op, a, w):
    return {"UInvert": ~a & mask(w), "UMinus": -a & mask(w), "UPlus": a, "UOr": int(a != 0), "UNot": int(a == 0), "UAnd": int(a == mask(w)), "UXor": bin(a).count("1") % 2}[op]


def points(w):
    if w <= 2:
        return list(range(1 << w))
    return sorted({0, 1, 2, 3, mask(w), mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (0x5A5A5A5A5A5A5A5A & mask(w)), w - 1, w & mask(w)})


def V(width, size=(1,), type="Base", signed=False, **kw):
    n = 1
    for s in size:
        n *= s
    return dict(dict(size=list(size), type="#VarType::" + type, width=width * n, var_width=width, signed=signed, function=False, explicit_array=False, packed=False, num_bits=0, bignum=False, width_param=None), **kw)


def SL(root, parent, high, low, width, size=(1,), **kw):
    d = dict(high=high, low=low, parent_var=parent, var_root_parent=root, sliced_by_var=False)
    d.update(kw)
    return V(width, size, "Slice", **d)


def BY(root, parent, index, width, size=(1,), **kw):
    """a variable index"""
    return SL(root, parent, 0, 0, width, size, **dict(dict(sliced_by_var=True, sliced_var=index), **kw))


def roots(objs):
    for o, d in objs.items():
        if "type" in d and "var_root_parent" not in d:
            d["var_root_parent"] = o
    return objs


def known(values, arrays=None, **kw):
    return dict(values=dict(values), complex_values={k: list(v) for k, v in (arrays or {}).items()}, **kw)


def over(F, name, *want):
    """the overload whose parameters mention these types in order"""
    fs = [f for f in F.find(S + name) if f.body is not None and len(f.params) >= len(want) and all(w in (p["t"] or "") for w, p in zip(want, f.params))]
    if not fs:
        raise AnalysisError("anchor vanished: Simulator::%s(%s)" % (name, ", ".join(want)))
    return min(fs, key=lambda f: len(f.params))


def scenario(F, r, rule, f, objs, want, key, args, extra=None, **kw):
    kw = dict(dict(opaque=("to_string", "handle_name", "trigger_event"), recur=9, depth=18), **kw)
    row(F, r, rule, f, want, given=dict(world(F, roots(objs)), **(extra or {})), key=key, args=args, **kw)


def plain(v):
    """a propagated value as a Python one"""
    if v is None:
        return "?"
    if v[0] == "opt":
        return plain(v[1])
    if v[0] in ("i", "b"):
        return int(v[1])
    if v[0] == "null":
        return None
    if v[0] == "list":
        return [plain(x) for x in v[1]]
    return text(v)


def is_(want):
    def check(o):
        if want == "throw":
            return None if o.kind == "throw" else "yields %s" % outcome(o)
        if o.kind == "throw":
            return "is rejected"
        return None if plain(o.val) == want else "yields %s instead of %s" % (plain(o.val), want)
    return check


def contents(o, objs):
    """what the simulator holds at the end of this path"""
    out = {}
    for t in ("values", "complex_values"):
        v = o.st.env.get("this.%s_" % t)
        if v is None:
            out.update({k: x for k, x in objs["this"].get(t, {}).items()})
            continue
        if v[0] != "list":
            return {"?": text(v)}
        for x in v[1]:
            out[text(x[1][0])] = plain(x[1][1])
    return out


def stored(objs, want, changed=None):
    """the write leaves these values, and announces exactly the bits that changed of `root`"""
    def check(o):
        if o.kind == "throw":
            return "is rejected"
        c = contents(o, objs)
        if c != want:
            return "leaves %s instead of %s" % (c, want)
        if changed is not None:
            got = {}
            for e in o.st.eff:
                if e[0] == "call" and e[1].split(".")[-1] == "trigger_event":
                    v = e[2][1]
                    if v[0] not in ("list", "set"):
                        return "announces %s" % text(v)
                    if v[1]:
                        got.setdefault(text(e[2][0]), set()).update(plain(x) for x in v[1])
            if got != {k: set(v) for k, v in changed.items() if v}:
                return "announces changes of %s instead of %s" % (got, changed)
    return check


def run(F, r, tier):
    r.rule("operators", "every operator yields the standard's result for its width and sign", 250)
    operators(F, r, tier)
    log2s(F, r)
    r.rule("operands", "an expression is evaluated from its own operands, over their own width and sign; unknown operands give unknown", 60)
    operands(F, r)
    r.rule("read", "reading a variable, slice, element, cast or constant yields exactly its bits, or unknown", 60)
    reads(F, r)
    r.rule("write", "writing changes exactly the bits named, and announces exactly the bits that changed", 50)
    writes(F, r)
    r.rule("statement", "a statement takes the branch its condition selects and assigns what it says", 50)
    statements(F, r)
    r.rule("schedule", "non-blocking values are committed together after all active events; every dependent runs", 15)
    schedule(F, r)
    r.rule("sensitivity", "a statement or combinational block runs again when anything it reads changes; a clocked block only on its events", 50)
    sensitivity(F, r)
    r.rule("static", "a width or size given by an expression is its positive value", 8)
    static(F, r)


def operators(F, r, tier):
    R = "operators"
    f, g = F.one(K + "eval_bin_op"), F.one(K + "eval_unary_op")
    r.saw(f)
    r.saw(g)
    widths = (1, 2, 8, 32, 33, 63, 64) if tier == "quick" else tuple(range(1, 18)) + (24, 31, 32, 33, 40, 48, 62, 63, 64)
    for w in widths:
        ps = points(w)
        for op in BINARY:
            for s in (False, True):
                bad, n = None, 0
                for a, b in itertools.product(ps, ps):
                    want = binop(op, a, b, w, s)
                    if want is None:
                        continue
                    n += 1
                    outs, P = returns(F, f, args={0: ("i", a), 1: ("i", b), 2: world(F, {"x": {"o": OP + op}})["x.o"], 3: ("i", w), 4: ("b", s)})
                    got = [plain(o.val) if o.kind == "ret" else o.kind for o in outs]
                    if got != [want]:
                        bad = "%d %s %d on %d %s bits yields %s instead of %d" % (a, op, b, w, "signed" if s else "unsigned", got, want)
                        break
                r.ob(R, "eval_bin_op|%s|%d%s" % (op, w, "s" if s else "u"), bad is None, f.loc(), bad or "%d operand pairs" % n)
        for op in UNARY:
            bad = None
            for a in ps:
                outs, P = returns(F, g, args={0: ("i", a), 1: world(F, {"x": {"o": OP + op}})["x.o"], 2: ("i", w)})
                got = [plain(o.val) if o.kind == "ret" else o.kind for o in outs]
                if got != [unop(op, a, w)]:
                    bad = "%s of %d on %d bits yields %s instead of %d" % (op, a, w, got, unop(op, a, w))
                    break
            r.ob(R, "eval_unary_op|%s|%d" % (op, w), bad is None, g.loc(), bad or "%d operands" % len(ps))
        h = F.one(K + "eval_ternary_op")
        for p in (True, False):
            bad = None
            for a, b in ((ps[-1], ps[0]), (ps[0], ps[-1]), (ps[-1], ps[-1])):
                outs, P = returns(F, h, args={0: ("b", p), 1: ("i", a), 2: ("i", b), 3: ("i", w)})
                got = [plain(o.val) if o.kind == "ret" else o.kind for o in outs]
                if got != [a if p else b]:
                    bad = "of %d and %d selects %s" % (a, b, got)
            r.ob(R, "eval_ternary_op|%s|%d" % (p, w), bad is None, h.loc(), bad or "both operands")
        for name, fn in (("invert", lambda a: ~a & mask(w)), ("truncate", lambda a: a & mask(w))):
            h = F.one(K + name)
            bad = None
            for a in ps + [M64, 1 << 63]:
                outs, P = returns(F, h, args={0: ("i", a), 1: ("i", w)})
                got = [plain(o.val) if o.kind == "ret" else o.kind for o in outs]
                if got != [fn(a)]:
                    bad = "%s(%d, %d) yields %s" % (name, a, w, got)
            r.ob(R, "%s|%d" % (name, w), bad is None, h.loc(), bad or "every bit inside the width, none outside")


def expr(op, left, right, width, signed=False, **kw):
    return V(width, (1,), "Expression", signed, op=OP + op, left=left, right=right, **kw)


def log2s(F, r):
    """the number of address bits of n values, one for a single value"""
    import math
    f = F.one(K + "clog2")
    for n in list(range(1, 18)) + [31, 32, 33, 255, 256, 257, 65535, 65536, 65537]:
        outs, P = returns(F, f, args={0: ("i", n)}, stubs={"log2": lambda vs: ("f", math.log2(vs[0][1])) if vs[0][0] == "i" else None, "ceil": lambda vs: ("i", math.ceil(vs[0][1])) if vs[0][0] in "fi" else None,
                                                         "floor": lambda vs: ("i", math.floor(vs[0][1])) if vs[0][0] in "fi" else None, "round": lambda vs: ("i", math.floor(vs[0][1] + 0.5)) if vs[0][0] in "fi" else None})
        got = [plain(o.val) if o.kind == "ret" else o.kind for o in outs]
        r.ob("operators", "clog2|%d" % n, got == [max(1, (n - 1).bit_length())], f.loc(), "yields %s" % got)


def operands(F, r):
    R = "operands"
    f = F.one(S + "eval_expr")
    A = {0: ("e", "$0")}

    def ask(objs, want, key, values, **kw):
        objs = dict(objs, this=known(values))
        scenario(F, r, R, f, objs, is_(want), key, A, **kw)
    # binary: operand width and sign are what counts, not those of the one bit result
    for op in BINARY:
        cmp_ = op in COMPARE
        for s in (False, True):
            for a, b in ((200, 3), (3, 200), (200, 200), (255, 128)):
                objs = {"$0": expr(op, "l", "x", 1 if cmp_ else 8, s), "l": V(8, signed=s), "x": V(8, signed=s)}
                ask(objs, [binop(op, a, b, 8, s)], "%s %s of %d and %d" % ("signed" if s else "unsigned", op, a, b), {"l": a, "x": b})
        objs = {"$0": expr(op, "l", "x", 1 if cmp_ else 8), "l": V(8), "x": V(8)}
        ask(objs, None, "%s of an unknown" % op, {"x": 1})
        ask(objs, None, "%s with an unknown" % op, {"l": 1})
    for op in ("Divide", "Mod"):
        ask({"$0": expr(op, "l", "x", 8), "l": V(8), "x": V(8)}, None, "%s by zero" % op, {"l": 9, "x": 0})
    for op in UNARY:
        for a in (0, 0xff, 0x80, 0x7e):
            objs = {"$0": expr(op, "l", None, 1 if op in ("UOr", "UNot", "UAnd", "UXor") else 8), "l": V(8)}
            ask(objs, [unop(op, a, 8)], "%s of %d" % (op, a), {"l": a})
        ask({"$0": expr(op, "l", None, 8), "l": V(8)}, None, "%s of an unknown" % op, {})
    # conditional: only the selected operand has to be known
    objs = {"$0": expr("Conditional", "l", "x", 8, condition="c"), "l": V(8), "x": V(8), "c": V(1)}
    for c in (0, 1):
        ask(objs, [[7], [9]][c], "conditional on %d" % c, {"c": c, "l": 9, "x": 7})
        ask(objs, [[7], [9]][c], "conditional on %d, the other unknown" % c, {"c": c, **({"l": 9} if c else {"x": 7})})
        ask(objs, None, "conditional on %d, selected unknown" % c, {"c": c, **({"l": 9} if not c else {"x": 7})})
    ask(objs, None, "conditional on an unknown", {"l": 9, "x": 7})
    ask(dict(objs, c=V(4)), [9], "conditional on a wide value", {"c": 2, "l": 9, "x": 7})
    # concatenation: the first operand has the highest bits
    objs = {"$0": expr("Concat", "a", None, 13, vars=["a", "b", "c"]), "a": V(4), "b": V(1), "c": V(8)}
    ask(objs, [(0xA << 9) | (1 << 8) | 0x5C], "concatenation", {"a": 0xA, "b": 1, "c": 0x5C})
    ask(objs, [0x5C], "concatenation of zeros", {"a": 0, "b": 0, "c": 0x5C})
    for x in "abc":
        ask(objs, None, "concatenation, %s unknown" % x, {k: 1 for k in "abc" if k != x})
    objs = {"$0": expr("Concat", "a", None, 64, vars=["a", "b"]), "a": V(32), "b": V(32)}
    ask(objs, [0xDEADBEEF01234567], "concatenation of words", {"a": 0xDEADBEEF, "b": 0x01234567})
    # extension
    for s, w, t, a, want in ((False, 4, 8, 0xC, 0xC), (True, 4, 8, 0xC, 0xFC), (True, 4, 8, 0x4, 4), (True, 4, 64, 0x8, M64 & ~7), (True, 1, 33, 1, mask(33)), (True, 32, 40, 0x80000000, 0xFF80000000), (False, 32, 64, M64 >> 32, M64 >> 32), (True, 8, 8, 0x80, 0x80)):
        objs = {"$0": expr("Extend", "l", None, t, s, parent_var="l"), "l": V(w, signed=s)}
        ask(objs, [want], "%s extension of %d from %d to %d bits" % ("sign" if s else "zero", a, w, t), {"l": a})
    ask({"$0": expr("Extend", "l", None, 8, True, parent_var="l"), "l": V(4, signed=True)}, None, "extension of an unknown", {})
    # nested
    objs = {"$0": expr("LessThan", "m", "k", 1), "m": expr("Add", "a", "b", 8), "k": V(8, type="ConstValue", value=200), "a": V(8), "b": V(8)}
    ask(objs, [1], "nested sum wraps", {"a": 200, "b": 100})
    ask(objs, [0], "nested sum", {"a": 200, "b": 10})
    # too wide for the evaluator: unknown or rejected, never a wrong value
    for op in ("Add", "LessThan"):
        objs = {"$0": expr(op, "l", "x", 80 if op == "Add" else 1), "l": V(80), "x": V(80)}
        scenario(F, r, R, f, dict(objs, this=known({"l": 1, "x": 2})), lambda o: None if o.kind == "throw" or plain(o.val) is None else "yields %s" % plain(o.val), "%s of 80 bits" % op, A)


def reads(F, r):
    R = "read"
    get, arr = over(F, "get", "Var *"), over(F, "get_array", "Var *")
    A = {0: ("e", "$0")}

    def ask(objs, want, key, values, arrays=None, f=get, **kw):
        scenario(F, r, R, f, dict(objs, this=known(values, arrays)), is_(want), key, A, **kw)
    for w in (1, 8, 32, 64):
        ask({"$0": V(w)}, mask(w), "variable of %d bits" % w, {"$0": mask(w), "o": 0})
        ask({"$0": V(w, type="PortIO")}, 0, "port of %d bits, zero" % w, {"$0": 0})
        ask({"$0": V(w)}, None, "unset variable of %d bits" % w, {"o": 1})
        for t in ("ConstValue", "Parameter"):
            ask({"$0": V(w, type=t, value=1)}, 1, "%s of %d bits" % (t, w), {})
            ask({"$0": V(w, type=t, value=-1, signed=True)}, mask(w), "negative %s of %d bits" % (t, w), {})
            ask({"$0": V(w, type=t, value=0)}, 0, "zero %s of %d bits" % (t, w), {})
    x = 0xDEADBEEF01234567
    for w, hi, lo in ((8, 7, 0), (8, 3, 0), (8, 7, 4), (8, 4, 4), (8, 6, 2), (33, 32, 32), (33, 32, 1), (64, 63, 0), (64, 63, 63), (64, 63, 60), (64, 40, 8), (64, 31, 0)):
        objs = {"$0": SL("root", "root", hi, lo, hi - lo + 1), "root": V(w)}
        v = x & mask(w)
        ask(objs, (v >> lo) & mask(hi - lo + 1), "bits %d:%d of %d" % (hi, lo, w), {"root": v})
        ask({"$0": SL("root", "root", hi, lo, hi - lo + 1), "root": V(w)}, None, "bits %d:%d of an unset variable of %d bits" % (hi, lo, w), {})
        objs = {"$0": SL("root", "root", hi, lo, hi - lo + 1), "root": V(w, type="ConstValue", value=v if v < 1 << 63 else v - (1 << 64))}
        ask(objs, (v >> lo) & mask(hi - lo + 1), "bits %d:%d of a constant of %d bits" % (hi, lo, w), {})
    objs = {"$0": SL("root", "s", 2, 1, 2), "s": SL("root", "root", 6, 2, 5), "root": V(8)}
    ask(objs, (0xD6 >> 3) & 3, "bits of bits", {"root": 0xD6})
    vals = [11, 22, 33, 44, 55, 66]
    for i in range(3):
        for j in range(2):
            objs = {"$0": SL("root", "s", j, j, 8), "s": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
            ask(objs, vals[2 * i + j], "element %d,%d" % (i, j), {}, {"root": vals})
            objs = {"$0": SL("root", "e", 5, 2, 4), "e": SL("root", "s", j, j, 8), "s": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
            ask(objs, (vals[2 * i + j] >> 2) & 15, "bits of element %d,%d" % (i, j), {}, {"root": vals})
        objs = {"$0": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
        ask(objs, vals[2 * i:2 * i + 2], "row %d" % i, {}, {"root": vals}, f=arr)
    for hi, lo in ((1, 0), (2, 1), (2, 0)):
        objs = {"$0": SL("root", "root", hi, lo, 8, (hi - lo + 1, 2)), "root": V(8, (3, 2))}
        ask(objs, vals[2 * lo:2 * hi + 2], "rows %d:%d" % (hi, lo), {}, {"root": vals}, f=arr)
    ask({"$0": V(8, (3, 2))}, vals, "whole array", {}, {"$0": vals}, f=arr)
    ask({"$0": V(8, (3, 2))}, None, "unset array", {}, {}, f=arr)
    ask({"$0": V(8)}, [5], "scalar as array", {"$0": 5}, f=arr)
    ask({"$0": V(8)}, None, "unset scalar as array", {}, f=arr)
    ask({"$0": SL("root", "root", 1, 1, 8, (2,)), "root": V(8, (3, 2))}, None, "row of an unset array", {}, {}, f=arr)
    # variable index
    for i in range(4):
        objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (4,)), "i": V(2)}
        ask(objs, vals[i], "element at index %d" % i, {"i": i}, {"root": vals[:4]})
        objs = {"$0": BY("root", "root", "i", 1), "root": V(4), "i": V(2)}
        ask(objs, (0b1010 >> i) & 1, "bit at index %d" % i, {"i": i, "root": 0b1010})
    objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (4,)), "i": V(2)}
    ask(objs, None, "element at an unknown index", {}, {"root": vals[:4]})
    objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (3,)), "i": V(2)}
    ask(objs, None, "element out of range", {"i": 3}, {"root": vals[:3]})
    for w, n in ((4, 6), (5, 5), (3, 7)):
        for i in range(8):
            objs = {"$0": BY("root", "root", "i", 1), "root": V(w), "i": V(3)}
            ask(objs, (0b1010101 >> i) & 1 if i < w else None, "bit at index %d of %d" % (i, w), {"i": i, "root": 0b1010101 & mask(w)})
            objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (n,)), "i": V(3)}
            ask(objs, 10 * i + 1 if i < n else None, "element at index %d of %d" % (i, n), {"i": i}, {"root": [10 * k + 1 for k in range(n)]})
    objs = {"$0": BY("root", "root", "i", 8, (2,)), "root": V(8, (3, 2)), "i": V(2)}
    ask(objs, vals[2:4], "row at index 1", {"i": 1}, {"root": vals}, f=arr)
    ask(objs, None, "row out of range", {"i": 3}, {"root": vals}, f=arr)
    # casts keep the value
    for s, w, t, a, want, cs in [(a, b, c, d, e, a) for a, b, c, d, e in ((False, 8, 8, 200, 200), (True, 8, 8, 200, 200), (True, 4, 8, 0xC, 0xFC), (False, 4, 8, 0xC, 0xC), (True, 8, 4, 0xAC, 0xC))] + \
            [(True, 4, 8, 0xC, 0xFC, False), (False, 4, 8, 0xC, 0xC, True), (True, 8, 8, 0xAC, 0xAC, False), (True, 4, 8, 4, 4, False)]:
        objs = {"$0": V(t, type="BaseCasted", signed=cs, parent_var="p", cast_type="#VarCastType::Resize"), "p": V(w, signed=s)}
        ask(objs, want, "cast of %d from %d to %d bits, %s to %s" % (a, w, t, s, cs), {"p": a})
    ask({"$0": V(8, type="BaseCasted", parent_var="p", cast_type="#VarCastType::Signed"), "p": V(8)}, None, "cast of an unknown", {})
    objs = {"$0": V(32, function=True, func="fn", func_def="fn", args={'"n': "n"}), "n": V(8), "fn": {"builtin": True, "function_name": '"clog2'}}
    for n, want in ((1, 0), (2, 1), (5, 3), (8, 3), (9, 4)):
        scenario(F, r, R, get, dict(objs, this=known({"n": n})), is_(want), "clog2(%d)" % n, A, extra={"clog2(%d)" % n: ("i", want)}, opaque=("to_string", "handle_name", "trigger_event", "clog2"))
    ask(objs, None, "clog2 of an unknown", {})


def writes(F, r):
    R = "write"
    put, put_i, arr, arr_i = over(F, "set", "Var *", "optional<unsigned long>", "bool"), over(F, "set_i", "Var *", "optional<long>", "bool"), over(F, "set", "Var *", "vector<unsigned long", "bool"), over(F, "set_i", "Var *", "vector<long", "bool")

    def ask(objs, v, want, changed, key, values, arrays=None, f=None, **kw):
        o = dict(objs, this=known(values, arrays))
        v = ("null",) if v is None else ("list", tuple(("i", x) for x in v)) if isinstance(v, list) else ("opt", ("i", v))
        scenario(F, r, R, f or (arr if v[0] == "list" else put), o, stored(o, want, changed), key, {0: ("e", "$0"), 1: v, 2: ("b", False)}, **kw)
    for w in (1, 8, 33, 64):
        allb = range(w)
        ask({"$0": V(w)}, mask(w), {"$0": mask(w), "o": 1}, {"$0": allb}, "first value of %d bits" % w, {"o": 1})
        ask({"$0": V(w)}, 0, {"$0": 0}, {"$0": allb}, "first value of %d bits, zero" % w, {})
        ask({"$0": V(w)}, mask(w), {"$0": mask(w)}, {"$0": allb}, "every bit of %d flips" % w, {"$0": 0})
        ask({"$0": V(w)}, mask(w), {"$0": mask(w)}, {}, "the same value of %d bits" % w, {"$0": mask(w)})
        ask({"$0": V(w)}, mask(w) ^ (1 << (w - 1)), {"$0": mask(w) ^ (1 << (w - 1))}, {"$0": [w - 1]}, "top bit of %d" % w, {"$0": mask(w)})
        ask({"$0": V(w)}, None, {"$0": 1}, {}, "no value of %d bits" % w, {"$0": 1})
        ask({"$0": V(w, signed=True)}, -1, {"$0": mask(w)}, {"$0": allb}, "negative value of %d bits" % w, {"$0": 0}, f=put_i)
    ask({"$0": V(8)}, 0x1F3, {"$0": 0xF3}, {"$0": range(8)}, "a value that is too wide", {})
    ask({"$0": V(8, signed=True)}, 0x1F3, {"$0": 0xF3}, {"$0": range(8)}, "a value that is too wide for a signed variable", {})
    ask({"$0": V(8, signed=True)}, 0x1F3, {"$0": 0xF3}, {"$0": [0]}, "a value that is too wide over another", {"$0": 0xF2})
    ask({"$0": V(1, type="PortIO")}, 2, {"$0": 0}, {}, "a value that is too wide for a bit", {"$0": 0})
    for w, hi, lo in ((8, 7, 0), (8, 3, 0), (8, 7, 4), (8, 4, 4), (8, 6, 2), (33, 32, 32), (33, 32, 1), (64, 63, 0), (64, 63, 63), (64, 40, 8), (64, 31, 0)):
        m = mask(hi - lo + 1)
        for old in (0, mask(w), 0x5A5A5A5A5A5A5A5A & mask(w)):
            for v in (m, 0x33 & m):
                objs = {"$0": SL("root", "root", hi, lo, hi - lo + 1), "root": V(w)}
                new = old & ~(m << lo) | v << lo
                ask(objs, v, {"root": new, "o": 3}, {"root": [i for i in range(w) if (new ^ old) >> i & 1]}, "bits %d:%d of %d, %x over %x" % (hi, lo, w, v, old), {"root": old, "o": 3})
    objs = {"$0": SL("root", "root", 3, 2, 2), "root": V(8)}
    ask(objs, 7, {"root": 0b1100}, {"root": [2, 3]}, "a slice's value that is too wide", {"root": 0})
    objs = {"$0": SL("root", "root", 3, 2, 2), "root": V(8)}
    ask(objs, 0, {"root": 0}, {"root": [2, 3]}, "first value of a slice", {})
    objs = {"$0": SL("root", "s", 2, 1, 2), "s": SL("root", "root", 6, 2, 5), "root": V(8)}
    ask(objs, 3, {"root": 0b11000}, {"root": [3, 4]}, "bits of bits", {"root": 0})
    vals = [11, 22, 33, 44, 55, 66]

    def put_at(k, x):
        return vals[:k] + [x] + vals[k + 1:]
    for i, j in itertools.product(range(3), range(2)):
        k = 2 * i + j
        bits = [8 * k + b for b in range(8) if (vals[k] ^ 0x7C) >> b & 1]
        objs = {"$0": SL("root", "s", j, j, 8), "s": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
        ask(objs, 0x7C, {"root": put_at(k, 0x7C)}, {"root": bits}, "element %d,%d" % (i, j), {}, {"root": vals})
        ask(objs, [0x7C], {"root": put_at(k, 0x7C)}, {"root": bits}, "element %d,%d as a list" % (i, j), {}, {"root": vals})
        objs = {"$0": SL("root", "e", 5, 2, 4), "e": SL("root", "s", j, j, 8), "s": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
        new = vals[k] & ~0x3C | 9 << 2
        ask(objs, 9, {"root": put_at(k, new)}, {"root": [8 * k + b for b in range(8) if (vals[k] ^ new) >> b & 1]}, "bits of element %d,%d" % (i, j), {}, {"root": vals})
    objs = {"$0": SL("root", "s", 1, 1, 8), "s": SL("root", "root", 1, 1, 8, (2,)), "root": V(8, (3, 2))}
    ask(objs, 5, {"root": [0, 0, 0, 5, 0, 0]}, {"root": range(24, 32)}, "first element", {}, {})
    for i in range(3):
        objs = {"$0": SL("root", "root", i, i, 8, (2,)), "root": V(8, (3, 2))}
        new = vals[:2 * i] + [1, 2] + vals[2 * i + 2:]
        ask(objs, [1, 2], {"root": new}, {"root": [8 * k + b for k in range(6) for b in range(8) if (vals[k] ^ new[k]) >> b & 1]}, "row %d" % i, {}, {"root": vals})
    objs = {"$0": SL("root", "root", 2, 1, 8, (2, 2)), "root": V(8, (3, 2))}
    new = vals[:2] + [1, 2, 3, 4]
    ask(objs, [1, 2, 3, 4], {"root": new}, {"root": [8 * k + b for k in range(6) for b in range(8) if (vals[k] ^ new[k]) >> b & 1]}, "rows 2:1", {}, {"root": vals})
    for first in (True, False):
        ask({"$0": V(8, (3, 2))}, [1, 2, 3, 4, 5, 6], {"$0": [1, 2, 3, 4, 5, 6]}, {"$0": range(48) if first else [8 * k + b for k in range(6) for b in range(8) if (vals[k] ^ (k + 1)) >> b & 1]}, "whole array%s" % (", first" if first else ""), {}, {} if first else {"$0": vals})
    ask({"$0": V(40, (2,))}, [1 << 39, 0], {"$0": [1 << 39, 0]}, {"$0": [39]}, "top bit of a wide element", {}, {"$0": [0, 0]})
    ask({"$0": V(4, (2,), packed=True)}, [0xA5], {"$0": [5, 0xA]}, {"$0": range(8)}, "packed array from one value", {}, {})
    ask({"$0": V(32, (2,), packed=True)}, [0xDEADBEEF01234567], {"$0": [0x01234567, 0xDEADBEEF]}, {"$0": range(64)}, "packed array of words", {}, {})
    o = {"$0": V(8, (2,)), "this": known({})}
    scenario(F, r, R, arr, o, is_("throw"), "one value for two elements", {0: ("e", "$0"), 1: ("list", (("i", 1),)), 2: ("b", False)})
    ask({"$0": V(8, (2,), signed=True)}, [-1, 1], {"$0": [255, 1]}, None, "negative elements", {}, {}, f=arr_i)
    for i in range(4):
        objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (4,)), "i": V(2)}
        new = vals[:i] + [99] + vals[i + 1:4]
        ask(objs, 99, {"i": i, "root": new}, {"root": [8 * i + b for b in range(8) if (vals[i] ^ 99) >> b & 1]}, "element at index %d" % i, {"i": i}, {"root": vals[:4]})
        objs = {"$0": BY("root", "root", "i", 1), "root": V(4), "i": V(2)}
        ask(objs, 1, {"i": i, "root": 1 << i}, {"root": [i]}, "bit at index %d" % i, {"i": i, "root": 0})
    objs = {"$0": BY("root", "root", "i", 8), "root": V(8, (3,)), "i": V(2)}
    ask(objs, 99, {"i": 3, "root": vals[:3]}, {}, "element out of range", {"i": 3}, {"root": vals[:3]})
    objs = {"$0": expr("Concat", "a", None, 13, vars=["a", "b", "c"]), "a": V(4), "b": V(1), "c": V(8)}
    ask(objs, (0xA << 9) | (1 << 8) | 0x5C, {"a": 0xA, "b": 1, "c": 0x5C}, {"a": [1, 3], "b": [0], "c": [2, 3, 4, 6]}, "concatenation", {"a": 0, "b": 0, "c": 0})
    for t in ("ConstValue", "Parameter"):
        o = {"$0": V(8, type=t, value=1), "this": known({})}
        scenario(F, r, R, put, o, is_("throw"), "assigning a %s" % t, {0: ("e", "$0"), 1: ("opt", ("i", 1)), 2: ("b", False)})
        o = {"$0": SL("root", "root", 1, 0, 2), "root": V(8, type=t, value=1), "this": known({})}
        scenario(F, r, R, put, o, is_("throw"), "assigning bits of a %s" % t, {0: ("e", "$0"), 1: ("opt", ("i", 1)), 2: ("b", False)})
    # set() evaluates unless told not to
    for fs in (put, put_i, arr, arr_i):
        for ev in (True, False):
            v = ("list", (("i", 1), ("i", 1))) if "vector" in fs.params[1]["t"] else ("opt", ("i", 1))
            objs = {"$0": V(8, (2,) if v[0] == "list" else (1,)), "this": known({})}

            def evals(o, ev=ev):
                n = len(calls(o, "eval"))
                return None if n == int(ev) else "evaluates the design %d times" % n
            scenario(F, r, R, fs, objs, evals, "eval=%s" % ev, {0: ("e", "$0"), 1: v, 2: ("b", ev)}, opaque=("to_string", "handle_name", "trigger_event", S + "eval", "eval"))


def statements(F, r):
    R = "statement"
    f = over(F, "process_stmt", "Stmt *")
    one = [x for x in F.find(S + "process_stmt") if strip_type(x.params[0]["t"]).replace("kratos::", "").strip() in ("Stmt *", "kratos::Stmt *")]
    if one:
        f = one[0]
    A = {0: ("e", "$0"), 1: ("e", "ev")}
    ST, BT = "#StatementType::", "#StatementBlockType::"

    def assign(l, v, kind="Blocking"):
        return {"type": ST + "Assign", "left": l, "right": v, "assign_type": "#AssignmentType::" + kind}

    def const(v, w=8):
        return V(w, type="ConstValue", value=v)

    def body(**kw):
        return dict({"type": ST + "Block", "block_type": BT + "Scope"}, **kw)

    def ask(objs, want, key, values, arrays=None, **kw):
        o = dict(objs, this=known(values, arrays, **{k: kw.pop(k) for k in ("nba_values", "scope", "event_queue") if k in kw}))
        scenario(F, r, R, f, o, stored(o, want) if isinstance(want, dict) else want, key, A, **kw)
    base = {"a": V(8), "b": V(8), "k1": const(1), "k2": const(2), "k3": const(3), "s1": assign("a", "k1"), "s2": assign("a", "k2"), "s3": assign("b", "k3")}
    for kind in ("Blocking", "Undefined"):
        ask(dict(base, **{"$0": assign("a", "b", kind)}), {"a": 7, "b": 7}, "%s assignment" % kind, {"a": 1, "b": 7})
        ask(dict(base, **{"$0": assign("a", "b", kind)}), {"a": 1}, "%s assignment of an unknown" % kind, {"a": 1})
    ask(dict(base, **{"$0": assign("a", "b", "NonBlocking")}), {"a": 1, "b": 7}, "a non-blocking assignment waits", {"a": 1, "b": 7}, nba_values=[])

    def queued(n):
        def check(o):
            v = final(o, "this.nba_values_")
            if v is not None and v[0] == "list":
                got = [text(x) for x in v[1]]
            else:
                got = [k for k, _ in puts(o, "this.nba_values_")]
            return None if len(got) == n and all("a" in x for x in got) else "leaves %s pending" % got
        return check
    ask(dict(base, **{"$0": assign("a", "b", "NonBlocking")}), queued(1), "a non-blocking assignment is pending", {"a": 1, "b": 7}, nba_values=[])
    ask(dict(base, **{"$0": assign("a", "b", "NonBlocking")}), queued(0), "an unknown non-blocking value is not assigned", {"a": 1}, nba_values=[])
    # arrays
    ask({"$0": assign("x", "y"), "x": V(8, (2,)), "y": V(8, (2,))}, {"x": [3, 4], "y": [3, 4]}, "array assignment", {}, {"x": [1, 2], "y": [3, 4]})
    # if
    for cw, c in ((1, 0), (1, 1), (4, 0), (4, 2), (1, None)):
        objs = dict(base, **{"$0": {"type": ST + "If", "predicate": "c", "then_body": "t", "else_body": "x"}, "c": V(cw), "t": body(stmts=["s1"], begin="s1"), "x": body(stmts=["s2", "s3"])})
        cv = {} if c is None else {"c": c}
        ask(objs, dict(cv, **({"a": 1, "b": 0} if c else {"a": 2, "b": 3})), "if on %s of %d bits" % (c, cw), dict(cv, a=0, b=0))
    # case
    for tw in (2, 8, 33, 64):
        for v in (0, 1, mask(tw), None, 2):
            for default in (True, False):
                cases = {"k_one": "b1", "k_top": "b2"}
                b = {"k_one": "b1", "k_top": "b2"}
                objs = dict(base, **{"k_one": const(1, tw), "k_top": V(tw, type="ConstValue", value=-1, signed=True), "v": V(tw),
                                     "b1": body(stmts=["s1"]), "b2": body(stmts=["s3"]), "b3": body(stmts=["s2"])})
                bl = [("tup", (("e", "k_one"), ("e", "b1"))), ("tup", (("e", "k_top"), ("e", "b2")))]
                if default:
                    bl.insert(0, ("tup", (("null",), ("e", "b3"))))
                objs["$0"] = {"type": ST + "Switch", "target": "v", "body": ("list", tuple(bl))}
                vv = {} if v is None else {"v": v}
                want = dict(vv, a=0, b=0)
                if v == 1:
                    want["a"] = 1
                elif v == mask(tw):
                    want["b"] = 3
                elif default:
                    want["a"] = 2
                ask(objs, want, "case on %s of %d bits%s" % (v, tw, ", default" if default else ""), dict(vv, a=0, b=0))
    # blocks
    objs = dict(base, **{"$0": body(stmts=["s1", "s3", "s2"])})
    ask(objs, {"a": 2, "b": 3}, "a block runs in order", {"a": 0, "b": 0})
    objs = dict(base, **{"$0": body(stmts=["s1", "s3", "s2"], block_type=BT + "Combinational")})
    ask(objs, {"a": 2, "b": 3}, "a combinational block runs in order", {"a": 0, "b": 0}, scope=[])

    def unscoped(o):
        v = final(o, "this.scope_")
        return None if v is None or v[0] == "list" and not v[1] or v[0] == "set" and not v[1] else "is still marked as running (%s)" % text(v)
    ask(objs, unscoped, "a combinational block can be triggered again", {"a": 0, "b": 0}, scope=[])
    # clocked
    for edges in (("Posedge",), ("Negedge",), ("Posedge", "Negedge")):
        for who in range(len(edges) + 1):
            for v in (0, 1, None):
                names = ["c%d" % i for i in range(len(edges))]
                objs = dict(base, **{"$0": body(stmts=["s1"], block_type=BT + "Sequential", event_controls=["e%d" % i for i in range(len(edges))], conditions=["e%d" % i for i in range(len(edges))])})
                for i, e in enumerate(edges):
                    objs["e%d" % i] = {"var": names[i], "edge": "#EventEdgeType::" + e}
                    objs[names[i]] = V(1)
                src = names[who] if who < len(edges) else "other"
                objs["other"] = V(1)
                vals = {n: (v if n == src else 1) for n in names + ["other"] if not (n == src and v is None)}
                fires = who < len(edges) and v is not None and v == (1 if edges[who] == "Posedge" else 0)
                o = dict(objs, this=known(dict(vals, a=0)))
                scenario(F, r, R, f, o, stored(o, dict(vals, a=1 if fires else 0)), "clocked on %s, %s becomes %s" % ("/".join(edges), src, v), {0: ("e", "$0"), 1: ("e", src)})


def schedule(F, r):
    R = "schedule"
    f = F.one(S + "eval")
    OPQ = ("to_string", "handle_name", "trigger_event", "process_stmt")

    def order(want):
        def check(o):
            if o.kind == "throw":
                return "is rejected"
            got = []
            for e in o.st.eff:
                if e[0] == "call" and e[1].split(".")[-1] == "process_stmt":
                    got.append("run " + text(e[2][0]))
                elif e[0] == "call" and e[1].split(".")[-1] == "trigger_event":
                    got.append("set " + text(e[2][0]))
            return None if got == want else "does %s instead of %s" % (got, want)
        return check

    def q(*xs):
        return ("list", tuple(("tup", (("e", v), ("e", s))) for v, s in xs))

    def nba(*xs):
        return ("list", tuple(("list", (("e", v), ("list", ()), ("list", (("i", x),)))) for v, x in xs))
    base = {"x": V(8), "y": V(8)}
    for n in range(4):
        o = dict(base, this=known({"x": 0, "y": 0}, event_queue=q(*[("x", "s%d" % i) for i in range(n)]), nba_values=("list", ()), simulation_depth=0))
        scenario(F, r, R, f, o, order(["run s%d" % i for i in range(n)]), "%d events" % n, {}, opaque=OPQ)
    for n in range(3):
        fields = nba_fields(F)
        if fields is None:
            break
        o = dict(base, this=known({"x": 0, "y": 0}, event_queue=q(*[("x", "s%d" % i) for i in range(n)]), nba_values=("list", ("n0", "n1") and (("e", "n0"), ("e", "n1"))), simulation_depth=0))
        for i, (v, x) in enumerate((("x", 5), ("y", 6))):
            o["n%d" % i] = {fields["var"]: v, fields["index"]: [], fields["value"]: [x]}
        w = ["run s%d" % i for i in range(n)] + ["set x", "set y"]
        scenario(F, r, R, f, o, order(w), "%d events before two non-blocking assignments" % n, {}, opaque=OPQ)
        scenario(F, r, R, f, o, stored(o, {"x": 5, "y": 6}), "two non-blocking assignments after %d events" % n, {}, opaque=OPQ)
    # announcing a change queues every dependent statement that is not running
    g = F.one(S + "trigger_event")
    for bits in ((), (0,), (3,), (0, 3)):
        for running in ((), ("d1",)):
            objs = {"v": V(8), "sl": SL("v", "v", 3, 2, 2), "sm": SL("v", "v", 0, 0, 1), "sn": SL("v", "v", 3, 0, 4),
                    "this": {"dependency": {"v": ("list", (("e", "d0"), ("e", "d1"))), "sl": ("list", (("e", "d2"),)), "sm": ("list", (("e", "d3"), ("e", "d1"))), "sn": ("list", (("e", "d4"),)), "w": ("list", (("e", "d9"),))},
                             "linked_dependency": ("list", (("tup", (("e", "v"), ("list", (("tup", (("i", 0), ("list", (("e", "sm"), ("e", "sn"))))), ("tup", (("i", 1), ("list", (("e", "sn"),)))), ("tup", (("i", 2), ("list", (("e", "sl"), ("e", "sn"))))), ("tup", (("i", 3), ("list", (("e", "sl"), ("e", "sn"))))))))),)),
                             "scope": [x for x in running], "event_queue": [], "simulation_depth": 0}}
            want = set()
            if bits:
                want |= {"d0", "d1", "d4"}
                if 0 in bits:
                    want |= {"d3", "d1"}
                if 3 in bits:
                    want |= {"d2"}
            want -= set(running)

            def check(o, want=want):
                v = final(o, "this.event_queue_")
                got = {text(x[1][1]) for x in v[1]} if v is not None and v[0] == "list" else {text(a[-1]) if a[-1][0] != "tup" else text(a[-1][1][1]) for a in [e[2] for e in o.st.eff if e[0] == "call" and e[1].startswith("this.event_queue_.")]}
                return None if got == want else "queues %s instead of %s" % (sorted(got), sorted(want))
            scenario(F, r, R, g, objs, check, "bits %s change, %s running" % (list(bits), list(running)), {0: ("e", "v"), 1: ("set", frozenset(("i", b) for b in bits)) if bits else ("list", ())}, opaque=("to_string", "handle_name"))


def nba_fields(F):
    """names of the parts of a pending assignment"""
    for q, c in F.classes.items():
        if q.startswith("kratos::Simulator::"):
            fl = {}
            for m in c.get("fields", []):
                t = m["t"]
                if t.replace("const ", "").strip() in ("Var *", "kratos::Var *"):
                    fl["var"] = m["n"]
                elif "vector" in t and "unsigned long" in t or "uint64" in t:
                    fl["value"] = m["n"]
                else:
                    fl["index"] = m["n"]
            if len(fl) == 3:
                return fl
    return None


def entries(v):
    """a known map of sets"""
    out = {}
    if v is None:
        return out
    if v[0] != "list":
        return {"?": text(v)}
    for x in v[1]:
        if x[0] not in ("tup", "list") or len(x[1]) != 2:
            return {"?": text(v)}
        k, d = x[1]
        k = plain(k)
        if d[0] in ("list", "set") and any(y[0] in ("tup", "list") for y in d[1]):
            out[k] = entries(d)
        elif d[0] in ("list", "set"):
            out[k] = {text(y) for y in d[1]}
        else:
            out[k] = text(d)
    return out


def sensitivity(F, r):
    R = "sensitivity"
    W = [f for f in F.funcs.values() if f.body is not None and f.name == "visit" and f.q.startswith(K + "DependencyVisitor::") and len(f.params) == 1]
    f = next((x for x in W if "Generator" in x.params[0]["t"] and x.q.count("::") == 2), None)
    if f is None:
        raise AnalysisError("anchor vanished: the visitor that collects what a statement depends on")
    ST, BT = "#StatementType::", "#StatementBlockType::"
    full = {"linked": {}}

    def sl(n, root, hi, lo, **kw):
        return dict(SL(root, root, hi, lo, hi - lo + 1, **kw), var_high=hi, var_low=lo)
    pool = {"a": V(8), "b": V(8), "p": V(4, type="PortIO"), "i": V(3), "arr": V(8, (4,)),
            "k": V(8, type="ConstValue", value=3), "prm": V(8, type="Parameter", value=3),
            "a_3_2": sl("a_3_2", "a", 3, 2), "p_0": sl("p_0", "p", 0, 0), "a_i": dict(BY("a", "a", "i", 1), var_high=7, var_low=0),
            "in": dict(SL("arr", "arr_i", 1, 0, 2), var_high=31, var_low=0), "arr_i": dict(BY("arr", "arr", "i", 8), var_high=31, var_low=0),
            "bi": dict(BY("b", "b", "a_3_2", 1), var_high=7, var_low=0), "ab": expr("Add", "a", "b", 8), "ca": V(8, type="BaseCasted", parent_var="a")}
    bits = lambda lo, hi: {b: None for b in range(lo, hi + 1)}
    slices = {"a_3_2": ("a", 2, 3), "p_0": ("p", 0, 0), "a_i": ("a", 0, 7), "in": ("arr", 0, 31), "bi": ("b", 0, 7)}
    cases = [("variable", V(8), "a", {"a"}), ("port", None, "p", {"p"}), ("constant", None, "k", set()), ("parameter", None, "prm", set()),
             ("slice", None, "a_3_2", {"a_3_2"}), ("bit of a port", None, "p_0", {"p_0"}), ("variable index", None, "a_i", {"a_i", "i"}),
             ("bits of an element at a variable index", None, "in", {"in", "i"}), ("index given by a slice", None, "bi", {"bi", "a_3_2"}),
             ("sum", expr("Add", "a", "b", 8), "e", {"a", "b"}), ("sum with a slice", expr("Add", "a_3_2", "b", 8), "e", {"a_3_2", "b"}), ("sum with a constant", expr("Add", "k", "b", 8), "e", {"b"}),
             ("negation", expr("UInvert", "a", None, 8), "e", {"a"}), ("conditional", expr("Conditional", "a", "b", 8, condition="p_0"), "e", {"a", "b", "p_0"}),
             ("concatenation", expr("Concat", "a", None, 20, vars=["a", "p", "b"]), "e", {"a", "p", "b"}), ("extension", expr("Extend", "p", None, 8, parent_var="p"), "e", {"p"}),
             ("sum of a sum", expr("Add", "ab", "p_0", 8), "e", {"a", "b", "p_0"}), ("difference with a sum", expr("Minus", "p_0", "ab", 8), "e", {"a", "b", "p_0"}), ("negated sum", expr("UInvert", "ab", None, 8), "e", {"a", "b"}),
             ("concatenation with a sum", expr("Concat", "p", None, 12, vars=["p", "ab"]), "e", {"a", "b", "p"}), ("concatenation of a sum and a slice", expr("Concat", "ab", None, 10, vars=["ab", "a_3_2"]), "e", {"a", "b", "a_3_2"}),
             ("concatenation with an element at a variable index", expr("Concat", "p", None, 12, vars=["p", "a_i"]), "e", {"a_i", "i", "p"}), ("concatenation with a cast", expr("Concat", "p", None, 12, vars=["p", "ca"]), "e", {"a", "p"}),
             ("conditional over a sum", expr("Conditional", "ab", "p", 8, condition="ca"), "e", {"a", "b", "p"}), ("condition by comparison", expr("Conditional", "a", "p", 8, condition="bi"), "e", {"a", "p", "bi", "a_3_2"}),
             ("extension of a sum", expr("Extend", "ab", None, 16, parent_var="ab"), "e", {"a", "b"}), ("cast of a sum", V(8, type="BaseCasted", parent_var="ab"), "e", {"a", "b"}), ("cast of a cast", V(8, type="BaseCasted", parent_var="ca"), "e", {"a"}),
             ("cast", V(8, type="BaseCasted", parent_var="a"), "e", {"a"}), ("cast of a slice", V(2, type="BaseCasted", parent_var="a_3_2"), "e", {"a_3_2"})]

    def linked(deps):
        out = {}
        for d in deps:
            if d in slices:
                root, lo, hi = slices[d]
                for b in range(lo, hi + 1):
                    out.setdefault(root, {}).setdefault(b, set()).add(d)
        return out

    def collected(want, stmt):
        def check(o):
            if o.kind == "throw":
                return "is rejected"
            d, l = entries(final(o, "this.dependency_")), entries(final(o, "this.linked_dependency_"))
            if d != {k: {stmt} for k in want}:
                return "depends on %s instead of %s" % (sorted(d.items()), sorted(want))
            return None if l == linked(want) else "links %s instead of %s" % (l, linked(want))
        return check
    extra = lambda objs: dict(objs, this={"dependency": ("list", ()), "linked_dependency": ("list", ())})
    for name, obj, v, want in cases:
        objs = dict(pool)
        if v == "e":
            objs["e"] = obj
        objs["$0"] = {"stmts": ["s"], "get_stmt(0)": "s", "stmts_count": 1}
        objs["s"] = {"type": ST + "Assign", "left": "x", "right": v}
        objs["x"] = V(8)
        scenario(F, r, R, f, extra(objs), collected(want, "s"), "assignment from a %s" % name, {0: ("e", "$0")})
        objs = dict(objs, m={"type": ST + "ModuleInstantiation", "connection_stmt": ["s"]})
        objs["$0"] = {"stmts": ["m"], "get_stmt(0)": "m", "stmts_count": 1}
        scenario(F, r, R, f, extra(objs), collected(want, "s"), "connection to a %s" % name, {0: ("e", "$0")})
        if v in ("a", "p", "a_3_2", "e") and (v != "e" or obj["type"].endswith("BaseCasted")):
            objs["ev"] = {"var": v, "edge": "#EventEdgeType::Posedge"}
            objs["q"] = {"type": ST + "Block", "block_type": BT + "Sequential", "event_controls": ["ev"], "conditions": ["ev"], "stmts": ["s"]}
            objs["s"] = {"type": ST + "Assign", "left": "x", "right": "b"}
            objs["$0"] = {"stmts": ["q"], "get_stmt(0)": "q", "stmts_count": 1}
            scenario(F, r, R, f, extra(objs), collected(want, "q"), "clocked by a %s" % name, {0: ("e", "$0")})
    # what a combinational block reads
    by = {}
    for g in W:
        if g.q.count("::") > 2:
            by.setdefault(g.q.rsplit("::", 1)[0], {})[short(strip_type(g.params[0]["t"]).rstrip(" *"))] = g
    for name, obj, v, want in cases:
        for cls, hs in by.items():
            for kind, st in (("IfStmt", {"type": ST + "If", "predicate": v}), ("SwitchStmt", {"type": ST + "Switch", "target": v}), ("AssignStmt", {"type": ST + "Assign", "left": "x", "right": v})):
                g = hs.get(kind)
                if g is None:
                    continue
                objs = dict(pool, x=V(8))
                if v == "e":
                    objs["e"] = obj
                objs["$0"] = st
                objs["this"] = {m["n"]: ("list", ()) for m in F.classes[cls].get("fields", [])}

                def reads_(o, want=want):
                    got, l = set(), {}
                    for m in F.classes[cls].get("fields", []):
                        v = final(o, "this." + m["n"])
                        if v is None or v[0] not in ("list", "set"):
                            continue
                        if "unordered_set" in m["t"].split("<")[0]:
                            got |= {text(x) for x in v[1]}
                        else:
                            l = entries(v)
                    if got != want:
                        return "reads %s instead of %s" % (sorted(got), sorted(want))
                    return None if l == linked(want) else "links %s instead of %s" % (l, linked(want))
                scenario(F, r, R, g, objs, reads_, "%s on a %s" % (kind, name), {0: ("e", "$0")})
    for v, want in (("a_i", {"i"}), ("bi", {"a_3_2"}), ("in", {"i"}), ("a_3_2", set())):
        for cls, hs in by.items():
            if "AssignStmt" not in hs:
                continue
            objs = dict(pool)
            objs["$0"] = {"type": ST + "Assign", "left": v, "right": "b"}
            objs["this"] = {m["n"]: ("list", ()) for m in F.classes[cls].get("fields", [])}
            want = want | {"b"}

            def target(o, want=want, cls=cls):
                got = set()
                for m in F.classes[cls].get("fields", []):
                    x = final(o, "this." + m["n"])
                    if x is not None and x[0] in ("list", "set") and "unordered_set" in m["t"].split("<")[0]:
                        got |= {text(y) for y in x[1]}
                return None if got == want else "reads %s instead of %s" % (sorted(got), sorted(want))
            scenario(F, r, R, hs["AssignStmt"], objs, target, "assignment to %s" % v, {0: ("e", "$0")})
    # and that everything its parts read makes it run again
    for cls, hs in by.items():
        if "AssignStmt" not in hs:
            continue
        ex = {}
        for m in F.classes[cls].get("fields", []):
            o = "%s().%s" % (cls.replace(K, ""), m["n"])
            ex[o] = ("list", (("e", "a"), ("e", "p_0"))) if "unordered_set" in m["t"].split("<")[0] else ("list", (("tup", (("e", "p"), ("list", (("tup", (("i", 0), ("list", (("e", "p_0"),)))),)))),))
        objs = dict(pool)
        objs["$0"] = {"stmts": ["q"], "get_stmt(0)": "q", "stmts_count": 1}
        objs["q"] = {"type": ST + "Block", "block_type": BT + "Combinational", "stmts": []}
        scenario(F, r, R, f, extra(objs), collected({"a", "p_0"}, "q"), "combinational block", {0: ("e", "$0")}, extra=ex, opaque=("to_string", "handle_name", "trigger_event", "visit_root"))
    for kind in ("IfStmt", "SwitchStmt", "AssignStmt"):
        r.ob(R, "a combinational block's %s is looked at" % kind, any(kind in hs for hs in by.values()), f.loc(), "no visitor of sim.cc collects what a %s reads" % kind)


def static(F, r):
    R = "static"
    f = F.one(S + "static_evaluate_expr")
    for v, w, s, want in ((8, 32, False, 8), (1, 32, False, 1), (0, 32, False, "throw"), (-1, 32, True, "throw"), (-8, 8, True, "throw"), (128, 8, False, 128), (1 << 31, 32, False, 1 << 31), (127, 8, True, 127)):
        scenario(F, r, R, f, {"$0": V(w, type="Parameter", value=v, signed=s)}, is_(want), "parameter %d of %d bits, signed %s" % (v, w, s), {0: ("e", "$0")})
    for a, b, op, want in ((8, 2, "Multiply", 16), (8, 2, "Divide", 4), (8, 1, "Minus", 7), (8, 8, "Minus", "throw"), (3, 4, "Add", 7), (2, 5, "Power", 32), (1, 4, "ShiftLeft", 16), (9, 4, "Mod", 1)):
        objs = {"$0": expr(op, "l", "x", 32), "l": V(32, type="Parameter", value=a), "x": V(32, type="ConstValue", value=b)}
        scenario(F, r, R, f, objs, is_(want), "%d %s %d" % (a, op, b), {0: ("e", "$0")})
    scenario(F, r, R, f, {"$0": V(8)}, is_("throw"), "a plain variable", {0: ("e", "$0")}, extra={"Simulator(null).values_": ("list", ()), "Simulator(null).complex_values_": ("list", ())})
