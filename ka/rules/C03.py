"""Operand agreement: width, sign, packedness and enum type are checked before an assignment or expression exists."""
import itertools
from ..core import *
from ..valid import *
from ..cprop import *
from ..tables import *

SHIFT = ("ShiftLeft", "SignedShiftRight", "LogicalShiftRight")
UNARY = ("UInvert", "UMinus", "UPlus", "UOr", "UNot", "UAnd", "UXor")


def stores_const(e, member, v):
    return e.get("k") == "op" and e["o"] == "=" and e["a"][0].get("n") == member and e["a"][1].get("k") == "bool" and e["a"][1]["v"] == v


def run(F, r, tier):
    r.rule("operands-agree", "every path that finishes constructing the statement/expression has established the stated agreement of its operands", 60)
    r.rule("legal-accepted", "operands that agree are never rejected", 6)
    r.rule("result-type", "width and sign of the result are computed from the operands' widths and signs", 3)
    A = "operands-agree"
    asg = "kratos::AssignStmt::AssignStmt"
    for n in ("!null $0", "!null $1", "$0.is_signed() == $1.is_signed()", "$0.width() == $1.width()"):
        must(F, r, A, asg, [n])
    big = nparams("shared_ptr", "shared_ptr", "AssignmentType")
    for i in ("$0", "$1"):
        for w in ("1 < %s.size().front()" % i, "1 < %s.size().size()" % i, "true %s.explicit_array()" % i):
            must(F, r, A, asg, ["$0.is_packed() == $1.is_packed()"], when=[w], sel=big)
    accepts(F, r, "legal-accepted", asg, ["$0.is_signed() == $1.is_signed()", "$0.width() == $1.width()", "$0.is_packed() == $1.is_packed()"], sel=big)
    resized(F, r, A, select(F, asg, big)[0])
    # who may construct an assignment without those checks: nobody (the class has only these constructors)
    for f in F.need(asg):
        must(F, r, A, f, ["$0.width() == $1.width()"], key="every constructor|%s" % len(f.params))
    # binary expressions
    ex = "kratos::Expr::Expr"
    full = nparams("ExprOp", "Var *", "Var *")
    ops = [last(c["q"]) for c in F.enums["kratos::ExprOp"]["c"]]
    for o in ops:
        if o in UNARY or o in ("Extend", "Duplicate"):
            continue
        need = ["$1.width() == $2.width()"]
        if o in SHIFT:
            need.append("$2.width() < $1.width()")
        must(F, r, A, ex, need, when=["$0 == ExprOp::" + o, "!null $2"], sel=full)
    for w in ("1 < $1.size().size()", "1 < $1.size().front()"):
        must(F, r, A, ex, ["$1.is_packed() == $2.is_packed()"], when=["!null $2", w], sel=full)
    accepts(F, r, "legal-accepted", ex, ["$1.width() == $2.width()", "$1.is_packed() == $2.is_packed()"], sel=full)
    for a in (False, True):
        for b in (False, True):
            shape(F, r, "result-type", ex, {"this.is_signed_": ("is", {"true" if a and b else "false"})}, ["!null $2", "$1.width() == $2.width()"],
                  given={"$1.is_signed()": ("b", a), "$2.is_signed()": ("b", b)}, sel=full, key="signedness %d %d" % (a, b), opaque=("width", "set_parent"))
    # the protected two-operand form is reserved for concatenation
    users = set()
    two = [f for f in F.find(ex) if nparams("Var *", "Var *")(f)]
    if two:
        for f in F.all:
            for n in f.nodes():
                if n.get("k") == "ctor" and n.get("fid") == two[0].fid:
                    users.add(f.cls)
            for i in f.inits:
                e = i.get("e")
                if isinstance(e, dict) and e.get("k") == "ctor" and e.get("fid") == two[0].fid:
                    users.add(f.cls)
        r.ob(A, "unchecked expression constructor only for concatenation", users <= {"kratos::VarConcat"}, two[0].loc(),
             "the constructor that skips the width check is used by %s" % sorted(users))
    must(F, r, A, "kratos::ConditionalExpr::ConditionalExpr", ["$0.width() == 1"])
    must(F, r, A, "kratos::ConditionalExpr::ConditionalExpr", ["$1.width() == $2.width()"], nonnull=True)
    accepts(F, r, "legal-accepted", "kratos::ConditionalExpr::ConditionalExpr", ["$0.width() == 1"])
    must(F, r, A, "kratos::VarConcat::VarConcat", ["$0.is_signed() == $1.is_signed()"])
    accepts(F, r, "legal-accepted", "kratos::VarConcat::VarConcat", ["$0.is_signed() == $1.is_signed()"])
    stored(F, r, "result-type", "kratos::VarConcat::VarConcat", "var_width_", ["$0.width()", "$1.width()"], ["+"])
    mv = "kratos::Var::move_linked_to"
    for n in ("$0.width() == this.width()", "$0.is_signed() == this.is_signed()"):
        must(F, r, A, mv, [n], when=["!$0.get_var_root_parent() == this"])
    accepts(F, r, "legal-accepted", mv, ["$0.width() == this.width()", "$0.is_signed() == this.is_signed()"])
    # assignment targets
    va = "kratos::Var::assign_"
    must(F, r, A, va, ["!null $0"])
    must(F, r, A, va, ["!this.type_ == VarType::ConstValue"])
    must(F, r, A, va, ["true *legal"], when=["this.type_ == VarType::Expression"])
    f = F.need("kratos::AllConcat::visit")[0]
    must(F, r, A, "kratos::AllConcat::visit", ["$0.op == ExprOp::Concat"], key="only concatenations are assignable",
         nodes=[lambda view, n: n.ast is not None and stores_const(n.ast, "legal", False)])
    # enum typed targets
    for q in ("kratos::EnumVar::assign_", "kratos::EnumPort::assign_"):
        must(F, r, A, q, ["true $0.is_enum()"])
        must(F, r, A, q, ["*.name == this.enum_type_.name"])
        accepts(F, r, "legal-accepted", q, ["true $0.is_enum()", "*.name == this.enum_type_.name"])
    # every assign_ override ends in the checked base version
    base = F.need(va)[0]
    for g in [F.funcs[x] for x in F.overriders(base.fid) if x in F.funcs and x != base.fid]:
        must(F, r, A, g, [], key="%s delegates" % short(g.q), stops=[lambda view, c: c.get("k") == "call" and last(c.get("f") or "") in ("assign_", "assign")])
    # one-bit operands
    must(F, r, A, "kratos::EventControl::EventControl", ["$1.width() == 1"], sel=nparams("EventEdgeType", "Var"))
    must(F, r, A, "kratos::Port::set_active_high", ["this.width() == 1"])
    for f in F.need("kratos::Port::Port"):
        for t in ("Clock", "AsyncReset", "ClockEnable", "Reset"):
            must(F, r, A, f, ["!1 < $3"], when=["$5 == PortType::" + t], key="%d:%s|width 1" % (len(f.params[4]["t"]) > 20, t))
    for t in ("Clock", "AsyncReset"):
        for n in ("$0.size().size() == 1", "$0.size().front() == 1"):
            must(F, r, A, "kratos::VarCasted::VarCasted", [n], when=["$1 == VarCastType::" + t])
        # every shape, decided on concrete operands: only a single bit can be a clock or a reset
        for f in F.need("kratos::VarCasted::VarCasted"):
            for dims in ((1,), (2,), (1, 2), (2, 1), (1, 1)):
                for w in (1, 2, 4):
                    total = w
                    for d in dims:
                        total *= d
                    row(F, r, A, f, {"void"} if dims == (1,) and w == 1 else {"throw"}, args={1: ("e", "kratos::VarCastType::" + t)}, key="cast of %d bit(s) x %s to %s" % (w, dims, t),
                        given=gv(F, {"$0.size()": ("list", tuple(("i", d) for d in dims)), "$0.width()": ("i", total), "$0.var_width()": ("i", w)}), opaque=("is_valid_variable_name", "generator"))
    # implicit resizing of loop variables
    only(F, r, A, "kratos::IterVar::safe_to_resize", True, ["!$1 < $0.width()", "* == Const::ConstantLegal::Legal"], when=["$0.type_ == VarType::Expression", "empty *"])
    S = "kratos::safe_to_resize_"
    for t in ("Base", "PortIO"):
        only(F, r, A, S, True, ["!$2 < $1.width()"], when=["empty $4", "*.type_ == VarType::" + t])
    only(F, r, A, S, True, ["Const::ConstantLegal::Legal == Const::is_legal(*, $2, $3)"], when=["!empty $4"])
    corners(F, r, A)


def corners(F, r, A):
    """an expression over loop variables fits only if it fits at every combination of their extreme values"""
    f = F.need("kratos::IterVar::safe_to_resize")[0]
    r.saw(f)
    its = {"i": (0, 4), "j": (-2, 8), "k": (3, 5)}
    for n in (1, 2, 3):
        names = list(its)[:n]
        v = {"type": "#VarType::Expression", "left": names[0], "right": names[1] if n > 1 else "c"}
        w = {"v": v, "c": {"type": "#VarType::ConstValue"}}
        if n == 3:
            w["v"] = dict(v, left="u")
            w["u"] = {"type": "#VarType::Expression", "left": "i", "right": "k"}
        for x in names:
            w[x] = {"type": "#VarType::Iter", "min_value": its[x][0], "max_value": its[x][1] + 1}

        def check(o, names=names):
            if o.kind != "ret" or o.val != ("b", True):
                return None
            now, seen = {}, set()
            for e in o.st.eff:
                if e[0] != "call":
                    continue
                if last(e[1]) == "set_i" or e[1].endswith(".set_i"):
                    now[text(e[2][0])] = re.sub(r"^some\((.*)\)$", r"\1", text(e[2][1]))
                elif last(e[1]) == "is_legal" and "eval_expr" in text(e[2][0]):
                    seen.add(tuple(now.get(x) for x in names))
            for c in itertools.product(*[its[x] for x in names]):
                if tuple(str(x) for x in c) not in seen:
                    return "accepts without looking at " + " ".join("%s=%d" % x for x in zip(names, c))
        row(F, r, A, f, check, given=world(F, w), args={0: ("e", "v"), 1: ("i", 4), 2: ("b", False)}, key="%d loop variable(s)" % n, recur=6, depth=10,
            opaque=("set_i", "eval_expr", "convert_value", "is_legal", "Simulator"), clue="every combination of the extreme values is looked at")


def resized(F, r, A, f):
    """a right hand side of another width: a constant that fits and a loop variable whose whole range fits are resized, everything else is rejected"""
    base = {"size": [1], "is_packed": True, "explicit_array": False, "width_param": None}
    cls = {"Base": "Var", "ConstValue": "Const", "Iter": "IterVar", "PortIO": "Port"}

    def one(kind, lw, ls, lsize, rw, rs, want, key, **k):
        total = lw
        for d in lsize:
            total *= d
        w = {"this": {}, "l": dict(base, type="#VarType::Base", var_width=lw, size=list(lsize), is_signed=ls), "r": dict(base, type="#VarType::" + kind, var_width=rw, is_signed=rs, **k)}
        row(F, r, A, f, want, given=world(F, w), args={0: ("e", "l"), 1: ("e", "r"), 2: ("e", "kratos::AssignmentType::Blocking")}, key=key, hook=classes(F, {"l": "Var", "r": cls[kind]}),
            opaque=("to_string", "handle_name", "safe_to_resize"), recur=4, depth=8, loops=(0, 1, 2, 3), clue="the right hand side is resized exactly when nothing is lost")

    def taken(o, n):
        if o.kind == "throw":
            return "rejects it"
        v = [final(o, "this." + x) for x in ("left_", "right_")]
        if [text(x or ("t", "?")) for x in v] != ["l", "r"]:
            return "assigns %s to %s" % tuple(text(x or ("t", "?")) for x in v[::-1])
        x = final(o, "r.var_width_")
        if (None if x is None else text(x)) != (None if n is None else str(n)):
            return "leaves the right hand side with the width %s" % (text(x) if x else "it had")
    no = lambda o: None if o.kind == "throw" else "accepts it"
    for sg in (False, True):
        for lw in (1, 2, 4, 8):
            for rw in (4, 8):
                for v in (-9, -8, -3, -1, 0, 1, 3, 7, 8, 15, 16, 200):
                    lo, hi = (-(1 << (rw - 1)), (1 << (rw - 1)) - 1) if sg else (0, (1 << rw) - 1)
                    if not lo <= v <= hi:
                        continue
                    lo, hi = (-(1 << (lw - 1)), (1 << (lw - 1)) - 1) if sg else (0, (1 << lw) - 1)
                    want = (lambda o: taken(o, None)) if lw == rw else (lambda o, lw=lw: taken(o, lw)) if lo <= v <= hi else no
                    one("ConstValue", lw, sg, (1,), rw, sg, want, "%s constant %d of %d bits to %d bits" % ("signed" if sg else "unsigned", v, rw, lw), value=v, num_bits=0)
            one("ConstValue", lw, sg, (1,), lw, not sg, no, "constant of the other sign, %d bits, %s" % (lw, sg), value=1, num_bits=0)
    for lw, n, ok in ((4, 4, 1), (4, 5, 0), (4, 8, 0), (12, 8, 1), (12, 0, 1)):
        one("ConstValue", lw, False, (1,), 8, False, (lambda o, lw=lw: taken(o, lw)) if ok else no, "constant written with %d digits to %d bits" % (n, lw), value=1, num_bits=n)
    for k in ("Base", "PortIO"):
        for lw in (4, 8, 16):
            one(k, lw, False, (1,), 8, False, no if lw != 8 else (lambda o: taken(o, None)), "%s of 8 bits to %d bits" % (k, lw))
            one(k, lw, True, (1,), 8, False, no, "%s of the other sign to %d bits" % (k, lw))

    def loop(o, w):
        safe = [p for (a, p) in o.st.trail if a[0] == "truth" and re.sub(r"\b\w+::", "", a[1]) == "safe_to_resize(r, %d, false)" % w]
        if o.kind == "throw":
            return "rejects a loop variable that fits" if safe == [True] and not any("VarCasted" in atext(*x) for x in o.st.trail) else None
        if safe != [True]:
            return "accepts a loop variable without checking that its range fits the target"
        v = text(final(o, "this.right_") or ("t", "?"))
        if not re.match(r"new (\w+::)*VarCasted\(r, .*Resize\)$", v):
            return "assigns %s" % v
    for w in (1, 4, 31, 33):
        one("Iter", w, False, (1,), 32, False, lambda o, w=w: loop(o, w), "loop variable to %d bits" % w, min_value=0, max_value=10)
    one("Iter", 32, False, (1,), 32, False, lambda o: taken(o, None), "loop variable to 32 bits", min_value=0, max_value=10)
