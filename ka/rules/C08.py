"""Operators build the node they name; widths, signs, shapes and bit ranges follow from the operands."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select, nparams, variants

E = "kratos::ExprOp::"
T = "kratos::VarType::"
UN = ["UInvert", "UMinus", "UPlus", "UOr", "UNot", "UAnd", "UXor"]
BIN = ["Add", "Minus", "Divide", "Multiply", "Mod", "LogicalShiftRight", "SignedShiftRight", "ShiftLeft", "Or", "And", "Xor", "Power", "LAnd",
       "LOr", "LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan", "Eq", "Neq"]
REL = {"LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan", "Eq", "Neq", "LAnd", "LOr"}
RED = {"UOr", "UXor", "UAnd", "UNot"}
EXP = {"Concat", "Extend", "Duplicate"}
SHIFT = {"ShiftLeft", "SignedShiftRight", "LogicalShiftRight"}
METH = {("operator-", 1): "Minus", ("operator-", 0): "UMinus", ("operator~", 0): "UInvert", ("operator+", 0): "UPlus", ("r_or", 0): "UOr",
        ("r_and", 0): "UAnd", ("r_xor", 0): "UXor", ("r_not", 0): "UNot", ("operator+", 1): "Add", ("operator*", 1): "Multiply", ("operator%", 1): "Mod",
        ("operator/", 1): "Divide", ("operator>>", 1): "LogicalShiftRight", ("operator<<", 1): "ShiftLeft", ("operator|", 1): "Or",
        ("operator&", 1): "And", ("operator^", 1): "Xor", ("ashr", 1): "SignedShiftRight", ("operator<", 1): "LessThan", ("operator>", 1): "GreaterThan",
        ("operator<=", 1): "LessEqThan", ("operator>=", 1): "GreaterEqThan", ("eq", 1): "Eq", ("operator!=", 1): "Neq", ("operator&&", 1): "LAnd",
        ("operator||", 1): "LOr", ("pow", 1): "Power"}


def run(F, r, tier):
    r.rule("operator-node", "every operator of a variable builds the expression of that operator with the operands in order, and registers it with the module", 25)
    r.rule("operator-class", "comparisons and logical operators, reductions, unary and widening operators are classified as such, and nothing else is", 100)
    r.rule("result-shape", "the width, sign and array shape of every expression follows from its operands", 60)
    r.rule("home", "an expression belongs to the module that its operands belong to; constants never decide it", 8)
    r.rule("selection", "a selection covers exactly the bits and dimensions it names", 20)
    # ---------------------------------------------------------------- operators
    for (n, k), op in METH.items():
        fs = [f for f in F.find("kratos::Var::" + n) if len(f.params) == k]
        if len(fs) != 1:
            raise AnalysisError("anchor vanished: Var::%s with %d operand(s)" % (n, k))
        rhs = "$0" if k else "null"

        def want(o, op=op, rhs=rhs):
            if o.kind != "ret":
                return o.kind
            t = text(o.val)
            if t not in {"%s.expr(ExprOp::%s, this, %s)" % (g, op, x) for g in ("this.generator()", "this.generator_") for x in (rhs, "&" + rhs)}:
                return "builds %s" % t
        row(F, r, "operator-node", fs[0], want, key=op, opaque=("kratos::Generator::expr", "get_var"), clue="expr(%s, this%s)" % (op, ", operand" if k else ""))
    for f in F.need("kratos::Generator::expr"):
        def want(o):
            if o.kind != "ret":
                return None
            made = [e for e in o.st.eff if e[0] == "new" and e[1].split("<")[0] == "Expr"] + [e for e in o.st.eff if e[0] == "call" and "make_shared" in e[1]]
            ok = any([text(x) for x in e[2]] == ["$0", "$1", "$2"] for e in made) or "Expr($0, $1, $2)" in text(o.val)
            if not ok:
                return "builds %s" % text(o.val)
            if not any(e[0] == "call" and e[1].startswith("this.exprs_.") and any("Expr($0, $1, $2)" in text(x) for x in e[2]) for e in o.st.eff):
                return "does not keep the expression alive in the module"
        row(F, r, "operator-node", f, want, key="expression factory", clue="Expr(op, left, right), registered")
    # conditionals: condition, then the value when it holds, then the value when it does not
    made = lambda o: [e for e in o.st.eff if e[0] == "new" and e[1].split("<")[0] == "ConditionalExpr"]
    cc = F.need("kratos::ConditionalExpr::ConditionalExpr")[0]
    shape(F, r, "operator-node", cc, {"this.op": ("is", {"ExprOp::Conditional"}), "this.condition": ("is", {"$0"}), "this.left": ("is", {"$1"}), "this.right": ("is", {"$2"})},
          ["!null $1", "!null $2", "$0.width() == 1", "$1.width() == $2.width()"], key="conditional operands", opaque=("is_valid_variable_name", "width", "generator", "set_parent", "size", "is_signed"))
    for a in (True, False):
        for b in (True, False):
            shape(F, r, "result-shape", cc, {"this.is_signed_": ("is", {"true" if a and b else "false"}), "this.var_width_": ("is", {"$1.var_width()", "$1.var_width_"}), "this.size_": ("is", {"$1.size()", "$1.size_"})},
                  ["!null $1", "!null $2", "$0.width() == 1", "$1.width() == $2.width()"], given={"$1.is_signed()": ("b", a), "$2.is_signed()": ("b", b)}, key="conditional sign of %s and %s" % (a, b), opaque=("is_valid_variable_name", "width", "generator", "set_parent"))

    def cond_args(o):
        for e in o.st.eff:
            if e[0] in ("new", "call") and "ConditionalExpr" in e[1] and len(e[2]) == 3:
                return [text(x) for x in e[2]]
        m = o.val and text(o.val).partition("ConditionalExpr(")[2]
        return m[:-1].split(", ", 2) if m else []
    for f in F.need("kratos::ConditionalExpr::create") + F.need("kratos::util::mux"):
        lits = [i for i in (1, 2) if "long" in f.params[i]["t"] or "int" in f.params[i]["t"]]

        def want(o, lits=lits, f=f):
            if o.kind != "ret":
                return o.kind
            got = cond_args(o)
            if len(got) != 3 or got[0] != "$0":
                return "selects by %s" % (got[:1] or "nothing")
            for i in (1, 2):
                other = "$%d" % (3 - i)
                if i not in lits and got[i] != "$%d" % i:
                    return "takes %s as alternative %d" % (got[i], i)
                if i in lits and not (got[i].startswith(("Const::constant($%d, " % i, "constant($%d, " % i)) and other + ".width()" in got[i] and other + ".is_signed()" in got[i]):
                    return "takes %s as alternative %d instead of the value in the other alternative's width and sign" % (got[i], i)
            if last(f.q) == "mux":
                if not any(e[0] == "call" and ("add_expr" in e[1] or e[1].endswith(".exprs_.emplace") or e[1].endswith(".exprs_.insert")) for e in o.st.eff):
                    return "is not kept alive by a module"
        row(F, r, "operator-node", f, want, key="conditional", opaque=("width", "is_signed", "kratos::Const::constant", "kratos::constant", "kratos::ConditionalExpr::ConditionalExpr"), clue="condition ? first : second")
    # results owned by the variables they belong to
    for q, made_, tbl in (("kratos::Var::concat", "VarConcat", "concat_vars_"), ("kratos::Var::extend", "VarExtend", "extended_")):
        for f in F.need(q):
            def want(o, made_=made_, tbl=tbl):
                if o.kind != "ret":
                    return o.kind
                t = text(o.val)
                if "each(" in t or "this.%s" % tbl in t:
                    known = [(a, p) for a, p in o.st.trail]
                    if made_ == "VarConcat" and not ({("==", "2"), ("==", "$0")} <= {("==", x) for a, p in known if p and a[0] == "==" for x in a[1:]}):
                        return "reuses a concatenation without establishing that it is the same two operands"
                    if made_ == "VarExtend" and not any(p and a[0] == "in" and a[1] == "$0" for a, p in known):
                        return "reuses an extension to another width"
                    return None
                if "%s(this, $0)" % made_ not in t:
                    return "builds %s" % t
                if not any("%s(this, $0)" % made_ in (text(v) if v is not None else k) + k for k, v in puts(o, "this." + tbl)):
                    return "does not keep the result"
                if made_ == "VarExtend" and [k for k, v in puts(o, "this." + tbl) if v is not None] not in ([], ["$0"]):
                    return "keeps the result for another width"
            row(F, r, "operator-node", f, want, key="reuse", opaque=("kratos::VarConcat::VarConcat", "kratos::VarExtend::VarExtend"), clue="%s(this, operand), kept by the variable, reused only for equal operands" % made_)
    for f in F.need("kratos::VarConcat::concat"):
        def want(o):
            t = text(o.val) if o.val else o.kind
            if o.kind != "ret" or "VarConcat(this, $0)" not in t:
                return "builds %s" % t
            if not any(e[0] == "call" and ("add_concat_var" in e[1] or "concat_vars_." in e[1]) and any("VarConcat(this, $0)" in text(x) for x in e[2]) for e in o.st.eff):
                return "does not keep the result"
        row(F, r, "operator-node", f, want, key="longer concatenation", opaque=("kratos::VarConcat::VarConcat", "add_concat_var"), clue="VarConcat(this, operand), kept by an operand")
    for f in F.need("kratos::Var::duplicate"):
        def want(o):
            t = text(o.val) if o.val else o.kind
            if o.kind != "ret" or "VarDuplicated(this, $0)" not in t:
                return "builds %s" % t
            if not any(e[0] == "call" and ("add_expr" in e[1] or ".exprs_." in e[1]) and any("VarDuplicated(this, $0)" in text(x) for x in e[2]) for e in o.st.eff):
                return "does not keep the result"
        row(F, r, "operator-node", f, want, key="repetition", opaque=("kratos::VarDuplicated::VarDuplicated", "add_expr"), clue="VarDuplicated(this, count), kept by the module")
    # ---------------------------------------------------------------- classes
    every = UN + BIN + ["Conditional"] + sorted(EXP)
    for q, S in (("is_relational_op", REL), ("is_reduction_op", RED), ("is_expand_op", EXP), ("is_unary_op", set(UN)), ("is_ternary_op", {"Conditional"})):
        for o in every:
            row(F, r, "operator-class", "kratos::" + q, {"true" if o in S else "false"}, args={0: ("e", E + o)}, key=o)
    enum = {last(x) for x in every}
    declared = {last(c["q"]) for c in F.enums["kratos::ExprOp"]["c"]}
    for x in sorted(declared - enum):
        r.ob("operator-class", "unclassified|" + x, False, "", "operator %s has no entry in the specification table" % x)
    # ---------------------------------------------------------------- expressions
    L, R = "$1", "$2"
    ctor = select(F, "kratos::Expr::Expr", nparams("ExprOp", "Var *", "Var *"))[0]
    eqw = ["$1.width() == $2.width()"]
    for o in UN + BIN:
        one = o in REL or o in RED
        ex = {"this.op": ("is", {"ExprOp::" + o}), "this.left": ("is", {"$1"}), "this.right": ("is", {"$2", "null"} if o in UN else {"$2"}),
              "this.var_width_": "1" if one else ("is", {"$1.var_width()", "$1.var_width_"})}
        if one:
            ex["this.size_"] = ["1"]
        else:
            ex["this.size_"] = ("is", {"$1.size()", "$1.size_"})
        wh = ["null $2"] if o in UN else ["!null $2", "$1.width() == $2.width()"]
        if o in SHIFT:
            wh.append("!$2.width() < $1.width()")
        shape(F, r, "result-shape", ctor, ex, wh, args={0: ("e", E + o)}, key="shape of " + o, opaque=("is_valid_variable_name", "width", "generator", "set_parent", "Expr::set_parent"))
    for a in (True, False):
        for b in (True, False, None):
            g = {"$1.is_signed()": ("b", a)}
            if b is not None:
                g["$2.is_signed()"] = ("b", b)
            shape(F, r, "result-shape", ctor, {"this.is_signed_": ("is", {"true" if a and b is not False else "false"})}, ["null $2"] if b is None else ["!null $2", "$1.width() == $2.width()"],
                  given=g, args={0: ("e", E + ("UMinus" if b is None else "Add"))}, key="sign of %s and %s" % (a, b), opaque=("is_valid_variable_name", "width", "generator", "set_parent"))
    w = "kratos::Expr::width"
    for o in UN + BIN + ["Conditional"]:
        one = o in REL or o in RED
        wants = {"1"} if one else {"this.left.width()", "this.right.width()"} if o not in UN else {"this.left.width()"}
        wh = ["null this.right"] if o in UN else ["!null this.right", "this.left.width() == this.right.width()"]
        row(F, r, "result-shape", w, wants, wh, given={"this.op": ("e", E + o)}, key="width of " + o, opaque=("kratos::Var::width",))
    for f in F.need("kratos::VarConcat::VarConcat"):
        first = "VarConcat" in f.params[0]["t"]
        tail = ["$0", "$1"]
        ex = {"this.var_width_": "{$0.width()} + {$1.width()}", "this.op": ("is", {"ExprOp::Concat"}), "this.size_": ["1"]}
        given = {"$0.var_width_": ("t", "$0.width()")}
        if first:
            given["$0.vars_"] = ("list", (("t", "v0"), ("t", "v1")))
            ex["this.vars_"] = ["{v0}", "{v1}", "{$1}"]
        else:
            ex["this.vars_"] = ["{$0}", "{$1}"]
        shape(F, r, "result-shape", f, ex, given=given, key="concatenation", opaque=("is_valid_variable_name", "width", "set_parent", "generator", "size"))
    row(F, r, "result-shape", "kratos::VarConcat::width", {"this.var_width_"}, key="concatenation")
    row(F, r, "result-shape", "kratos::VarExtend::width", {"this.var_width_"}, key="extension")
    shape(F, r, "result-shape", "kratos::VarExtend::VarExtend", {"this.var_width_": "{$1}", "this.op": ("is", {"ExprOp::Extend"}), "this.left": ("is", {"$0"})}, key="extension", opaque=("is_valid_variable_name", "width", "generator", "set_parent", "size", "is_signed"))
    for b in (True, False):
        shape(F, r, "result-shape", "kratos::VarExtend::VarExtend", {"this.is_signed_": ("is", {str(b).lower()})}, given={"$0.is_signed()": ("b", b), "this.left.is_signed()": ("b", b)}, key="extension sign %s" % b, opaque=("is_valid_variable_name", "width", "generator", "set_parent", "size"))
    for f in F.need("kratos::VarDuplicated::VarDuplicated"):
        n = "{$1}" if "unsigned" in f.params[1]["t"] else "{$1.value()}"
        shape(F, r, "result-shape", f, {"this.var_width_": n + " * {$0.width()}", "this.op": ("is", {"ExprOp::Duplicate"}), "this.left": ("is", {"$0"}), "this.size_": ["1"]}, key="repetition",
              opaque=("is_valid_variable_name", "width", "generator", "set_parent", "size", "value"))
    shape(F, r, "result-shape", "kratos::VarDuplicated::width", {"return": "{this.right.value()} * {this.left.width()}"}, key="repetition", opaque=("width", "value"))
    # casts
    for f in F.need("kratos::VarCasted::VarCasted"):
        for c, sg in (("Signed", "true"), ("Unsigned", "false")):
            shape(F, r, "result-shape", f, {"this.is_signed_": ("is", {sg}), "this.cast_type_": ("is", {"VarCastType::" + c}), "this.parent_var_": ("is", {"$0"}), "this.type_": ("is", {"VarType::BaseCasted"})},
                  args={1: ("e", "kratos::VarCastType::" + c)}, key="cast " + c, opaque=("is_valid_variable_name", "generator"))
        # the total width is the operand's: element width times every dimension
        for dims in ((), ("s0",), ("s0", "s1")):
            d = ("list", tuple(("t", x) for x in dims) or (("i", 1),))

            def want(o, dims=dims):
                if o.kind == "throw":
                    return None
                v, sz = final(o, "this.var_width_"), final(o, "this.size_")
                flat = sz == ("list", (("i", 1),))
                same = sz is not None and text(sz) in (text(d), "$0.size()", "$0.size_")
                t = text(v) if v else ""
                if not dims:
                    ok = t in ("$0.width()", "$0.var_width_", "$0.var_width()") or t.startswith("($0.width() / 1")
                elif flat:
                    ok = t == "$0.width()"
                else:
                    q = "$0.width()"
                    for x in dims:
                        q = "(%s / %s)" % (q, x)
                    ok = same and t in (q, "$0.var_width()", "$0.var_width_")
                if not ok:
                    return "has element width %s and shape %s, which is not the operand's total width" % (t, text(sz) if sz else "?")
            row(F, r, "result-shape", f, want, given=gv(F, {"$0.size()": d}), args={1: ("e", "kratos::VarCastType::Unsigned")}, key="cast of %d-dimensional" % len(dims), opaque=("is_valid_variable_name", "width", "generator"), clue="the operand's total width")
    shape(F, r, "result-shape", "kratos::VarCasted::set_target_width", {"this.var_width_": "{$0}", "this.target_width_": "{$0}"}, given={"this.cast_type_": ("e", "kratos::VarCastType::Resize")}, key="resize", opaque=("size",))
    for b in (True, False):
        row(F, r, "result-shape", "kratos::Var::cast", lambda o, b=b: None if o.kind != "ret" or (text(o.val) == "this") == b else "casting a%s variable yields %s" % (" signed" if b else "n unsigned", text(o.val)),
            given={"this.is_signed_": ("b", b)}, args={0: ("e", "kratos::VarCastType::Signed")}, key="signed cast of %s" % b, loops=(0,), opaque=("kratos::VarCasted::VarCasted",), clue="the variable itself only if it is signed already")
    # casts that take further information are never shared
    for t in ("Resize", "Enum"):
        for f in F.need("kratos::Var::cast"):
            row(F, r, "result-shape", f, lambda o: None if o.kind == "throw" or "VarCasted(this, " in text(o.val) else "shares %s between requests" % text(o.val), given=gv(F, {"this.casted_": ("list", (("e", "c0"), ("e", "c1"))), "c0.cast_type_": ("e", "kratos::VarCastType::" + t), "c1.cast_type_": ("e", "kratos::VarCastType::Unsigned"), "c0.cast_type()": ("e", "kratos::VarCastType::" + t), "c1.cast_type()": ("e", "kratos::VarCastType::Unsigned")}),
                args={0: ("e", "kratos::VarCastType::" + t)}, key="%s cast" % t, opaque=("kratos::VarCasted::VarCasted",), clue="a cast of its own")
    # total width of a variable
    vw = [f for f in F.need("kratos::Var::width") if not f.params][0]
    dims = ("list", (("t", "s0"), ("t", "s1"), ("t", "s2")))
    shape(F, r, "result-shape", vw, {"return": "{this.var_width_} * {s0} * {s1} * {s2}"}, ["null this.width_param_"], given={"this.size_": dims}, key="array", opaque=("static_evaluate_expr",))
    shape(F, r, "result-shape", vw, {"return": "{this.var_width_} * {s0} * {s1} * {s2}"}, ["!null this.width_param_"], given={"this.size_": dims, "this.type_": ("e", T + "Slice")}, key="slice of parametrized array", opaque=("static_evaluate_expr",))
    shape(F, r, "result-shape", vw, {"return": "{Simulator::static_evaluate_expr(this.width_param_)} * {s0} * {s1} * {s2}"}, ["!null this.width_param_"], given={"this.size_": dims, "this.type_": ("e", T + "Base")}, key="parametrized array", opaque=("static_evaluate_expr",))
    # structs
    mem = ("list", (("t", "m0"), ("t", "m1"), ("t", "m2")))
    shape(F, r, "result-shape", "kratos::PackedStruct::bitwidth", {"return": "{m0.bitwidth()} + {m1.bitwidth()} + {m2.bitwidth()}"}, given={"this.attributes": mem}, key="struct", opaque=("kratos::PackedStructFieldDef::bitwidth",))
    row(F, r, "result-shape", "kratos::PackedStructFieldDef::bitwidth", {"this.struct_.bitwidth()"}, ["!null this.struct_"], key="nested struct", opaque=("kratos::PackedStruct::bitwidth",))
    row(F, r, "result-shape", "kratos::PackedStructFieldDef::bitwidth", {"this.width"}, ["null this.struct_"], key="member")
    for f in F.need("kratos::VarPackedStruct::VarPackedStruct") + F.need("kratos::PortPackedStruct::PortPackedStruct"):
        shape(F, r, "result-shape", f, {"this.var_width_": ("is", {x + ".bitwidth()" for x in ("this.struct_", "$2", "$3", "$0.struct_")})}, key="struct variable#%d" % len(f.params), opaque=("is_valid_variable_name", "bitwidth"))
    # ---------------------------------------------------------------- constant slices
    sl = select(F, "kratos::VarSlice::VarSlice", nparams("Var *", "unsigned int", "unsigned int"))[0]
    op = ("is_valid_variable_name", "num_size_decrease", "generator")
    one = ("list", (("i", 1),))
    d3 = dims
    d1 = ("list", (("t", "s0"),))
    pw = "{$0.var_width_}"
    root1 = ["!1 < $0.get_var_root_parent().size().size()"]
    packed = ("is", {"$0.is_packed()", "$0.is_packed_"})
    for base, off in (("Base", ""), ("PortIO", ""), ("Slice", "{$0.var_low_} + ")):
        g = lambda d: {"$0.size()": d, "$0.type()": ("e", T + base)}
        idx = "{$1}"
        plain = ["!true $0.explicit_array()"] + root1
        B = pw + " * {s1} * {s2}"
        shape(F, r, "selection", sl, {"this.var_width_": pw, "this.size_": ["{s1}", "{s2}"], "this.var_low_": off + "{$2} * " + B, "this.var_high_": off + "({$1} + 1) * " + B + " - 1", "this.is_packed_": packed, "this.high": "{$1}", "this.low": "{$2}"},
              ["$1 == $2"] + plain, given=g(d3), key="element of an array (%s)" % base, opaque=op)
        shape(F, r, "selection", sl, {"this.var_width_": pw, "this.size_": ["{$1} - {$2} + 1", "{s1}", "{s2}"], "this.var_low_": off + "{$2} * " + B, "this.var_high_": off + "({$1} + 1) * " + B + " - 1", "this.is_packed_": packed},
              ["!$1 == $2"] + plain, given=g(d3), key="range of an array (%s)" % base, opaque=op)
        shape(F, r, "selection", sl, {"this.var_width_": pw, "this.size_": ["1"], "this.var_low_": off + "{$2} * " + pw, "this.var_high_": off + "({$1} + 1) * " + pw + " - 1", "this.is_packed_": ("is", {"true"})},
              ["$1 == $2", "!s0 == 1"] + plain, given=g(d1), key="element of a one-dimensional array (%s)" % base, opaque=op)
        shape(F, r, "selection", sl, {"this.var_width_": "{$1} - {$2} + 1", "this.size_": ["1"], "this.var_low_": off + "{$2}", "this.var_high_": off + "{$1}", "this.is_packed_": packed},
              plain, given=g(one), key="bits (%s)" % base, opaque=op)
    shape(F, r, "selection", sl, {"this.var_width_": pw, "this.size_": ["1"], "this.var_low_": "0", "this.var_high_": pw + " - 1"}, ["true $0.explicit_array()", "$1 == 0", "$2 == 0"],
          given={"$0.size()": one, "$0.type()": ("e", T + "Base")}, key="element of an explicit one-element array", opaque=op)
    chains(F, r, sl)
    # the request itself reaches the slice unchanged
    for f in select(F, "kratos::Var::operator[]", nparams("pair")):
        def want(o):
            if o.kind != "ret":
                return None
            t = text(o.val)
            if t.startswith("each(this.slices_)"):
                known = {(a[1], a[2]) for a, p in o.st.trail if p and a[0] == "=="} | {(a[2], a[1]) for a, p in o.st.trail if p and a[0] == "=="}
                for h, l in (("each(this.slices_).high", "each(this.slices_).low"),):
                    if (h, "$0#0") not in known or (l, "$0#1") not in known:
                        return "reuses a slice without comparing both bounds"
                if not any(a[0] == "truth" and "sliced_by_var" in a[1] and not p for a, p in o.st.trail):
                    return "reuses a slice that may be selected by a variable"
                return None
            made = [e for e in o.st.eff if e[0] in ("new", "call") and "VarSlice" in e[1] and "VarVarSlice" not in e[1] and len(e[2]) == 3]
            txt = [text(x) for e in made for x in e[2]]
            if made and txt[:3] != ["this", "$0#0", "$0#1"] or not made and "VarSlice(this, $0#0, $0#1)" not in t:
                return "builds %s" % (txt or t)
        row(F, r, "selection", f, want, ["!true this.get_var_root_parent().is_struct()"], key="slice request", opaque=("kratos::VarSlice::VarSlice", "width", "set_width_param"), clue="VarSlice(this, high, low), reused only for equal bounds")
    # a selection that reaches a struct exposes the struct's members; any other selection of a struct variable is plain
    for f in select(F, "kratos::Var::operator[]", nparams("pair")):
        for whole in (True, False):
            n = "new VarSlice(this, $0#0, $0#1)"

            def want(o, whole=whole, n=n):
                if o.kind != "ret":
                    return None
                t = text(o.val)
                if t.startswith("each(this.slices_)"):
                    return None
                proxy = "PackedSlice(" in t and "VarVarSlice" not in t
                if proxy != whole:
                    return "yields %s" % t[:200]
                kept = [k for k, v in puts(o, "this.slices_")]
                if not any(t in k or k in t for k in kept):
                    return "does not keep the result among the slices"
            row(F, r, "selection", f, want, ["true this.get_var_root_parent().is_struct()", "null this.width_param_"], given={n + ".width()": ("i", 8), n + ".var_width()": ("i", 8 if whole else 4), n + ".var_width_": ("i", 8 if whole else 4)},
                key="selection %s in an array of structs" % ("of one struct" if whole else "of several structs"), opaque=("kratos::VarSlice::VarSlice", "kratos::PackedSlice::PackedSlice", "width", "packed_struct"), clue="a struct member proxy exactly when one struct is selected")
    # an element chosen by a variable is shared only among requests with that very variable
    for f in select(F, "kratos::Var::operator[]", nparams("shared_ptr")):
        def want(o):
            if o.kind != "ret":
                return None
            t = text(o.val)
            if t.startswith("each(this.slices_)"):
                known = {frozenset(x.split(".get()")[0].lstrip("&*") for x in a[1:3]) for a, p in o.st.trail if p and a[0] == "=="}
                if not any("$0" in k and any("sliced_var" in x for x in k) for k in known):
                    return "reuses a selection made with another index variable"
                return None
            if not t.replace("*", "").startswith("new VarVarSlice(this, $0"):
                return "builds %s" % t[:200]
            if not any(t in k or k in t for k, v in puts(o, "this.slices_")):
                return "does not keep the selection among the slices"
        row(F, r, "selection", f, want, key="selection by a variable", opaque=("kratos::VarVarSlice::VarVarSlice", "width", "set_width_param"), clue="VarVarSlice(this, index), reused only for the same index")
    # ---------------------------------------------------------------- which module an expression belongs to
    F.need("kratos::Const::const_gen")
    sp = next(iter(select(F, "kratos::Expr::set_parent")))
    for key, lg, rg, lt, rt, lp, rp, res in (
            ("both in one module", "m", "m", "Base", "Base", None, None, "m"),
            ("no right operand", "m", 0, "Base", "Base", None, None, "m"),
            ("constant on the right", "m", "C", "Base", "ConstValue", None, None, "m"),
            ("constant on the left", "C", "m", "ConstValue", "Base", None, None, "m"),
            ("port of a child of a child on the left of a constant", "m", "C", "PortIO", "ConstValue", "p", None, "m"),
            ("port of a child on the right", "m", "c", "Base", "PortIO", None, "m", "m"),
            ("port of a child on the left", "c", "m", "PortIO", "Base", "m", None, "m"),
            ("ports of a module and its child", "m", "c", "PortIO", "PortIO", None, "m", "m"),
            ("ports of siblings", "c", "d", "PortIO", "PortIO", "m", "m", "m")):
        g = world(F, {"this": {"left": "L", "right": "R" if rg else None}, "L": {"generator()": lg, "type": "#VarType::" + lt}, "R": {"generator()": rg if rg else None, "type": "#VarType::" + rt},
                      "m": {"parent()": lp if lg == "m" else rp}, "c": {"parent()": "m"}, "d": {"parent()": "m"}, "C": {"parent()": None}})

        def want(o, res=res):
            if o.kind not in ("end", "ret"):
                return o.kind
            v = final(o, "this.generator_")
            if v is None or text(v).lstrip("&*") != res:
                return "belongs to %s" % (text(v) if v else "nothing")
        row(F, r, "home", sp, want, given=gv(F, g), key=key, stubs={"const_gen": lambda vs: ("e", "C")}, clue="the module that sees both operands")
    # ---------------------------------------------------------------- variable index
    vv = "kratos::VarVarSlice::VarVarSlice"
    op = ("is_valid_variable_name", "generator", "clog2", "width", "kratos::VarSlice::VarSlice", "has_iter_var", "safe_to_resize", "fix_width", "get_size_param", "static_evaluate_expr")
    shape(F, r, "selection", vv, {"this.var_width_": "1", "this.size_": ["1"], "this.var_low_": ("is", {"$0.var_low()"}), "this.var_high_": ("is", {"$0.var_high()"}), "this.sliced_var_": "{$1}"}, ["!true $0.explicit_array()"], given={"$0.size()": one}, key="bit", opaque=op)
    shape(F, r, "selection", vv, {"this.var_width_": ("is", {"$0.var_width_"}), "this.size_": ["{s1}", "{s2}"], "this.is_packed_": packed, "this.var_low_": ("is", {"$0.var_low()"}), "this.var_high_": ("is", {"$0.var_high()"}), "this.sliced_var_": "{$1}"}, given={"$0.size()": d3}, key="array", opaque=op)
    for n in (2, 4):
        ss = ["s%d" % i for i in range(n)]
        shape(F, r, "selection", vv, {"this.var_width_": ("is", {"$0.var_width_"}), "this.size_": ["{%s}" % x for x in ss[1:]]}, given={"$0.size()": ("list", tuple(("t", x) for x in ss))}, key="array of %d dimensions" % n, opaque=op)
    shape(F, r, "selection", vv, {"this.var_width_": ("is", {"$0.var_width_"}), "this.size_": ["1"]}, ["!s0 == 1"], given={"$0.size()": d1}, key="one-dimensional array", opaque=op)
    # ---------------------------------------------------------------- members
    A = ("list", (("t", "m0"), ("t", "m1"), ("t", "m2")))
    for i in range(3):
        wh = ["%s$1 == m%d.name" % ("" if j == i else "!", j) for j in range(i + 1)]
        off = " + ".join(["{m%d.bitwidth()}" % j for j in range(i)] or ["0"])
        par = "{this.parent_var.var_low()}"
        shape(F, r, "selection", "kratos::PackedSlice::set_up",
              {"this.low": off, "this.high": off + " + {m%d.bitwidth()} - 1" % i, "this.var_low_": off + " + " + par, "this.var_high_": off + " + {m%d.bitwidth()} - 1 + " % i + par,
               "this.var_width_": "{m%d.bitwidth()}" % i, "this.is_signed_": ("is", {"m%d.signed_" % i}), "this.def_": ("is", {"m%d" % i, "&m%d" % i})},
              wh, given={"$0.attributes": A}, key="member %d of a struct" % i, opaque=("bitwidth", "var_low"))
    # ---------------------------------------------------------------- bits of a selection path
    f = F.one("kratos::compute_var_high_low")
    pair = lambda i: ("tup", (("t", "h%d" % i), ("t", "l%d" % i)))
    W = "{$0.var_width_}"
    arr = {"$0.size()": d3}
    B = [W + " * {s1} * {s2}", W + " * {s2}", W]
    cases = [("no selection", [], arr, "0", None, []),
             ("element", ["="], arr, "{l0} * %s" % B[0], "({h0} + 1) * %s - 1", []),
             ("range", ["!"], arr, "{l0} * %s" % B[0], None, []),
             ("element of element", ["=", "="], arr, "{l0} * %s + {l1} * %s" % (B[0], B[1]), None, []),
             ("range, then element", ["!", "="], arr, "{l0} * %s + {l1} * %s" % (B[0], B[0]), None, []),
             ("element, then range", ["=", "!"], arr, "{l0} * %s + {l1} * %s" % (B[0], B[1]), None, []),
             ("bits of a scalar element", ["=", "=", "=", "!"], arr, "{l0} * %s + {l1} * %s + {l2} * %s + {l3}" % (B[0], B[1], B[2]), None, [])]
    size = {"=": None}
    for name, idx, g, low, _, wh in cases:
        if not idx:
            continue
        wh = ["!true $0.explicit_array()"]
        for i, k in enumerate(idx):
            wh.append(("" if k == "=" else "!") + "h%d == l%d" % (i, i))
            if k == "=":
                wh += ["!h%d < l%d" % (i, i), "!l%d < h%d" % (i, i)]
            else:
                wh += ["l%d < h%d" % (i, i)]
        # highest bit: the lowest bit plus the extent of the last selection
        dim = sum(1 for k in idx[:-1] if k == "=")
        unit = B[dim] if dim < 3 else "1"
        last_ = len(idx) - 1
        high = "%s + ({h%d} - {l%d} + 1) * %s - 1" % (low, last_, last_, unit)

        def want(o, low=low, high=high):
            from .. import poly
            if o.kind != "ret":
                return o.kind
            v = o.val
            if v[0] not in ("tup", "list") or len(v[1]) != 2:
                return "answers %s" % text(v)
            if not poly.same(v[1][1], low):
                return "lowest bit %s" % text(v[1][1])
            if not poly.same(v[1][0], high):
                return "highest bit %s" % text(v[1][0])
        row(F, r, "selection", f, want, wh, given=gv(F, {"$0.size()": d3, "$1": ("list", tuple(pair(i) for i in range(len(idx))))}), args={1: ("list", tuple(pair(i) for i in range(len(idx))))}, key="bits covered by " + name, clue="[%s:%s]" % (high, low))
    for ex, sizes, sel, ans in ((True, [1], [(0, 0)], (7, 0)), (True, [1], [(0, 0), (3, 1)], (3, 1)), (False, [1], [(3, 1)], (3, 1)), (False, [1], [(5, 5)], (5, 5)), (True, [3], [(2, 2)], (23, 16)), (False, [3], [(2, 1)], (23, 8)),
                                (False, [3], [(1, 1), (2, 0)], (10, 8)), (False, [2, 3], [(1, 1), (2, 2), (6, 2)], (46, 42)), (False, [1, 1], [(0, 0)], (7, 0)), (False, [1, 4], [(0, 0), (3, 3)], (31, 24)),
                                (False, [4], [(2, 1), (1, 0)], (23, 8))):
        row(F, r, "selection", f, lambda o, ans=ans: None if o.kind == "ret" and o.val[0] in ("tup", "list") and tuple(x[1] for x in o.val[1]) == ans else "answers %s" % (text(o.val) if o.val else o.kind),
            given=gv(F, {"$0.size()": ("list", tuple(("i", x) for x in sizes)), "$0.var_width_": ("i", 8), "$0.explicit_array_": ("b", ex)}),
            args={1: ("list", tuple(("tup", (("i", a), ("i", b))) for a, b in sel))}, key="bits of %s in 8 bits by %s%s" % (sel, sizes, " declared as an array" if ex else ""), clue="[%d:%d]" % ans)
    def scalar(o):
        from .. import poly
        v = o.val
        if o.kind != "ret" or v[0] not in ("tup", "list") or not poly.same(v[1][1], "{l0}") or not poly.same(v[1][0], "{h0}"):
            return "answers %s" % (text(v) if v else o.kind)
    row(F, r, "selection", f, scalar, ["!true $0.explicit_array()", "l0 < h0", "!h0 == l0"], given=gv(F, {"$0.size()": one}), args={1: ("list", (pair(0),))}, key="bits of a scalar", clue="[h0:l0]")


def chains(F, r, sl):
    """selections of selections on concrete shapes: the width, dimensions and bits of every path"""
    def steps(dims, w):
        if dims:
            n = dims[0]
            return [(i, i) for i in ({0, n - 1} if n > 1 else {0})] + ([(n - 1, 0), (n - 1, 1)] if n > 2 else [(1, 0)] if n == 2 else [])
        return [(0, 0), (w - 1, w - 1), (w - 1, 1), (w - 2, 0)] if w > 2 else [(0, 0), (1, 1)] if w == 2 else [(0, 0)]

    def sel(o, hi, lo):
        dims, w, low = o
        if not dims:
            return ((), hi - lo + 1, low + lo)
        unit = w
        for x in dims[1:]:
            unit *= x
        return (dims[1:] if hi == lo else (hi - lo + 1,) + dims[1:], w, low + lo * unit)

    def total(o):
        n = o[1]
        for x in o[0]:
            n *= x
        return n

    def obj(o, path, parent):
        d = {"var_width": o[1], "size": list(o[0]) or [1], "width()": total(o), "explicit_array": False, "is_packed": True, "packed": True, "var_low": o[2], "var_high": o[2] + total(o) - 1, "type": "#VarType::Slice" if path else "#VarType::Base",
             "generator()": "g", "generator": "g", "sliced_by_var()": False, "is_struct()": False, "param()": False, "name": '"a', "get_var_root_parent()": "v0", "to_string()": '"a'}
        if path:
            d.update({"high": path[-1][0], "low": path[-1][1], "parent_var": parent})
        return d
    todo, seen = [], set()
    for dims, w in (((), 8), ((3,), 4), ((4, 1), 8), ((3, 2), 4), ((2, 3, 4), 2)):
        todo.append((((dims, w, 0),), ()))
    while todo:
        objs, path = todo.pop()
        o = objs[-1]
        for hi, lo in steps(o[0], o[1]):
            n = sel(o, hi, lo)
            depth = len(path) + 1
            g = world(F, dict({"v%d" % i: obj(x, path[:i], "v%d" % (i - 1) if i else None) for i, x in enumerate(objs)}, g={"name": '"g'}))
            root = objs[0]
            name = "%d bits %s%s" % (root[1], list(root[0]), "".join("[%d:%d]" % x for x in path + ((hi, lo),)))

            def want(o_, n=n):
                if o_.kind == "throw":
                    return "rejects it"
                got = {}
                for k in ("var_width_", "var_low_", "var_high_", "size_"):
                    v = final(o_, "this." + k)
                    got[k] = None if v is None else v[1] if v[0] == "i" else [x[1] for x in v[1]] if v[0] == "list" else text(v)
                exp = {"var_width_": n[1], "var_low_": n[2], "var_high_": n[2] + total(n) - 1, "size_": list(n[0]) or [1]}
                bad = {k: got[k] for k in exp if got[k] != exp[k]}
                return None if not bad else "makes %s instead of %s" % (bad, {k: exp[k] for k in bad})
            row(F, r, "selection", sl, want, args={0: ("e", "v%d" % (len(objs) - 1)), 1: ("i", hi), 2: ("i", lo)}, given=g, key=name, opaque=("is_valid_variable_name", "generator", "width"), depth=8, recur=6, clue="the bits the path names")
            if depth < (5 if len(root[0]) < 3 else 4):
                todo.append((objs + (n,), path + ((hi, lo),)))
