"""Printed expressions read back as the expression that was built."""
import re
from ..core import *
from ..cprop import *
from ..tables import row, okey, world
from ..valid import Fact, select, nparams

UN = {"UInvert": "~", "UMinus": "-", "UPlus": "+", "UOr": "|", "UNot": "!", "UAnd": "&", "UXor": "^"}
BIN = {"Add": "+", "Minus": "-", "Divide": "/", "Multiply": "*", "Mod": "%", "LogicalShiftRight": ">>", "SignedShiftRight": ">>>",
       "ShiftLeft": "<<", "Or": "|", "And": "&", "Xor": "^", "Power": "**", "LAnd": "&&", "LOr": "||", "LessThan": "<",
       "GreaterThan": ">", "LessEqThan": "<=", "GreaterEqThan": ">=", "Eq": "==", "Neq": "!="}
PREC = [["**"], ["*", "/", "%"], ["+", "-"], ["<<", ">>", "<<<", ">>>"], ["<", "<=", ">", ">="], ["==", "!=", "===", "!=="],
        ["&"], ["^", "~^", "^~"], ["|"], ["&&"], ["||"]]
LEVEL = {o: len(PREC) - i for i, l in enumerate(PREC) for o in l}
ASSOC = {"+", "*", "&", "|", "^", "&&", "||"}
TOK = sorted(["~", "-", "+", "|", "!", "&", "^", "~&", "~|", "~^", "^~", "**", "*", "/", "%", "<<", ">>", "<<<", ">>>", "<", "<=", ">", ">=", "==",
              "!=", "===", "!==", "&&", "||", "++", "--", "->", "(", ")", "?", ":"], key=lambda x: -len(x))


class Bad(Exception):
    pass


def tokens(v):
    """SystemVerilog tokens of a text template; holes become operand tokens"""
    parts = v[1] if v[0] == "cat" else (v,)
    out = []
    glue = None
    for p in parts:
        if p[0] != "s":
            if glue == "operand":
                raise Bad("two operands run together")
            out.append(("x", text(p)))
            glue = "operand"
            continue
        s = p[1]
        i = 0
        while i < len(s):
            if s[i].isspace():
                i += 1
                glue = None
                continue
            for t in TOK:
                if s.startswith(t, i):
                    out.append((t, None))
                    i += len(t)
                    glue = "op"
                    break
            else:
                raise Bad("unexpected text %r" % s[i:])
    return out


def parse(v):
    """tree of a template by SystemVerilog precedence and associativity"""
    T = tokens(v)
    pos = [0]

    def peek():
        return T[pos[0]][0] if pos[0] < len(T) else None

    def primary():
        t = peek()
        if t == "(":
            pos[0] += 1
            e = ternary()
            if peek() != ")":
                raise Bad("unbalanced parentheses")
            pos[0] += 1
            return ("par", e)
        if t == "x":
            e = ("x", T[pos[0]][1])
            pos[0] += 1
            return e
        raise Bad("operand expected")

    def unary():
        t = peek()
        if t in UN.values():
            pos[0] += 1
            return ("u", t, unary())
        if t in ("++", "--"):
            raise Bad("reads as the %s operator" % t)
        return primary()

    def binary(level):
        l = unary() if level > len(PREC) else binary(level + 1)
        while peek() in LEVEL and LEVEL[peek()] == level:
            o = peek()
            pos[0] += 1
            rr = unary() if level + 1 > len(PREC) else binary(level + 1)
            l = ("b", o, l, rr)
        return l

    def ternary():
        c = binary(1)
        if peek() == "?":
            pos[0] += 1
            a = ternary()
            if peek() != ":":
                raise Bad("conditional without alternative")
            pos[0] += 1
            return ("c", c, a, ternary())
        return c

    e = ternary()
    if pos[0] != len(T):
        raise Bad("trailing text")
    return e


def norm(e, top=True):
    """parentheses dropped; chains of one associative operator flattened"""
    if e[0] == "par":
        return norm(e[1])
    if e[0] == "u":
        return ("u", e[1], norm(e[2]))
    if e[0] == "b":
        l, r = norm(e[2]), norm(e[3])
        if e[1] in ASSOC:
            items = []
            for x in (l, r):
                items += list(x[2]) if x[0] == "chain" and x[1] == e[1] else [x]
            return ("chain", e[1], tuple(items))
        return ("b", e[1], l, r)
    if e[0] == "c":
        return ("c", norm(e[1]), norm(e[2]), norm(e[3]))
    return e


def bare(e, names, inside=False):
    """operand `names` that appear neither on their own nor in parentheses"""
    if e[0] == "par":
        return e[1][0] != "x" and bare(e[1], names)
    if e[0] == "x":
        return e[1] in names
    return any(bare(x, names) for x in e[1:] if isinstance(x, tuple))


def modes(F):
    for f in F.need("kratos::Expr::to_string"):
        yield f, None, lambda loc: {loc + ".to_string()"}
    for f in F.need("kratos::Expr::handle_name"):
        if not f.params:
            continue
        if "bool" in f.params[0]["t"]:
            yield f, None, lambda loc: {loc + ".handle_name($0)"}
        else:
            yield f, "!null $0", lambda loc: {loc + ".handle_name($0)"}
            yield f, "null $0", lambda loc: {loc + ".to_string()"}


def run(F, r, tier):
    r.rule("operators", "every operator, with every operator in every operand position, prints as text that reads back (by the SystemVerilog grammar's precedence and associativity) as the same tree", 1500)
    r.rule("forms", "selections, casts, concatenations, repetitions, extensions, conditionals, constants and calls print in the form SystemVerilog gives them, operands in order", 30)
    E = "kratos::ExprOp::"
    T = "kratos::VarType::"

    def judge(f, mode, leafs, key, given, want, when, conditional=(), negative=()):
        loc = f.loc()
        k = "%s%s|%s" % (okey(F, f), " " + mode if mode else "", key)
        try:
            outs, P = returns(F, f, given=given, assume=[Fact(F, w) for w in list(when) + ([mode] if mode else [])], recur=2)
        except Budget:
            r.ob("operators", k, False, loc, "%s became too intricate to follow" % f.sig())
            return
        for g in P.seen:
            if g in F.funcs:
                r.saw(F.funcs[g])
        bad = None if outs else "prints nothing"
        for o in outs:
            if o.kind != "ret" or o.val is None:
                bad = "does not print it (%s)" % o.kind
                break
            t = text(o.val)
            try:
                e = parse(o.val)
                n = norm(e)
                if n != norm(want):
                    bad = "prints %s, which does not read back as intended" % t
                elif bare(e, {x for l in conditional for x in leafs(l)}):
                    bad = "prints %s, which leaves a conditional operand without parentheses" % t
                else:
                    for l in negative:
                        for x in leafs(l):
                            starts = not any(x in a[1] + a[2] and p == (a[0] == "empty") for a, p in o.st.trail)
                            m = unary_on(e, x)
                            if m == "-" and starts:
                                bad = "prints %s, and a negative constant there makes the text --" % t
            except Bad as ex:
                bad = "prints %s: %s" % (t, ex)
            if bad:
                break
        r.ob("operators", k, bad is None, loc, "%s for %s %s" % (f.sig(), key, bad))

    def unary_on(e, x):
        if e[0] == "u" and e[2] == ("x", x):
            return e[1]
        for y in e[1:]:
            if isinstance(y, tuple):
                m = unary_on(y, x)
                if m:
                    return m
        return None

    leaf_t = ("e", T + "Base")
    expr_t = ("e", T + "Expression")
    def one(leafs, loc):
        return ("x", sorted(leafs(loc))[0])

    nested = [("leaf", None)] + [(o, s) for o, s in UN.items()] + [(o, s) for o, s in BIN.items()] + [(o, None) for o in ("Conditional", "Concat", "Extend", "Duplicate")]

    def operand(leafs, loc, o, given, when):
        """(expected tree, conditional?) of the operand at loc, whose operator is o"""
        if o == "leaf":
            given[loc + ".type_"] = leaf_t
            return one(leafs, loc), False
        given[loc + ".type_"] = expr_t
        given[loc + ".op"] = ("e", E + o)
        if o in UN:
            when.append("null %s.right" % loc)
            given[loc + ".left.type_"] = leaf_t
            return ("u", UN[o], one(leafs, loc + ".left")), False
        if o in BIN:
            when.append("!null %s.right" % loc)
            given[loc + ".left.type_"] = leaf_t
            given[loc + ".right.type_"] = leaf_t
            return ("b", BIN[o], one(leafs, loc + ".left"), one(leafs, loc + ".right")), False
        when.append("!null %s.right" % loc)
        return one(leafs, loc), o == "Conditional"

    for f, mode, leafs in modes(F):
        for o, s in UN.items():
            for i, _ in nested:
                given, when = {"this.op": ("e", E + o)}, ["null this.right"]
                x, c = operand(leafs, "this.left", i, given, when)
                judge(f, mode, leafs, "%s of %s" % (o, i), given, ("u", s, x), when, ["this.left"] if c else [])
            given = {"this.op": ("e", E + o), "this.left.type_": ("e", T + "ConstValue")}
            judge(f, mode, leafs, "%s of constant" % o, given, ("u", s, one(leafs, "this.left")), ["null this.right"], [], ["this.left"])
        for o, s in BIN.items():
            for i, _ in nested:
                for side in ("left", "right"):
                    given, when = {"this.op": ("e", E + o)}, ["!null this.right"]
                    x, c = operand(leafs, "this." + side, i, given, when)
                    other = "right" if side == "left" else "left"
                    y, _ = operand(leafs, "this." + other, "leaf", given, when)
                    want = ("b", s, x, y) if side == "left" else ("b", s, y, x)
                    judge(f, mode, leafs, "%s, %s operand %s" % (o, side, i), given, want, when, ["this." + side] if c else [])
    # ---------------------------------------------------------------- conditional
    for q in ("to_string", "handle_name"):
        for f in F.need("kratos::ConditionalExpr::" + q):
            call = "to_string()" if q == "to_string" else "handle_name($0)"
            for ct in ("Expression", "Base", "Slice", "ConstValue", "PortIO"):
                def want(o, ct=ct, call=call):
                    if o.kind != "ret":
                        return o.kind
                    leaf = {x: ("x", "this.%s.%s" % (x, call)) for x in ("condition", "left", "right")}
                    try:
                        e = parse(o.val)
                        if norm(e) != ("c", leaf["condition"], leaf["left"], leaf["right"]):
                            return "prints %s" % text(o.val)
                        if ct == "Expression" and e[1][0] != "par":
                            return "prints %s with an expression condition not in parentheses" % text(o.val)
                    except Bad as ex:
                        return "prints %s: %s" % (text(o.val), ex)
                row(F, r, "forms", f, want, given={"this.condition.type_": ("e", T + ct)}, key="condition is " + ct, clue="condition ? left : right")
    S = lambda *p: text(cat(*[("s", x[1:]) if x.startswith("'") else ("t", x) for x in p]))
    # ---------------------------------------------------------------- selections
    q = "kratos::VarSlice::to_string"
    pv = "this.parent_var.to_string()"
    row(F, r, "forms", q, {pv}, ["this.high == this.low", "this.high == 0", "this.parent_var.width() == 1"], key="the only bit", opaque=("width",))
    row(F, r, "forms", q, {S(pv, "'[", "this.high", "']"), S(pv, "'[", "this.low", "']")}, ["this.high == this.low", "!this.high == 0"], key="one bit", opaque=("width",))
    row(F, r, "forms", q, {S(pv, "'[", "this.high", "']"), S(pv, "'[", "this.low", "']")}, ["this.high == this.low", "this.high == 0", "!this.parent_var.width() == 1"], key="bit 0 of several", opaque=("width",))
    row(F, r, "forms", q, {S(pv, "'[", "this.high", "':", "this.low", "']")}, ["!this.high == this.low"], key="range", opaque=("width",))
    # the element of an array is named even when each element is one bit wide
    for w, n, e, t in ((1, 4, False, "a[0]"), (1, 1, False, "a"), (8, 1, False, "a[0]"), (8, 4, False, "a[0]")):
        g = world(F, {"this": {"parent_var": "A", "high": 0, "low": 0, "var_width": w if n > 1 else 1, "size": [1]}, "A": {"var_width": w, "width()": w * n, "size": [n], "to_string()": '"a', "width_param": None, "explicit_array": e, "type": "#VarType::Base"}})
        row(F, r, "forms", q, {text(("s", t))}, given=g, key="element 0 of %d x %d bits" % (n, w))
    row(F, r, "forms", "kratos::VarVarSlice::to_string", {S(pv, "'[", "this.sliced_var_.to_string()", "']")})
    row(F, r, "forms", "kratos::PackedSlice::to_string", {S(pv, "'.", "this.def_.name")}, ["null this.original_struct_"])
    for c in ("InterfacePort", "InterfaceVar"):
        row(F, r, "forms", "kratos::%s::to_string" % c, {S("this.interface_.name_", "'.", "this.name")})
    # ---------------------------------------------------------------- casts
    q = "kratos::VarCasted::to_string"
    pv = "this.parent_var_.to_string()"
    C = "this.cast_type_ == kratos::VarCastType::"
    for ct, head in (("Signed", ["'signed'("]), ("Unsigned", ["'unsigned'("]), ("Enum", ["this.enum_type_.name", "''("]), ("Resize", ["this.target_width_", "''("])):
        row(F, r, "forms", q, {S(*(head + [pv, "')"]))}, ["!null this.enum_type_"], given={"this.cast_type_": ("e", "kratos::VarCastType::" + ct)}, key="cast " + ct)
    for ct in ("Clock", "AsyncReset"):
        row(F, r, "forms", q, {pv}, given={"this.cast_type_": ("e", "kratos::VarCastType::" + ct)}, key="cast " + ct)
    # ---------------------------------------------------------------- concatenation, repetition, extension
    vs = ("list", (("t", "v0"), ("t", "v1"), ("t", "v2")))
    for n, call in (("to_string", "to_string()"), ("handle_name", "handle_name($0)")):
        for f in F.need("kratos::VarConcat::" + n):
            row(F, r, "forms", f, {S("'{", "v0." + call, "', ", "v1." + call, "', ", "v2." + call, "'}"), S("'{", "v0." + call, "',", "v1." + call, "',", "v2." + call, "'}")}, given={"this.vars_": vs}, key="three operands")
        for f in F.need("kratos::VarDuplicated::" + n):
            l, rr = "this.left." + call, {"this.right.to_string()", "this.right." + call}
            plain = {S("'{", x, "'{", l, "'}}") for x in rr}
            row(F, r, "forms", f, plain, given={"this.left.type_": leaf_t}, key="of a variable")
            row(F, r, "forms", f, plain, given={"this.left.type_": expr_t, "this.left.op": ("e", E + "Add")}, key="of an expression")
            for o_ in ("Extend", "Duplicate", "Conditional", "UInvert", "Or"):
                row(F, r, "forms", f, plain, given={"this.left.type_": expr_t, "this.left.op": ("e", E + o_)}, key="of a " + o_)
            for t_ in ("Slice", "ConstValue", "BaseCasted", "PortIO", "Parameter", "Iter"):
                row(F, r, "forms", f, plain, given={"this.left.type_": ("e", "kratos::VarType::" + t_)}, key="of a " + t_)
            row(F, r, "forms", f, {S("'{", x, l, "'}") for x in rr} | plain, given={"this.left.type_": expr_t, "this.left.op": ("e", E + "Concat")}, key="of a concatenation")
        for f in F.need("kratos::VarExtend::" + n):
            row(F, r, "forms", f, {S(w, "''(", "this.left." + call, "')") for w in ("this.var_width_", "this.width()")})
    # ---------------------------------------------------------------- constants
    q = "kratos::Const::to_string"
    kw = dict(opaque=("width",), casts=True)
    hexs = lambda w, v: text(cat(*([("t", w), ("s", "'h"), ("call", "fmt:X", (v,))])))

    def number(o):
        if o.kind != "ret":
            return o.kind
        t = text(o.val)
        neg = t.startswith('cat("-", ')
        m = re.fullmatch(r'cat\((?:"-", )?this\.width\(\), "\'h", fmt:[xX]\((.*)\)\)', t)
        if not m:
            return "prints %s" % t
        v = m.group(1)
        knows = [p for a, p in o.st.trail if a == ("<", "this.value_", "0")]
        signed = [p for a, p in o.st.trail if a[0] == "truth" and "is_signed" in a[1]]
        if neg:
            if not (knows and knows[-1] and signed and signed[-1]):
                return "prints a minus sign for a value not known to be negative"
            return None if re.fullmatch(r"\(?-\(?u64\(this\.value_\)\)?\)?|u64\(\(?-this\.value_\)?\)", v) else "prints -%s, which overflows for the most negative value" % v
        if signed and signed[-1] and not (knows and not knows[-1]):
            return "prints a signed value without considering its sign"
        return None if v == "u64(this.value_)" or (v == "this.value_" and knows and not knows[-1]) else "prints %s as a signed number, so a 64-bit pattern with the top bit set gets a minus sign" % v
    row(F, r, "forms", q, number, ["this.num_bits_ == 0"], key="up to 64 bits", clue="width'h<magnitude>", **kw)
    row(F, r, "forms", q, {S("'-", "this.width()", "''h", "this.hex_value_")}, ["!this.num_bits_ == 0", "true this.negative_"], key="large negative", opaque=("width",))
    row(F, r, "forms", q, {S("this.width()", "''h", "this.hex_value_")}, ["!this.num_bits_ == 0", "!true this.negative_"], key="large", opaque=("width",))
    row(F, r, "forms", "kratos::Param::to_string", {"this.parameter_name_"})
    row(F, r, "forms", "kratos::StringConst::to_string", {S("'\"", "this.stringconst_value_", "'\"")})
    row(F, r, "forms", "kratos::EnumConst::to_string", {"this.name_"}, ["in this.name_ @ this.parent_.values"])
    row(F, r, "forms", "kratos::EnumConst::to_string", {"throw"}, ["!in this.name_ @ this.parent_.values"])
    # ---------------------------------------------------------------- calls and events
    q = "kratos::FunctionCallVar::to_string"
    for b in (True, False):
        def want(o, b=b):
            t = text(o.val) if o.val else o.kind
            if o.kind != "ret" or o.val[0] != "cat":
                return "prints %s" % t
            ps = o.val[1]
            s = "".join(x[1] if x[0] == "s" else "@" for x in ps)
            holes = [text(x) for x in ps if x[0] != "s"]
            if not re.fullmatch((r"\$" if b else "") + r"@ ?\((@(, ?@)*)?\)", s):
                return "prints %s" % t
            if holes[0] != "this.func_def_.function_name_":
                return "calls %s" % holes[0]
        row(F, r, "forms", q, want, ["true this.func_def_.is_builtin()" if b else "!true this.func_def_.is_builtin()"], key="builtin" if b else "defined", clue="name (arguments)")
    for f in F.need("kratos::EventControl::to_string"):
        v = "this.var.to_string()" if not f.params else "$0(this.var)"
        D, X = ("e", "kratos::EventControlType::Delay"), ("e", "kratos::EventControlType::Edge")
        row(F, r, "forms", f, {S("'#", "this.delay")}, given={"this.type": D}, key="delay")
        for e in ("posedge", "negedge"):
            row(F, r, "forms", f, {S("'%s " % e, v)}, given={"this.type": X, "this.edge": ("e", "kratos::EventEdgeType::" + e.capitalize())}, key=e)
    # ---------------------------------------------------------------- hierarchical names
    r.rule("hierarchy", "a hierarchical name is the instance path joined by dots, relative to the scope asked for, and is refused outside it", 16)
    kw = dict(opaque=("kratos::Generator::handle_name", "to_string"))
    for f in select(F, "kratos::Var::handle_name", nparams("bool")):
        g = "this.generator().handle_name($0)"
        row(F, r, "hierarchy", f, {"this.to_string()"}, ["empty " + g], key="no instance path", **kw)
        row(F, r, "hierarchy", f, {S(g, "'.", "this.to_string()")}, ["!empty " + g], key="below an instance path", **kw)
    for f in select(F, "kratos::Var::handle_name", nparams("Generator *")):
        # concrete paths, so that however the prefix is removed the answer is the text that is left
        for path, name, want in (("top", "top.a", "a"), ("top", "top.top.a", "top.a"), ("top.inst", "top.inst.a", "a"), ("top.inst", "top.inst.sub.a", "sub.a"), ("top.inst", "top.inst.inst.a", "inst.a"),
                                 ("top.inst", "top.inst1.a", None), ("top.inst", "top.sub.a", None), ("inst", "top.inst.a", None), ("top.inst", "top.a", None), ("top.inst", "xtop.inst.a", None),
                                 ("top.inst.a", "top.inst.a", None), ("top.i", "top.inst", None), ("top.top", "top.a", None)):
            given = {"$0.handle_name()": ("s", path), "$0.handle_name(false)": ("s", path), "this.handle_name()": ("s", name), "this.handle_name(false)": ("s", name),
                     "this.generator().handle_name()": ("s", name.rpartition(".")[0]), "this.generator().handle_name(false)": ("s", name.rpartition(".")[0]), "this.to_string()": ("s", name.rpartition(".")[2])}
            row(F, r, "hierarchy", f, {"throw"} if want is None else {'"%s"' % want}, given=given, key="%s seen from %s" % (name, path), opaque=("handle_name", "to_string"))
    for f in select(F, "kratos::Generator::handle_name", nparams("bool")):
        r.saw(f)
        P1 = "this.parent_generator_"
        inst = ["null this.instantiation_stmt_", "null this.parent_generator_.instantiation_stmt_"]
        for top in (False, True):
            for depth in (1, 2):
                w = inst + (["null " + P1] if depth == 1 else ["!null " + P1, "null %s.parent_generator_" % P1])
                names = ["this.instance_name"] if depth == 1 else [P1 + ".instance_name", "this.instance_name"]
                names = names[1:] if top else names
                want = '""' if not names else S(*[x for n in names for x in ("'.", n)][1:])
                row(F, r, "hierarchy", f, {want}, w, args={0: ("b", top)}, key="depth %d%s" % (depth, ", without the top" if top else ""))
