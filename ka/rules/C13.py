"""Every module, declaration and statement prints as the SystemVerilog construct of its kind."""
import json, re
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select, nparams

CG = "kratos::SystemVerilogCodeGen::"
E0 = ("list", ())
t = lambda x: ("t", x)
enum = lambda c, v: ("e", "kratos::%s::%s" % (c, v))
TP = lambda *kv: ("list", tuple(("tup", (("s", k) if isinstance(k, str) else k, v)) for k, v in kv))
L = lambda *xs: ("list", tuple(("s", x) if isinstance(x, str) else x for x in xs))
QUIET = ["!true this.generator_.debug"]
KINDS = {"Assign": "AssignStmt", "Block": "StmtBlock", "If": "IfStmt", "ModuleInstantiation": "ModuleInstantiationStmt", "Switch": "SwitchStmt", "FunctionalCall": "FunctionCallStmt",
         "Return": "ReturnStmt", "Assert": "AssertBase", "Comment": "CommentStmt", "InterfaceInstantiation": None, "RawString": "RawStringStmt", "For": "ForStmt", "Auxiliary": "AuxiliaryStmt", "Break": "BreakStmt"}
BLOCKS = {"Sequential": "SequentialStmtBlock", "Combinational": "CombinationalStmtBlock", "Scope": "ScopedStmtBlock", "Function": "FunctionStmtBlock", "Initial": "InitialStmtBlock", "Final": "FinalStmtBlock", "Latch": "LatchStmtBlock"}


def names(F, e):
    return [last(c["q"]) for c in F.enums["kratos::" + e]["c"]]


def of(c):
    return lambda f: bool(f.params) and short(strip_type(f.params[0]["t"])).rstrip(" *&").split("::")[-1] == c


def tmpl(v):
    out = "".join(x[1] if x[0] == "s" else "\n" if x == ("t", "std::endl") or text(x) == "std::endl" else "«%s»" % text(x) for x in (v[1] if v[0] == "cat" else (v,)))
    return out


def says(want):
    """the returned text, as a template"""
    want = {want} if isinstance(want, str) else set(want)

    def check(o):
        if o.kind != "ret":
            return "does not yield a text (%s)" % outcome(o)[:100]
        g = tmpl(o.val)
        if g not in want:
            return "yields %s" % json.dumps(g, ensure_ascii=False)
    return check


def run(F, r, tier):
    r.rule("dispatch", "every kind of statement and block reaches the printer of its own kind, exactly once", 21)
    r.rule("block", "a procedural block prints its keyword, sensitivity list, label, statements in order and end", 20)
    r.rule("statement", "a statement prints its keyword, operands and branches in the order and with the delimiters of its kind", 40)
    r.rule("declaration", "a port, variable, parameter, enum or struct is declared with its direction, type, sign, dimensions and name", 60)
    r.rule("instance", "an instance names its module, parameters and instance, and connects every port by name to its own connection", 15)
    r.rule("module", "a module prints every declaration and statement it has, in a legal order, once per distinct module", 14)
    st = CG + "stmt_code"
    O = ("is_valid_variable_name", "dispatch_node", "indent", "strip_newline", "width")
    # ---------------------------------------------------------------- dispatch
    d = F.one(CG + "dispatch_node")

    def sent(o, c, to):
        n = [(e[2], e[3]) for e in o.st.eff if e[0] == "call" and e[1].endswith("stmt_code")]
        if o.kind == "throw":
            return "rejects"
        if to is None:
            return None if not n else "prints it"
        if len(n) != 1:
            return "prints it %d times" % len(n)
        if text(n[0][0][0]) != "$0" or of(to)(type("x", (), {"params": [{"t": n[0][1][0]}]})) is False:
            return "is printed as a %s" % n[0][1][0]
    for k in names(F, "StatementType"):
        if k not in KINDS:
            r.ob("dispatch", "statement kind %s" % k, False, d.loc(), "the new statement kind %s has no rule" % k)
            continue
        row(F, r, "dispatch", d, lambda o, k=k: sent(o, k, KINDS[k]), ["!true this.options_.yosys_src", "$0.ast_node_type_ == StmtKind", "$0.type_ == StatementType::%s" % k], key=k, opaque=("stmt_code",))
    row(F, r, "dispatch", d, {"throw"}, ["!$0.ast_node_type_ == StmtKind"], key="not a statement", opaque=("stmt_code",))
    sb = select(F, st, of("StmtBlock"))[0]
    for k in names(F, "StatementBlockType"):
        row(F, r, "dispatch", sb, lambda o, k=k: sent(o, k, BLOCKS[k]), ["$0.block_type() == StatementBlockType::%s" % k], key=k, opaque=("stmt_code", "block_type"))
    # ---------------------------------------------------------------- blocks
    two = {"$0.stmts_": ("list", (t("s1"), t("s2")))}
    kw = {"InitialStmtBlock": "initial", "FinalStmtBlock": "final", "LatchStmtBlock": "always_latch", "CombinationalStmtBlock": "always_comb", "ScopedStmtBlock": None}
    for c, k in list(kw.items()) + [("CombinationalStmtBlock", "always")]:
        gp = [] if c != "CombinationalStmtBlock" else ["%strue $0.general_purpose_" % ("" if k == "always" else "!")]
        head = (k + " " if k else "") + "begin"
        for lab in (True, False):
            lb = " :«this.label_index_[$0]»" if lab else ""
            fact = ["%s$0 in this.label_index_" % ("" if lab else "!"), "empty $0.comment"]
            prints(F, r, "block", st, "%s%s\n«node s1»«node s2»«this.indent()»end%s\n" % (head, lb, lb), QUIET + gp + fact, given=gv(F, two), sel=of(c), key="%s%s" % (k or "begin", " with a label" if lab else ""), opaque=O)
        if c != "ScopedStmtBlock":
            prints(F, r, "block", st, "«this.indent()»// «strip_newline($0.comment)»\n%s\n«this.indent()»end\n" % head, QUIET + gp + ["!empty $0.comment", "!$0 in this.label_index_"], given=gv(F, {"$0.stmts_": E0}), sel=of(c), key="%s with a comment" % k, opaque=O)
    ev = {"$0.conditions_": ("list", (t("e1"), t("e2")))}
    cond = lambda e, ed: ["%s.type == EventControlType::Edge" % e, "%s.edge == EventEdgeType::%s" % (e, ed)]
    gen = lambda v, home: ["%s%s.generator() == this.stream_.generator_" % ("" if home else "!", v)] + ([] if home else ["!%s.generator() == Const::const_generator_" % v])
    name = lambda v, home: "«%s.to_string()»" % v if home else "«%s.handle_name(true)»" % v
    for home in (True, False):
        for a, b in (("Posedge", "Posedge"), ("Posedge", "Negedge"), ("Negedge", "Posedge")):
            prints(F, r, "block", st, "\nalways_ff @(%s %s, %s %s) begin\n«node s1»«node s2»«this.indent()»end\n" % (a.lower(), name("e1.var", home), b.lower(), name("e2.var", home)),
                   QUIET + ["empty $0.comment", "!$0 in this.label_index_"] + cond("e1", a) + cond("e2", b) + gen("e1.var", home) + gen("e2.var", home), given=gv(F, dict(two, **ev)), sel=of("SequentialStmtBlock"), key="always_ff %s %s%s" % (a, b, "" if home else ", signals of another module"), opaque=O)
    row(F, r, "block", CG + "block_label", says(" :«this.label_index_[$0]»"), ["$0 in this.label_index_"], key="label")
    row(F, r, "block", CG + "block_label", says(""), ["!$0 in this.label_index_"], key="no label")
    nb = "this.generator_.named_blocks_"
    row(F, r, "block", CG + "index_named_block", lambda o: None if text(o.val) == "[<%s[each(%s)#0], each(%s)#0>]" % (nb, nb, nb) else "labels %s" % text(o.val), loops=(1,), key="label table")
    row(F, r, "block", CG + "index_named_block", lambda o: None if o.kind == "ret" and o.val[0] == "list" and sorted((text(x[1][0]), text(x[1][1])) for x in o.val[1]) == [("b1", '"one"'), ("b2", '"two"')] else "labels %s" % text(o.val),
        given=gv(F, {nb: TP(("one", t("b1")), ("two", t("b2")))}), key="label table of two blocks", clue="every labelled block with its own label")
    prints(F, r, "block", st, "\nalways_ff @(posedge «e1.var.to_string()») begin :«this.label_index_[$0]»\n«node s1»«node s2»«this.indent()»end :«this.label_index_[$0]»\n", QUIET + ["empty $0.comment", "$0 in this.label_index_"] + cond("e1", "Posedge") + gen("e1.var", True),
           given=gv(F, dict(two, **{"$0.conditions_": ("list", (t("e1"),))})), sel=of("SequentialStmtBlock"), key="always_ff with a label", opaque=O)
    # subroutines
    fb = select(F, st, of("FunctionStmtBlock"))[0]
    fo = O + ("get_port_str", "is_dpi", "is_builtin", "is_task", "has_return_value")
    for order in (None, ("a", "b", "c"), ("c", "a", "b")):
        for kind in ("task", "void", "value", "signed value"):
            g = {"$0.ports_": TP(("a", t("pa")), ("b", t("pb")), ("c", t("pc"))), "$0.port_ordering_": ("list", tuple(("tup", (("s", x), ("i", order.index(x)))) for x in "abc")) if order else E0,
                 "$0.stmts_": ("list", (t("s1"), t("s2"))), "$0.is_dpi()": ("b", False), "$0.is_builtin()": ("b", False), "$0.is_task()": ("b", kind == "task"), "$0.has_return_value()": ("b", "value" in kind), "$0.has_return_value_": ("b", "value" in kind),
                 "h.width()": ("i", 8), "h.is_signed()": ("b", kind == "signed value"), "h.is_signed_": ("b", kind == "signed value"), "$0.function_handler_": ("e", "h"), "h.var_width_": ("i", 4), "h.size_": ("list", (("i", 2),))}
            hd = {"task": "task", "void": "function void", "value": "function logic[7:0]", "signed value": "function logic signed[7:0]"}[kind]
            args_ = ",\n".join("«this.indent()»«SystemVerilogCodeGen::get_port_str(p%s)»" % x for x in (order or "abc"))
            prints(F, r, "block", fb, ["%s%s «$0.function_name_»(\n%s\n);\nbegin\n«node s1»«node s2»«this.indent()»end\n%s\n" % (x, y, args_, "endtask" if kind == "task" else "endfunction") for x in (hd,) for y in ("",)],
                   QUIET, given=gv(F, g), key="%s with arguments %s" % (kind, "".join(order or "in any order")), opaque=fo)
    for w in (1, 32):
        g = {"$0.ports_": E0, "$0.port_ordering_": E0, "$0.stmts_": ("list", (t("s1"),)), "$0.is_dpi()": ("b", False), "$0.is_builtin()": ("b", False), "$0.is_task()": ("b", False), "$0.has_return_value()": ("b", True), "$0.has_return_value_": ("b", True),
             "h.width()": ("i", w), "h.is_signed()": ("b", True), "h.is_signed_": ("b", True), "$0.function_handler_": ("e", "h")}
        prints(F, r, "block", fb, "function logic signed[%d:0] «$0.function_name_»;\nbegin\n«node s1»«this.indent()»end\nendfunction\n" % (w - 1), QUIET, given=gv(F, g), key="function of no arguments, %d bits" % w, opaque=fo)
    for k in ("dpi", "builtin"):
        prints(F, r, "block", fb, "", QUIET, given=gv(F, {"$0.is_dpi()": ("b", k == "dpi"), "$0.is_builtin()": ("b", k == "builtin")}), key="a %s function is declared elsewhere" % k, opaque=fo)
    rs = select(F, st, of("ReturnStmt"))[0]
    for home in (True, False):
        prints(F, r, "statement", rs, "«this.indent()»return %s;\n" % name("$0.value_", home), QUIET + gen("$0.value_", home), key="return%s" % ("" if home else " of a signal of another module"), opaque=O)
    # event controls
    ec = "kratos::EventControl::to_string"
    for s, nm_ in ((lambda f: not f.params, "«this.var.to_string()»"), (lambda f: f.params, "«$0(this.var)»")):
        for e in ("Posedge", "Negedge"):
            row(F, r, "block", ec, says("%s %s" % (e.lower(), nm_)), ["this.type == EventControlType::Edge", "this.edge == EventEdgeType::" + e], sel=s, key="%s %s" % (e, nm_))
        row(F, r, "block", ec, says("#«this.delay»"), ["this.type == EventControlType::Delay"], sel=s, key="delay " + nm_)
    # ---------------------------------------------------------------- assignments
    A = select(F, "kratos::Stream::operator<<", of("AssignStmt"))[0]
    ao = ("strip_newline", "line_wrap", "indent", "width")
    left = lambda h: gen("$0.left_", h) if not h else ["$0.left_.generator() == this.generator_"]
    own = lambda v, h: ["%s%s.generator() == this.generator_" % ("" if h else "!", v)] + ([] if h else ["!%s.generator() == Const::const_generator_" % v])
    for hl in (True, False):
        for hr in (True, False):
            ln, rn = name("$0.left_", hl), ("$0.right_.to_string()" if hr else "$0.right_.handle_name(true)")
            w = "line_wrap(%s, this.codegen_.options_.line_wrap)" % rn
            g = {w: L("r0", "r1")}
            base = ["empty $0.comment", "!true this.generator_.debug"] + own("$0.left_", hl) + own("$0.right_", hr)
            tag = "%s = %s" % ("own" if hl else "other", "own" if hr else "other")
            prints(F, r, "statement", A, "assign %s = r0\n«this.codegen_.indent()»    r1;\n" % ln, base + ["!true $0.has_delay()", "$0.parent_ == this.generator_", "$0.assign_type_ == AssignmentType::Blocking"], given=gv(F, g), key="continuous " + tag, opaque=ao + ("has_delay",), stream="this")
            for ty, op in (("Blocking", "="), ("NonBlocking", "<=")):
                prints(F, r, "statement", A, "«this.codegen_.indent()»%s %s r0\n«this.codegen_.indent()»    r1;\n" % (ln, op), base + ["!true $0.has_delay()", "!$0.parent_ == this.generator_", "$0.assign_type_ == AssignmentType::" + ty], given=gv(F, g), key="%s %s" % (ty, tag), opaque=ao + ("has_delay",), stream="this")
    base = ["empty $0.comment", "!true this.generator_.debug"] + own("$0.left_", True) + own("$0.right_", True)
    g = {"line_wrap($0.right_.to_string(), this.codegen_.options_.line_wrap)": L("r0")}
    bo = base + ["true $0.has_delay()", "!$0.parent_ == this.generator_", "$0.assign_type_ == AssignmentType::Blocking"]
    dl, side = "$0.delay_.type == EventControlType::", "$0.delay_.delay_side == EventControl::DelaySide::"
    for k, facts, txt in (("Delay", [dl + "Delay"], "#«$0.delay_.delay» "), ("Edge", [dl + "Edge", "$0.delay_.edge == EventEdgeType::Posedge", "$0.delay_.var.generator() == this.generator_"], "@(posedge «$0.delay_.var.to_string()») ")):
        prints(F, r, "statement", A, "«this.codegen_.indent()»%s«$0.left_.to_string()» = r0;\n" % txt, bo + facts + [side + "left", "!" + side + "right"], given=gv(F, g), key="%s on the left" % k, opaque=ao + ("has_delay",), stream="this")
        prints(F, r, "statement", A, "«this.codegen_.indent()»«$0.left_.to_string()» = %sr0;\n" % txt, bo + facts + [side + "right", "!" + side + "left"], given=gv(F, g), key="%s on the right" % k, opaque=ao + ("has_delay",), stream="this")
    row(F, r, "statement", A, {"throw"}, base + ["$0.parent_ == this.generator_", "!$0.assign_type_ == AssignmentType::Blocking"], key="continuous assignment that is not blocking", opaque=ao + ("has_delay",))
    row(F, r, "statement", A, {"throw"}, base + ["$0.parent_ == this.generator_", "$0.assign_type_ == AssignmentType::Blocking", "true $0.has_delay()"], key="continuous assignment with a delay", opaque=ao + ("has_delay",))
    row(F, r, "statement", A, {"throw"}, base + ["!$0.parent_ == this.generator_", "!$0.assign_type_ == AssignmentType::Blocking", "!$0.assign_type_ == AssignmentType::NonBlocking"], key="procedural assignment of unknown type", opaque=ao + ("has_delay",))
    prints(F, r, "statement", A, ["// «strip_newline($0.comment)»\n«this.codegen_.indent()»«this.codegen_.indent()»«$0.left_.to_string()» = r0;\n"], ["!empty $0.comment", "!true this.generator_.debug", "!true $0.has_delay()", "!$0.parent_ == this.generator_", "$0.assign_type_ == AssignmentType::Blocking"] + own("$0.left_", True) + own("$0.right_", True), given=gv(F, g), key="commented", opaque=ao + ("has_delay",), stream="this")
    sa = select(F, st, of("AssignStmt"))[0]
    row(F, r, "statement", sa, {"throw"}, ["$0.left_.type_ == VarType::PortIO", "$0.left_.direction_ == PortDirection::In", "$0.left_.generator() == this.generator_", "!$0.right_.type_ == VarType::ConstValue"], key="drives its own input", opaque=("operator<<",))
    row(F, r, "statement", sa, lambda o: None if o.kind != "throw" and [text(e[2]) for e in o.st.eff if e[0] == "out"] == ["$0"] or calls(o, "operator<<") == [["$0"]] else "is not printed once", ["!$0.left_.type_ == VarType::PortIO"], key="printed", opaque=("operator<<",))
    vs = select(F, "kratos::Stream::var_str", lambda f: "shared_ptr" not in f.params[0]["t"])[0]
    row(F, r, "statement", vs, {"$0.to_string()"}, ["$0.generator() == this.generator_"], key="own variable")
    row(F, r, "statement", vs, {"$0.to_string()"}, ["!$0.generator() == this.generator_", "$0.generator() == Const::const_generator_"], key="constant")
    row(F, r, "statement", vs, {"$0.handle_name(true)"}, ["!$0.generator() == this.generator_", "!$0.generator() == Const::const_generator_"], key="variable of another module")
    # ---------------------------------------------------------------- if, switch, for
    I = select(F, st, of("IfStmt"))[0]
    for home in (True, False):
        head = "«this.indent()»if (%s) «node $0.then_body_»" % name("$0.predicate_", home)
        pg = QUIET + gen("$0.predicate_", home)
        prints(F, r, "statement", I, head, pg, given=gv(F, {"$0.else_body_.stmts_": E0}), key="if%s" % home, opaque=O)
        for k in names(F, "StatementType"):
            alone = k in ("Assign", "If", "Return")
            want = {head + "«this.indent()»else «node $0.else_body_»"}
            if alone:
                want |= {head + "«this.indent()»else «node s1»"}
            prints(F, r, "statement", I, want, pg + ["s1.type_ == StatementType::" + k], given=gv(F, {"$0.else_body_.stmts_": ("list", (t("s1"),))}), key="else %s%s" % (k, home), opaque=O)
        prints(F, r, "statement", I, head + "«this.indent()»else «node $0.else_body_»", pg, given=gv(F, {"$0.else_body_.stmts_": ("list", (t("s1"), t("s2")))}), key="else with two statements%s" % home, opaque=O)
    W = select(F, st, of("SwitchStmt"))[0]
    c1, c2 = ("e", "c1"), ("e", "c2")
    ne = ["!null c1", "!null c2", "!null b0", "!null b1", "!null b2"]
    for home in (True, False):
        for uq in (True, False):
            for df in (True, False):
                body = (("tup", (c1, t("b1"))), ("tup", (c2, t("b2")))) + ((("tup", (("null",), t("b0"))),) if df else ())
                head = "«this.indent()»%s case (%s)\n" % ("unique" if uq else "", name("$0.target_", home))
                o1 = QUIET + ["%strue this.options_.unique_case" % ("" if uq else "!")] + gen("$0.target_", home) + gen("c1", True) + gen("c2", True) + ne
                g = {"$0.body_": ("list", body), "c1.value_": ("i", 2), "c2.value_": ("i", 1), "b1.stmts_": ("list", (t("s1"), t("s2"))), "b2.stmts_": ("list", (t("s3"), t("s4"))), "b0.stmts_": ("list", (t("s5"), t("s6")))}
                arm = lambda l, b: "«this.indent()»%s: «node %s»" % (l, b)
                dft = arm("default", "b0") if df else "«this.indent()»default: begin end\n"
                both = {head + "".join(x) + dft + "«this.indent()»endcase\n" for x in ((arm("«c2.to_string()»", "b2"), arm("«c1.to_string()»", "b1")), (arm("«c1.to_string()»", "b1"), arm("«c2.to_string()»", "b2")))}
                prints(F, r, "statement", W, both, o1, given=gv(F, g), key="%s case%s%s" % ("unique" if uq else "plain", " with default" if df else "", "" if home else ", target of another module"), opaque=O)
    sg = lambda k: {"$0.body_": TP((c1, t("b1"))), "b1.stmts_": ("list", (t("s1"),)), "s1.type_": enum("StatementType", k)}
    sw = QUIET + ["true this.options_.unique_case"] + gen("$0.target_", True) + gen("c1", True) + ne
    one = lambda n: "«this.indent()»unique case («$0.target_.to_string()»)\n«this.indent()»«c1.to_string()»: «node %s»«this.indent()»default: begin end\n«this.indent()»endcase\n" % n
    for k in names(F, "StatementType"):
        prints(F, r, "statement", W, {one("b1")} | ({one("s1")} if k == "Assign" else set()), sw + ["!b1 in this.label_index_"], given=gv(F, sg(k)), key="case with one %s" % k, opaque=O)
        prints(F, r, "statement", W, {one("b1")}, sw + ["b1 in this.label_index_"], given=gv(F, sg(k)), key="labelled case with one %s" % k, opaque=O)
    row(F, r, "statement", W, {"throw"}, sw, given=gv(F, {"$0.body_": TP((c1, t("b1"))), "b1.stmts_": E0}), key="empty case", opaque=O)
    R_ = select(F, st, of("ForStmt"))[0]
    for k, facts, decl in (("genvar", ["true $0.iter_.is_gen_var_"], "genvar"), ("signed", ["!true $0.iter_.is_gen_var_", "true $0.iter_.is_signed_"], "int"), ("unsigned", ["!true $0.iter_.is_gen_var_", "!true $0.iter_.is_signed_"], "int unsigned")):
        for up, s, e, stp in ((True, 0, 4, 1), (True, 0, 9, 3), (False, 4, 0, -1), (False, 3, -1, -2), (True, 5, 2, 1), (False, 0, 4, -1), (True, -2, 4, 1)):
            n = "«$0.iter_.to_string()»"
            prints(F, r, "statement", R_, "«this.indent()»for (%s %s = %d; %s %s %d; %s %s %d) «node $0.loop_body_»" % (decl, n, s, n, "<" if up else ">", e, n, "+=" if up else "-=", abs(stp)), QUIET + facts + gen("$0.iter_", True),
                   given=gv(F, {"$0.start_": ("i", s), "$0.end_": ("i", e), "$0.step_": ("i", stp), "std::abs(%d)" % stp: ("i", abs(stp))}), key="%s loop %d to %d by %d" % (k, s, e, stp), opaque=O)
    # ---------------------------------------------------------------- asserts and the rest
    B = select(F, st, of("AssertBase"))[0]
    av = "$0.assert_type() == AssertType::AssertValue"
    for home in (True, False):
        n = name("$0.assert_var_", home)
        prints(F, r, "statement", B, "«this.indent()»assert (%s);\n" % n, QUIET + [av, "null $0.else_stmt_"] + gen("$0.assert_var_", home), key="assert%s" % home, opaque=O + ("assert_type",))
        prints(F, r, "statement", B, "«this.indent()»assert (%s) else «node $0.else_stmt_»" % n, QUIET + [av, "!null $0.else_stmt_"] + gen("$0.assert_var_", home), key="assert else%s" % home, opaque=O + ("assert_type",))
    row(F, r, "statement", B, lambda o: sent(o, "", "AssertPropertyStmt"), ["!" + av], key="property assertion", opaque=O + ("assert_type", "stmt_code"))
    PR = select(F, st, of("AssertPropertyStmt"))[0]
    pp = "$0.property_"
    po = O + ("kratos::Sequence::to_string",)
    for a in names(F, "PropertyAction"):
        for edge in (True, False):
            for els in (True, False):
                def want(o, a=a, edge=edge, els=els):
                    if o.kind == "throw":
                        return "rejects"
                    g = re.sub(r"«%s\.to_string\(.*?\)»" % re.escape(pp + ".sequence_"), "«sequence»", printed(o).replace("λ", ""))
                    hd = "«this.indent()»property «%s.property_name_»;\n" % pp + ("«this.indent()»@(posedge «%s.edge_.var.to_string()») " % pp if edge else "") + "«sequence»;\n«this.indent()»endproperty\n"
                    tail = "" if a not in ("Assert", "Assume", "Cover") else "«this.indent()»%s property («%s.property_name_»)" % (a.lower(), pp) + (" else «node $0.else_stmt_»" if els and a == "Assert" else ";\n")
                    if g != hd + tail:
                        return "prints %s" % json.dumps(g, ensure_ascii=False)
                facts = ["%snull %s.edge_.var" % ("!" if edge else "", pp), "%s.edge_.type == EventControlType::Edge" % pp, "%s.edge_.edge == EventEdgeType::Posedge" % pp, "%s.edge_.var.generator() == this.stream_.generator_" % pp]
                row(F, r, "statement", PR, want, QUIET + facts + ["%s.action_ == PropertyAction::%s" % (pp, a), "%snull $0.else_stmt_" % ("!" if els else "")], key="property %s%s%s" % (a, " with edge" if edge else "", " with else" if els else ""), opaque=po)
    sq = "kratos::Sequence::to_string"
    for nx in (True, False):
        for lo, hi, wt in ((0, 0, ""), (1, 1, "##1 "), (0, 1, "##[0:1] "), (1, 3, "##[1:3] ")):
            row(F, r, "statement", sq, says(wt + "«$0(this.var_)»" + (" |-> «this.next_.to_string($0)»" if nx else "")), ["%snull this.next_" % ("!" if nx else "")], given=gv(F, {"this.wait_low_": ("i", lo), "this.wait_high_": ("i", hi)}), sel=lambda f: f.params, key="sequence %d..%d%s" % (lo, hi, " implies" if nx else ""))
    prints(F, r, "statement", st, "«this.indent()»// a\n«this.indent()»// b\n", given=gv(F, {"$0.comments_": L("a", "b")}), sel=of("CommentStmt"), key="comment", opaque=O)
    prints(F, r, "statement", st, "«this.indent()»a\n«this.indent()»b\n", given=gv(F, {"$0.stmts_": L("a", "b")}), sel=of("RawStringStmt"), key="raw text", opaque=O)
    prints(F, r, "statement", st, "«this.indent()»break;\n", sel=of("BreakStmt"), key="break", opaque=O)
    X = select(F, st, of("AuxiliaryStmt"))[0]
    row(F, r, "statement", X, {"throw"}, ["$0.auxiliarystmt_type_ == AuxiliaryType::EventTracing"], key="event tracing", opaque=O)
    prints(F, r, "statement", X, "«this.indent()»#«$0.event_.delay»;\n", ["$0.auxiliarystmt_type_ == AuxiliaryType::Delay", "$0.event_.type == EventControlType::Delay"], key="delay", opaque=O)
    for e in ("Posedge", "Negedge"):
        prints(F, r, "statement", X, "«this.indent()»@(%s «$0.event_.var.to_string()»);\n" % e.lower(), ["$0.auxiliarystmt_type_ == AuxiliaryType::Delay", "$0.event_.type == EventControlType::Edge", "$0.event_.edge == EventEdgeType::" + e, "$0.event_.var.generator() == this.stream_.generator_"], key="wait for " + e, opaque=O)
    # ---------------------------------------------------------------- declarations
    D = "declaration"
    ws = [f for f in F.need(CG + "get_width_str")]
    for f in ws:
        if "Var" in f.params[0]["t"]:
            row(F, r, D, f, says({"[«$0.to_string()»-1:0]", "[(«$0.to_string()»)-1:0]"}), ["$0.type_ == VarType::Parameter"], key="parameter")
            row(F, r, D, f, says("[(«$0.to_string()»)-1:0]"), ["!$0.type_ == VarType::Parameter"], key="expression")
        else:
            for w in (1, 2, 8, 32):
                row(F, r, D, f, says("[%d:0]" % (w - 1)), args={0: ("i", w)}, key="width %d" % w)
    wv = CG + "get_var_width_str"
    for w, want in ((1, ""), (2, "[1:0]"), (16, "[15:0]")):
        row(F, r, D, wv, says(want), ["null $0.width_param_", "!true $0.is_struct()"], given={"$0.var_width_": ("i", w)}, key="%d bits" % w)
        row(F, r, D, wv, says({"[«$0.width_param_.to_string()»-1:0]", "[(«$0.width_param_.to_string()»)-1:0]"}), ["!null $0.width_param_", "$0.width_param_.type_ == VarType::Parameter"], given={"$0.var_width_": ("i", w)}, key="parameter, now %d bits" % w)
        row(F, r, D, wv, says("[(«$0.width_param_.to_string()»)-1:0]"), ["!null $0.width_param_", "!$0.width_param_.type_ == VarType::Parameter"], given={"$0.var_width_": ("i", w)}, key="expression, now %d bits" % w)
    row(F, r, D, wv, says(""), ["null $0.width_param_", "true $0.is_struct()"], key="struct")
    zs = F.one("kratos::get_var_size_str")
    row(F, r, D, zs, says("[1:0][2:0]"), given={"$0.size_": ("list", (("i", 2), ("i", 3))), "$0.size_param_": E0}, key="two dimensions")
    row(F, r, D, zs, says({"[«p.to_string()»-1:0][2:0]", "[(«p.to_string()»)-1:0][2:0]"}), ["!null p", "p.type_ == VarType::Parameter"], given={"$0.size_": ("list", (("i", 2), ("i", 3))), "$0.size_param_": TP((("i", 0), t("p")))}, key="first dimension is a parameter")
    row(F, r, D, zs, says({"[1:0][«p.to_string()»-1:0]", "[1:0][(«p.to_string()»)-1:0]"}), ["!null p", "p.type_ == VarType::Parameter"], given={"$0.size_": ("list", (("i", 2), ("i", 3))), "$0.size_param_": TP((("i", 1), t("p")))}, key="second dimension is a parameter")

    def decl(q, port):
        x = "$0"
        do = ("width", "to_string", "is_valid_variable_name")
        dirs = (("In", "input"), ("Out", "output"), ("InOut", "inout")) if port else ((None, ""),)
        for dn, dt in dirs:
            for ty in ("logic", "enum", "struct") + (("raw",) if True else ()):
                for sg in (False, True):
                    for sz, pk, ex, sp in (((1,), True, False, False), ((1,), True, True, False), ((4,), True, False, False), ((4,), False, False, False), ((2, 3), True, False, False), ((2, 3), False, False, False), ((1, 1), True, False, False), ((1,), False, True, False), ((1,), True, False, True), ((1,), False, False, True)):
                        for w in ((8, 1) if ty == "logic" else (8,)):
                            if (dn not in (None, "In") and (sz != (1,) or ex or sp)) or (ty != "logic" and sp):
                                continue
                            g = {x + ".size_": ("list", tuple(("i", n) for n in sz)), x + ".var_width_": ("i", w), x + ".is_packed()": ("b", pk), x + ".is_packed_": ("b", pk), x + ".explicit_array_": ("b", ex), x + ".is_signed_": ("b", sg), x + ".name": ("s", "x"),
                                 x + ".size_param_": TP((("i", 0), t("p"))) if sp else E0, x + ".is_struct()": ("b", ty == "struct"), x + ".is_enum()": ("b", ty == "enum")}
                            if port:
                                g[x + ".direction_"] = enum("PortDirection", dn)
                            tn = {"logic": "logic", "enum": "«%s.enum_type().name»" % x, "struct": "«%s.struct_.struct_name»" % x, "raw": "«%s.raw_type_param_.to_string()»" % x}[ty]
                            dims = "".join("[%d:0]" % (n - 1) for n in sz) if not sp else "[«p.to_string()»-1:0]"
                            arr = len(sz) > 1 or sz[0] > 1 or ex or sp
                            wd = "[%d:0]" % (w - 1) if ty == "logic" and w > 1 else ""
                            parts = [dt, tn, "signed" if sg else "", (dims if arr and pk else ""), wd, "x", (dims if arr and not pk else "")]
                            norm = lambda s: re.sub(r"\s+", " ", re.sub(r"\s*(\[[^\]]*\])\s*", r" \1 ", s)).strip().replace("(«p.to_string()»)", "«p.to_string()»").replace(".enum_type_.", ".enum_type().")
                            want = norm(" ".join(p for p in parts if p))

                            def check(o, want=want, norm=norm):
                                if o.kind != "ret":
                                    return "does not yield a declaration"
                                if norm(tmpl(o.val)) != want:
                                    return "declares %s" % json.dumps(norm(tmpl(o.val)), ensure_ascii=False)
                            facts = ["null $0.width_param_", "%snull $0.raw_type_param_" % ("!" if ty == "raw" else ""), "!null p", "p.type_ == VarType::Parameter", "!null $0"]
                            row(F, r, D, q, check, facts, given=gv(F, g), key="%s %s%s %s%s%s %d bits%s" % (dn or "variable", ty, " signed" if sg else "", "x".join(map(str, sz)), "" if pk else " unpacked", " explicit" if ex else "", w, " parametrized size" if sp else ""), opaque=do, clue=want)
    decl(CG + "get_port_str", True)
    decl("kratos::Stream::get_var_decl", False)
    sp_ = select(F, "kratos::Stream::operator<<", lambda f: "pair" in f.params[0]["t"])[0]
    prints(F, r, D, sp_, "«this.codegen_.indent()»«$0#0.before_var_str_»«SystemVerilogCodeGen::get_port_str($0#0)»«$0#0.after_var_str_»«$0#1»\n", ["empty $0#0.comment", "!true this.generator_.debug"], key="port line", opaque=O + ("get_port_str",), stream="this")
    # a comment stays on the line it starts on
    for tx in ("", "a", "a\nb", "\na", "a\n", "a\n\nb", "\n\n\n", "two words\n\n\nand\nmore\n\n"):
        row(F, r, D, "kratos::strip_newline", lambda o, tx=tx: None if o.kind == "ret" and o.val[0] == "s" and "\n" not in o.val[1] and o.val[1].replace(" ", "") == tx.replace("\n", "").replace(" ", "") else "yields %s" % (text(o.val) if o.val else o.kind),
            args={0: ("s", tx)}, key="comment %r" % tx, clue="the text on one line", loops=(0, 1))
    prints(F, r, D, sp_, "«this.codegen_.indent()»// «strip_newline($0#0.comment)»\n«this.codegen_.indent()»«$0#0.before_var_str_»«SystemVerilogCodeGen::get_port_str($0#0)»«$0#0.after_var_str_»«$0#1»\n", ["!empty $0#0.comment", "!true this.generator_.debug"], key="commented port line", opaque=O + ("get_port_str",), stream="this")
    sv = select(F, "kratos::Stream::operator<<", lambda f: "shared_ptr" in f.params[0]["t"])[0]
    prints(F, r, D, sv, "«$0.before_var_str_»«Stream::get_var_decl($0)»«$0.after_var_str_»;\n", ["empty $0.comment", "!true this.generator_.debug"], key="variable line", opaque=O + ("get_var_decl",), stream="this")
    prints(F, r, D, sv, "// «strip_newline($0.comment)»\n«$0.before_var_str_»«Stream::get_var_decl($0)»«$0.after_var_str_»;\n", ["!empty $0.comment", "!true this.generator_.debug"], key="commented variable line", opaque=O + ("get_var_decl",), stream="this")
    # enums
    en = [f for f in F.need(CG + "enum_code_") if len(f.params) == 3][0]
    for w, wt in ((1, ""), (2, "[1:0]"), (4, "[3:0]")):
        prints(F, r, D, en, "typedef enum logic%s {\n  B = «c2.value_string()»,\n  A = «c1.value_string()»\n} «$1.name»;\n" % wt, ["!true $2"], given=gv(F, {"$1.values": TP(("A", t("c1")), ("B", t("c2"))), "c1.value_": ("i", 1), "c2.value_": ("i", 0), "$1.width_": ("i", w), "$1.width()": ("i", w)}), stream="$0", key="enum of %d bits" % w, opaque=O + ("to_string", "value_string"))
    # structs
    sx = F.one("kratos::extract_struct_info")
    so = ("visit_generator_root", "structs")
    fld = {"plain": (["null a.struct_", "!true a.signed_"], 1, "logic «a.name»"), "vector": (["null a.struct_", "!true a.signed_"], 8, "logic [7:0] «a.name»"), "signed": (["null a.struct_", "true a.signed_"], 8, "logic signed [7:0] «a.name»"), "signed bit": (["null a.struct_", "true a.signed_"], 1, "logic signed «a.name»"), "nested": (["!null a.struct_"], 8, "«a.struct_.struct_name» «a.name»")}
    for k, (facts, w, txt) in fld.items():
        def chk(o, txt=txt):
            v = o.val
            if o.kind != "ret" or v[0] != "list" or len(v[1]) != 1:
                return "yields %s" % outcome(o)[:200]
            g = re.sub(r"\n\s+", "\n", tmpl(v[1][0][1][1]))
            if g != "typedef struct packed {\n%s;\nlogic «b.name»;\n} «s.struct_name»;\n" % txt:
                return "declares %s" % json.dumps(g, ensure_ascii=False)
        row(F, r, D, sx, chk, facts + ["null b.struct_", "!true b.signed_"], given=gv(F, {"PortPackedVisitor().structs()": ("list", (t("s"),)), "s.attributes": ("list", (t("a"), t("b"))), "a.width": ("i", w), "b.width": ("i", 1)}), key="struct with a %s member" % k, opaque=so, clue=txt)
    # parameters
    pm = F.one(CG + "generate_parameters")
    pq = {"$0.params_": TP(("P", t("p")), ("Q", t("q")))}
    plain = lambda v: ["true %s.initial_value_" % v]
    val = lambda v: "«Const(%s.initial_value_, %s.width(), %s.is_signed_).to_string()»" % (v, v, v)
    po = O + ("to_string", "kratos::Const::Const", "value_str", "has_value")
    nonempty = ["!empty Const(%s.initial_value_, %s.width(), %s.is_signed_).to_string()" % (v, v, v) for v in "pq"]
    prints(F, r, D, pm, "#(\n«this.indent()»parameter P = %s,\n«this.indent()»parameter Q = %s\n)\n" % (val("p"), val("q")), plain("p") + plain("q") + nonempty, given=gv(F, pq), key="two parameters", opaque=po)
    prints(F, r, D, pm, "", given=gv(F, {"$0.params_": E0}), key="no parameters", opaque=po)
    raw = ["!true p.initial_value_", "p.param_type_ == ParamType::RawType"]
    gp = {"$0.params_": TP(("P", t("p")))}
    prints(F, r, D, pm, "#(\n«this.indent()»parameter type P = «p.initial_raw_str_value_»\n)\n", raw + ["true p.initial_raw_str_value_", "true p.raw_str_value_", "!empty p.initial_raw_str_value_", "!empty p.raw_str_value_"], given=gv(F, gp), key="type parameter with initial type", opaque=po)
    prints(F, r, D, pm, "#(\n«this.indent()»parameter type P = «p.raw_str_value_»\n)\n", raw + ["!true p.initial_raw_str_value_", "true p.raw_str_value_", "!empty p.raw_str_value_"], given=gv(F, gp), key="type parameter with a type", opaque=po)
    prints(F, r, D, pm, "#(\n«this.indent()»parameter type P\n)\n", raw + ["!true p.initial_raw_str_value_", "!true p.raw_str_value_"], given=gv(F, gp), key="type parameter", opaque=po)
    prints(F, r, D, pm, "#(\n«this.indent()»parameter P\n)\n", ["!true p.initial_value_", "p.param_type_ == ParamType::Parameter"], given=gv(F, gp), key="parameter without value", opaque=po)
    # ports of a module
    ports = F.one(CG + "generate_ports")
    for order, dirs, want in (("abc", "OII", "bca"), ("abc", "III", "abc"), ("abc", "IOI", "acb"), ("abc", "OOI", "cab")):
        g = {"$0.ports_": ("set", frozenset(("s", c) for c in "abc")), "$0.vars_": TP(*[(c, t("p" + c)) for c in "abc"])}
        for c, dd in zip("abc", dirs):
            g["p%s.direction_" % c] = enum("PortDirection", "In" if dd == "I" else "Out")
        w = "".join('«<p%s, "%s">»' % (c, "," if i < 2 else "") for i, c in enumerate(want))

        def chk(o, want=want):
            if o.kind == "throw":
                return "rejects"
            g = printed(o)
            m = re.findall(r'«<p(.), "(,?)">»', g)
            if "".join(x for x, _ in m) and sorted(x for x, _ in m) == list("abc") and len(re.sub(r'«<p(.), "(,?)">»', "", g)) == 0 and [y for _, y in m] == [",", ",", ""]:
                return None
            return "lists %s" % json.dumps(g, ensure_ascii=False)
        row(F, r, "module", ports, chk, ["!true pa.is_interface()", "!true pb.is_interface()", "!true pc.is_interface()"], given=gv(F, g), key="ports %s" % dirs, opaque=O, clue="every port once, separated by commas")
    g = {"$0.ports_": ("set", frozenset(("s", c) for c in "ab")), "$0.vars_": TP(("a", t("pa")), ("b", t("pb"))), "pa.direction_": enum("PortDirection", "In"), "pb.direction_": enum("PortDirection", "In"), "pb.interface_.name_": ("s", "bus"), "pa.interface_.name_": ("s", "bus")}
    prints(F, r, "module", ports, "«this.indent()»«pb.interface_.definition_.def_name()» bus,\n«<pa, \"\">»", ["!true pa.is_interface()", "true pb.is_interface()"], given=gv(F, g), key="interface port", opaque=O)
    prints(F, r, "module", ports, "«this.indent()»«pa.interface_.definition_.def_name()» bus\n", ["true pa.is_interface()", "true pb.is_interface()"], given=gv(F, g), key="two members of one interface", opaque=O)
    vd = F.one(CG + "generate_variables")
    for k in names(F, "VarType"):
        for itf in (False, True):
            prints(F, r, "module", vd, "«v»" if k == "Base" and not itf else "", ["!true this.options_.yosys_src", "%strue v.is_interface()" % ("" if itf else "!")], given=gv(F, {"$0.vars_": TP(("a", t("v"))), "v.type_": enum("VarType", k)}), key="%s%s" % (k, " of an interface" if itf else ""), opaque=O)
    # ---------------------------------------------------------------- module
    secs = ("module_package_import", "parameters", "ports", "enums", "variables", "interface", "functions")
    md = F.one(CG + "output_module_def")

    def module(o, pkg):
        if o.kind == "throw":
            return "rejects"
        tx = ""
        for e in o.st.eff:
            if e[0] == "call" and "generate_" in e[1]:
                tx += "<" + e[1].split("generate_")[-1] + ">"
            elif e[0] == "call" and e[1].endswith("dispatch_node"):
                tx += "<%s>" % text(e[2][0])
            elif e[0] == "out" and e[1] == "this.stream_":
                v = e[2]
                tx += "".join(p[1] if p[0] == "s" else "\n" if p == ("i", 10) else "«%s»" % text(p) for p in (v[1] if v[0] == "cat" else (v,))).replace("«this.indent()»", "")
        tx = re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", tx)).strip()
        head = "`include \"«this.options_.package_name».svh\" import «this.options_.package_name»::*; " if pkg else ""
        m = re.fullmatch(re.escape(head) + r"module «\$0\.name» ?<module_package_import> ?<parameters> ?\( ?<ports> ?\); ?((?:<\w+> ?)*)endmodule", tx)
        if not m:
            return "prints %s" % json.dumps(tx, ensure_ascii=False)
        parts = re.findall(r"<(\w+)>", m.group(1))
        if sorted(parts) != sorted(["enums", "variables", "interface", "functions", "s1", "s2"]):
            return "prints the parts %s" % parts
        at = parts.index
        if not (at("enums") < at("variables") < min(at("interface"), at("functions"), at("s1")) and at("s1") < at("s2")):
            return "prints the parts in the order %s" % parts
    for pkg in (True, False):
        row(F, r, "module", md, lambda o, pkg=pkg: module(o, pkg), ["%sempty this.options_.package_name" % ("!" if pkg else ""), "!true $0.debug"], given=gv(F, {"$0.stmts_": ("list", (t("s1"), t("s2")))}), key="with package" if pkg else "module", opaque=("dispatch_node", "indent") + tuple("generate_" + x for x in secs), clue="header, parameters, ports, declarations, statements, endmodule")
    prints(F, r, "module", CG + "generate_module_package_import", "\n«this.indent()»import a::*;\n«this.indent()»import b::*;\n", given=gv(F, {"$0.raw_package_imports_": L("a", "b")}), key="package imports", opaque=O)
    one_each = lambda q, n, what, tab, ty: row(F, r, "module", CG + q, lambda o: None if o.kind != "throw" and [text(e[2][-1]) for e in o.st.eff if e[0] == "call" and e[1].endswith(n)] == ["x1", "x2"] else "prints %s" % [text(e[2][-1]) for e in o.st.eff if e[0] == "call" and e[1].endswith(n)], given=gv(F, {tab: TP(("a", t("x1")), ("b", t("x2")))}), key="every " + what, opaque=(n,))
    one_each("generate_enums", "enum_code_", "enum", "$0.enums_", "")
    row(F, r, "module", CG + "generate_functions", lambda o: None if o.kind != "throw" and [text(e[2][-1]) for e in o.st.eff if e[0] == "call" and e[1].endswith("stmt_code")] == ["each($0.funcs_)#1"] else "skips functions", loops=(1,), key="every function", opaque=("stmt_code",))
    gi = F.one(CG + "generate_interface")
    for k in names(F, "StatementType"):
        row(F, r, "module", gi, lambda o, k=k: None if [text(e[2][-1]) for e in o.st.eff if e[0] == "call" and e[1].endswith("stmt_code")] == (["s1"] if k == "InterfaceInstantiation" else []) else "prints the wrong statements", given=gv(F, {"$0.stmts_": ("list", (t("s1"),)), "s1.type_": enum("StatementType", k)}), key="interface instances, %s" % k, opaque=("stmt_code",))
    # one text per distinct module
    uv = [f for f in F.all if f.name == "visit" and "UniqueGeneratorVisitor" in (f.cls or "")]
    if not uv:
        raise AnalysisError("anchor vanished: the visitor that collects the distinct modules")
    M = "this.generator_map_"
    for ext in (False, True):
        row(F, r, "module", uv[0], lambda o, ext=ext: None if [(k, text(v)) for k, v in puts(o, M)] == ([] if ext else [("$0.name", "$0")]) else "collects %s" % puts(o, M), ["!$0.name in " + M] + (["true $0.is_external_"] if ext else ["!true $0.is_external_", "empty $0.lib_files_"]), key="external" if ext else "new module", opaque=())
    row(F, r, "module", uv[0], lambda o: None if not puts(o, M) else "collects it again", ["$0.name in " + M], key="known module")
    gvf = select(F, "kratos::generate_verilog", lambda f: len(f.params) == 2)[0]
    for pkg in (True, False):
        want = ("generate_verilog_pkg" if pkg else "generate_verilog_no_pkg", ["$0", "$1"])
        row(F, r, "module", gvf, lambda o, want=want: None if o.kind != "throw" and [(e[1].split("::")[-1].split(".")[-1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call" and "generate_verilog" in e[1]] == [want] else "does not generate with the options given",
            ["%sempty $1.package_name" % ("!" if pkg else "")], key="options with%s package" % ("" if pkg else "out"), opaque=("generate_verilog_pkg", "generate_verilog_no_pkg"), clue="%s with the design and the options" % want[0])
    row(F, r, "module", "kratos::generate_verilog_pkg", {"throw"}, ["$1.package_name == $0.name"], key="package named like the module", loops=(0,), opaque=("generate_sv_package_header", "visit_generator_root", "track_generators", "output_pkg_debug_info", "join", "exists", "str", "generator_map", "kratos::SystemVerilogCodeGen::SystemVerilogCodeGen", "get_generators_by_name", "track_generated"))
    for at, want in (([], False), (["x"], False), (["yosys_src"], True), (["x", "yosys_src"], True), (["yosys_src", "x"], True)):
        g = {"this.generator_.attributes_": ("list", tuple(t("a%d" % i) for i in range(len(at)))), "this.options_.yosys_src": ("b", False)}
        for i, x in enumerate(at):
            g["a%d.value_str" % i], g["a%d.type_str" % i] = ("s", x), ("s", "note")
        row(F, r, "module", CG + "check_yosys_src", lambda o, want=want: None if o.kind != "throw" and text(final(o, "this.options_.yosys_src") or ("b", False)) == str(want).lower() else "sets %s" % text(final(o, "this.options_.yosys_src") or ("t", "nothing")),
            given=gv(F, g), key="attributes %s" % at, loops=(0, 1), clue="source positions are printed exactly when asked for")
    # ---------------------------------------------------------------- instances
    IN = "instance"
    mi = select(F, st, of("ModuleInstantiationStmt"))[0]
    io = O + ("generate_port_interface", "value_str")
    pq = {"$0.target_.params_": TP(("P", t("p")), ("Q", t("q")))}

    def inst(params):
        def check(o):
            if o.kind == "throw":
                return "rejects"
            g = re.sub(r"\s+", " ", printed(o).replace("«this.indent()»", " ")).strip()
            want = "«$0.target_.name» " + ("#( %s ) " % ", ".join(".%s(«%s.value_str()»)" % (n, v) for n, v in params) if params else "") + "«$0.target_.instance_name»"
            if re.sub(r"\s*([(),.#])\s*", r"\1", g) != re.sub(r"\s*([(),.#])\s*", r"\1", want):
                return "prints %s" % json.dumps(g, ensure_ascii=False)
            if calls(o, "generate_port_interface") != [["$0"]]:
                return "does not print its connections"
        return check
    diff = lambda v: ["null %s.parent_param_" % v, "true %s.initial_value_" % v, "!%s.initial_value_ == %s.value_" % (v, v), "!%s.param_type_ == ParamType::RawType" % v]
    same = lambda v: ["null %s.parent_param_" % v, "true %s.initial_value_" % v, "%s.initial_value_ == %s.value_" % (v, v), "!%s.param_type_ == ParamType::RawType" % v]
    linked = lambda v: ["!null %s.parent_param_" % v, "!%s.param_type_ == ParamType::RawType" % v, "%s.parent_param_.generator() == $0.generator_parent()" % v]
    b0 = QUIET + ["empty $0.comment"]
    for k, facts, ps in (("two changed parameters", diff("p") + diff("q"), [("P", "p"), ("Q", "q")]), ("one changed parameter", same("p") + diff("q"), [("Q", "q")]), ("unchanged parameters", same("p") + same("q"), []), ("linked parameter", linked("p") + same("q"), [("P", "p")]),
                         ("linked parameter with an equal value", linked("p") + ["true p.initial_value_", "p.initial_value_ == p.value_"] + same("q"), [("P", "p")])):
        row(F, r, IN, mi, inst(ps), b0 + facts, given=gv(F, pq), key=k, opaque=io + ("generator_parent",), clue="the module, %s and the instance" % ps)
    row(F, r, IN, mi, {"throw"}, b0 + ["!null p.parent_param_", "!p.param_type_ == ParamType::RawType", "!p.parent_param_.generator() == $0.generator_parent()"], given=gv(F, {"$0.target_.params_": TP(("P", t("p")))}), key="parameter of an unrelated module", opaque=io + ("generator_parent",))
    rw = ["null p.parent_param_", "!true p.initial_value_", "p.param_type_ == ParamType::RawType"]
    for k, facts, ps in (("changed type", ["true p.raw_str_value_", "true p.initial_raw_str_value_", "!p.initial_raw_str_value_ == p.raw_str_value_"], [("P", "p")]), ("unchanged type", ["true p.raw_str_value_", "true p.initial_raw_str_value_", "p.initial_raw_str_value_ == p.raw_str_value_"], []),
                         ("default type", ["!true p.raw_str_value_", "true p.initial_raw_str_value_"], []), ("type without default", ["true p.raw_str_value_", "!true p.initial_raw_str_value_"], [("P", "p")])):
        row(F, r, IN, mi, inst(ps), b0 + rw + facts, given=gv(F, {"$0.target_.params_": TP(("P", t("p")))}), key=k, opaque=io)
    ii = select(F, st, of("InterfaceInstantiationStmt"))[0]
    row(F, r, IN, ii, lambda o: None if o.kind != "throw" and printed(o) == "«this.indent()»«$0.interface_.definition_.def_name()» «$0.interface_.name_»" and calls(o, "generate_port_interface") == [["$0"]] else "prints %s" % printed(o), b0, key="interface instance", opaque=io)
    gp = F.one(CG + "generate_port_interface")
    pm = {"$0.port_mapping_": ("list", (("tup", (t("pb"), t("vb"))), ("tup", (t("pa"), t("va"))))), "pa.name": ("s", "a"), "pb.name": ("s", "b")}
    mode = "$0.instantiation_type() == InstantiationStmt::InstantiationType::"
    go = O + ("pre_indent", "to_string", "is_modport")

    def conns(want):
        def check(o):
            if o.kind == "throw":
                return "rejects"
            g = re.sub(r"«this\.(pre_)?indent\(\)»|\s", "", printed(o))
            m = re.fullmatch(r"\((.*)\);", g)
            if not m or sorted(m.group(1).split(",")) != sorted(want):
                return "connects %s" % json.dumps(g, ensure_ascii=False)
        return check
    for da in ("In", "Out"):
        for db in ("In", "Out"):
            g = gv(F, dict(pm, **{"pa.direction_": enum("PortDirection", da), "pb.direction_": enum("PortDirection", db)}))
            row(F, r, IN, gp, conns([".«pa.to_string()»(«va.to_string()»)", ".«pb.to_string()»(«vb.to_string()»)"]), QUIET + [mode + "Module", "!true pa.is_interface()", "!true pb.is_interface()"], given=g, key="module ports %s %s" % (da, db), opaque=go, clue="each port with its own connection")
    g = gv(F, dict(pm, **{"pa.direction_": enum("PortDirection", "In"), "pb.direction_": enum("PortDirection", "In")}))
    row(F, r, IN, gp, conns([".a(«va.name»)", ".b(«vb.name»)"]), QUIET + [mode + "Interface"], given=g, key="interface ports", opaque=go)
    prints(F, r, IN, gp, "();\n", given=gv(F, {"$0.port_mapping_": E0}), key="no ports", opaque=go)
    gi = gv(F, dict(pm, **{"pa.direction_": enum("PortDirection", "In"), "pb.direction_": enum("PortDirection", "In"), "pa.interface_.name_": ("s", "bus"), "pb.interface_.name_": ("s", "bus"), "va.base_name()": ("s", "wire"), "vb.base_name()": ("s", "wire")}))
    both = QUIET + [mode + "Module", "true pa.is_interface()", "true pb.is_interface()", "!null pa", "!null pb"]
    row(F, r, IN, gp, conns([".bus(wire)"]), both + ["!true pa.interface_.definition_.is_modport()", "!true pb.interface_.definition_.is_modport()"], given=gi, key="members of one interface connect it once", opaque=go + ("base_name",))
    gx = dict(gi)
    gx.update(gv(F, {"vb.base_name()": ("s", "other")}))
    for da in ("In", "Out", "InOut"):
        for db in ("In", "Out", "InOut"):
            gd = dict(gx)
            gd.update(gv(F, {"pa.direction_": enum("PortDirection", da), "pb.direction_": enum("PortDirection", db)}))
            row(F, r, IN, gp, {"throw"}, both + ["!true pa.interface_.definition_.is_modport()", "!true pb.interface_.definition_.is_modport()"], given=gd, key="members of two interfaces %s %s" % (da, db), opaque=go + ("base_name",))
    for k, facts, w in (("no interface", ["null I"], "wire"), ("the whole interface", ["!null I", "!true I.definition_.is_modport()"], "wire.mp"), ("the modport", ["!null I", "true I.definition_.is_modport()"], "wire")):
        gm = dict(gi)
        gm.update(gv(F, {"pa.interface_.definition_.name()": ("s", "mp"), "pb.interface_.definition_.name()": ("s", "mp"), 'va.generator().get_interface("wire")': t("I"), 'vb.generator().get_interface("wire")': t("I")}))
        row(F, r, IN, gp, conns([".bus(%s)" % w]), both + ["true pa.interface_.definition_.is_modport()", "true pb.interface_.definition_.is_modport()"] + facts, given=gm, key="modport connected to " + k, opaque=go + ("base_name", "get_interface"))
    row(F, r, IN, gp, {"throw"}, both + ["!true pa.interface_.definition_.is_modport()", "!true pb.interface_.definition_.is_modport()"], given=gx, key="members of two interfaces", opaque=go + ("base_name",))
    # ---------------------------------------------------------------- interface definitions and packages
    xi = F.one("kratos::extract_interface_info")
    xo = ("visit_generator_root_p", "interfaces", "get_port_str", "get_var_decl", "port", "var", "is_modport", "ports", "vars", "inputs", "outputs")
    g = {"InterfaceVisitor().interfaces()": TP(("bus", ("tup", (t("g"), t("i"))))), "i.definition_.ports()": L("p", "q"), "i.definition_.vars()": L("v"), "i.definition_.mod_ports_": TP(("m", t("mp"))), "mp.inputs()": L("p"), "mp.outputs()": L("q"), "mp.ports()": L("p", "q")}
    def itf(want):
        def check(o):
            v = o.val
            if o.kind != "ret" or v[0] != "list" or len(v[1]) != 1 or v[1][0][1][0] != ("s", "bus"):
                return "yields %s" % outcome(o)[:300]
            if re.sub(r"\s+", " ", tmpl(v[1][0][1][1])).strip() != want:
                return "prints %s" % json.dumps(re.sub(r"\s+", " ", tmpl(v[1][0][1][1])), ensure_ascii=False)
        return check
    pt, vt = "«SystemVerilogCodeGen::get_port_str(i.port(\"%s\"))»", "«Stream::get_var_decl(i.var(\"%s\"))»;"
    nm_ = ["!true i.definition_.is_modport()"]
    row(F, r, "module", xi, itf("interface bus( %s, %s ); %s modport m(input p, output q); endinterface" % (pt % "p", pt % "q", vt % "v")), nm_, given=gv(F, g), key="interface definition", opaque=xo)
    row(F, r, "module", xi, itf("interface bus; %s modport m(input p, output q); endinterface" % (vt % "v")), nm_, given=gv(F, dict(g, **{"i.definition_.ports()": E0})), key="interface without ports", opaque=xo)
    row(F, r, "module", xi, {"[]"}, ["true i.definition_.is_modport()"], given=gv(F, g), key="a modport is not an interface", opaque=xo)
    row(F, r, "module", xi, {"throw"}, nm_, given=gv(F, dict(g, **{"mp.ports()": E0})), key="empty modport", opaque=xo)
    pk = F.one("kratos::generate_sv_package_header")
    ko = tuple("extract_" + x for x in ("struct_info", "dpi_function", "enum_info", "interface_info")) + ("get_tokens",)
    infos = {"extract_struct_info($0)": "S", "extract_dpi_function($0, true)": "D", "extract_enum_info($0)": "E", "extract_interface_info($0)": "I"}
    g = {k: TP(("k", t("def" + v))) for k, v in infos.items()}
    for v in "SDEI":
        g['get_tokens(def%s, "\\n")' % v] = L("%s1" % v, "%s2" % v)
        g['string::get_tokens(def%s, "\\n")' % v] = L("%s1" % v, "%s2" % v)
    for guard in (True, False):
        def pkg(o, guard=guard):
            if o.kind != "ret" or o.val[0] not in ("tup", "list"):
                return "yields %s" % outcome(o)[:200]
            outs = [x for e in o.st.eff if e[0] == "out" for x in (e[2][1] if e[2][0] == "cat" else (e[2],))]
            tx = re.sub(r"\n+", "\n", "".join(x[1] if x[0] == "s" else "\n" if x == ("i", 10) else "«%s»" % text(x) for x in outs))
            m = re.fullmatch(r"%spackage «\$1»;\n((?:[SDEI][12]\n)*)endpackage\n%s" % (r"`ifndef (.*)\n`define (.*)\n" if guard else "()()", "`endif\n" if guard else ""), tx)
            if not m:
                return "prints %s" % json.dumps(tx, ensure_ascii=False)
            if m.group(1) != m.group(2):
                return "tests one macro and defines another"
            b = m.group(3).split()
            if sorted(b) != sorted(x + n for x in "SDEI" for n in "12") or any(b.index(x + "2") != b.index(x + "1") + 1 for x in "SDEI"):
                return "prints the definitions %s" % b
        row(F, r, "module", pk, pkg, given=gv(F, g), args={2: ("b", guard)}, key="package%s" % (" with guard" if guard else ""), opaque=ko, clue="every definition once between package and endpackage")


def variant(F):
    return F
