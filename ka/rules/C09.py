"""Every variable's record of the assignments that drive it and read it is exact."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select

K = "kratos::"
t = lambda x: ("t", x)
L = lambda *xs: ("list", tuple(t(x) for x in xs))
REC = ("add_sink", "add_source", "remove_sink", "remove_source", "clear_sinks", "clear_sources")
INV = {"add_sink": "remove_sink", "add_source": "remove_source"}

# class -> method -> the records it must reach (None: not a legal target, the call rejects)
P = "this.parent_var"
TOUCH = {
    "Var": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "Port": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "EnumVar": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "EnumPort": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "VarPackedStruct": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "PortPackedStruct": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "InterfacePort": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "IterVar": {"add_sink": {"this.sinks_"}, "add_source": {"this.sources_"}},
    "VarSlice": {"add_sink": {P + " sink"}, "add_source": {P + " source"}},
    "PackedSlice": {"add_sink": {P + " sink"}, "add_source": {P + " source"}},
    "VarVarSlice": {"add_sink": {P + " sink", "this.sliced_var_ sink"}, "add_source": {P + " source", "this.sliced_var_ sink"}},
    "VarCasted": {"add_sink": {"this.parent_var_ sink"}, "add_source": {"this.parent_var_ source"}},
    "ModportPort": {"add_sink": {"this.var_ sink"}, "add_source": {"this.var_ source"}},
    "Expr": {"add_sink": {"this.left sink", "this.right sink"}},
    "VarConcat": {"add_sink": {"v0 sink", "v1 sink", "v2 sink"}, "add_source": {"v0 source", "v1 source", "v2 source"}},
    "VarExtend": {"add_sink": {"this.left sink"}, "add_source": None},
    "VarDuplicated": {"add_sink": {"this.left sink"}, "add_source": None},
    "ConditionalExpr": {"add_sink": {"this.condition sink", "this.left sink", "this.right sink"}},
    "FunctionCallVar": {"add_sink": {"v0 sink", "v1 sink", "v2 sink"}, "add_source": None},
    "Const": {"add_sink": set(), "add_source": None},
    "EnumConst": {"add_sink": set(), "add_source": None},
    "Param": {"add_sink": set(), "add_source": None},
}
LST = {"this.vars_": L("v0", "v1", "v2"), "this.args_": ("list", tuple(("tup", (("s", "a%d" % i), t("v%d" % i))) for i in range(3)))}


def body_of(F, cls, m):
    root = F.one(K + "Var::" + m)
    x = F.resolve(K + cls, root.fid)
    return x if isinstance(x, Func) else F.funcs.get(x) or root


def touched(o, m, arg="$0"):
    """the records one call of add_*/remove_* reaches on this path"""
    verb = m.split("_")[0]
    out = []
    for e in o.st.eff:
        if e[0] != "call":
            continue
        n = e[1].split(".")[-1]
        own = e[1][:-len(n) - 1]
        if n in REC and n.startswith(verb):
            if [text(x) for x in e[2]] != [arg]:
                return "passes %s on" % [text(x) for x in e[2]]
            out.append("%s %s" % (own, n.split("_")[1]))
        elif own in ("this.sinks_", "this.sources_"):
            if n in (("emplace", "insert") if verb == "add" else ("erase", "extract")) and [text(x) for x in e[2]] == [arg]:
                out.append(own)
            elif n not in ("find", "count", "end", "begin", "contains"):
                return "%s %s on %s" % (n, [text(x) for x in e[2]], own)
    return out


def run(F, r, tier):
    r.rule("record", "recording an assignment reaches exactly the variables the operand is made of", 30)
    r.rule("erase", "removing an assignment reaches everything recording it reached", 30)
    r.rule("attach", "a statement records its operands once, when it joins a design", 8)
    r.rule("detach", "a statement or instance that goes away leaves no record behind", 14)
    r.rule("move", "moving uses or definitions re-targets every matching statement and moves its record", 20)
    r.rule("ask", "connectivity questions are answered from the records", 12)
    # ------------------------------------------------------------- record / erase
    for f in F.all:
        if f.name in REC and f.body is not None and (f.cls or "").startswith(K) and short(f.cls) not in TOUCH:
            r.ob("record", "%s has a table" % f.q, False, f.loc(), "%s keeps records for a kind of variable that has no rule" % f.sig())
    for c, tb in TOUCH.items():
        if K + c not in F.classes:
            raise AnalysisError("anchor vanished: class %s" % c)
        for m, want in tb.items():
            opaque = tuple(x for x in REC) + ("generator", "has_function", "add_function", "add_call_var", "const_gen")
            g = gv(F, LST)
            for wh, tag in (((["!null this.right"], "binary"), (["null this.right"], "unary")) if c == "Expr" else (([], ""),)):
                w = want if tag != "unary" else {"this.left sink"}
                f = body_of(F, c, m)
                if w is None:
                    row(F, r, "record", f, {"throw"}, wh, key="%s %s" % (c, m), given=g, opaque=opaque)
                    continue

                def check(o, m=m, w=w):
                    if o.kind == "throw":
                        return None if not w else "rejects"
                    x = touched(o, m)
                    if isinstance(x, str):
                        return x
                    return None if set(x) == w else "reaches %s" % sorted(set(x))
                row(F, r, "record", f, check, wh, key="%s %s %s" % (c, m, tag), given=g, opaque=opaque, clue="records at %s" % sorted(w))
                if not w:
                    continue
                inv = INV[m]
                f = body_of(F, c, inv)

                def undo(o, m=inv, w=w):
                    if o.kind == "throw":
                        return "rejects"
                    x = touched(o, m)
                    if isinstance(x, str):
                        return x
                    # a removal that reaches further is harmless: nothing is recorded there
                    return None if w <= set(x) else "does not reach %s" % sorted(w - set(x))
                row(F, r, "erase", f, undo, wh, key="%s %s %s" % (c, inv, tag), given=g, opaque=opaque, clue="removes at %s" % sorted(w))
    # accessors of wrappers answer from the wrapped variable
    for c, own in (("VarCasted", "this.parent_var_"), ("ModportPort", "this.var_")):
        for m in ("sinks", "sources"):
            f = body_of(F, c, m)
            row(F, r, "ask", f, lambda o, own=own, m=m: None if o.kind == "ret" and text(o.val) in ("%s.%s()" % (own, m), "%s.%s_" % (own, m)) else "yields %s" % outcome(o), key="%s %s" % (c, m), clue="those of the wrapped variable", opaque=("sinks", "sources"))
        for m in ("clear_sinks", "clear_sources", "move_linked_to"):
            f = body_of(F, c, m)
            row(F, r, "detach", f, lambda o, own=own, m=m: None if [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "call" and e[1] == own + "." + m] == [["$0"]] else "does not pass it on", key="%s %s" % (c, m),
                clue="passed on to the wrapped variable", opaque=("clear_sinks", "clear_sources", "move_linked_to"))
    for m in ("sinks", "sources"):
        row(F, r, "ask", body_of(F, "Var", m), {"this.%s_" % m}, key="Var %s" % m)
    # ------------------------------------------------------------- attach
    A = "kratos::AssignStmt::"

    def recs(o, arg="this"):
        return sorted("%s" % e[1] for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1] in REC and [text(x) for x in e[2]] == [arg])

    row(F, r, "attach", A + "set_parent", lambda o: None if recs(o) == ["this.left_.add_source", "this.right_.add_sink"] else "records %s" % recs(o), ["null this.parent_", "!null $0"], opaque=REC, key="joins a design", clue="a use of the right side and a definition of the left side, once each")
    row(F, r, "attach", A + "set_parent", lambda o: None if recs(o) == [] else "records %s" % recs(o), ["!null this.parent_"], opaque=REC, key="moves inside a design", clue="no new records")
    row(F, r, "attach", A + "set_parent", lambda o: None if text(final(o, "this.parent_")) == "$0" else "parent becomes %s" % text(final(o, "this.parent_")), opaque=REC, key="parent", clue="parent is the one given")
    AX = ("get_auxiliary_var", "assign", "set_parent", "clear", "generator", "remove_stmt", "width")

    def aux(o, pred, slot, fresh):
        """the condition is read by an assignment that belongs to the statement; the previous one is gone first"""
        if o.kind == "throw":
            return None if not fresh else None
        seq = [(e[1], [text(x) for x in e[2]]) for e in o.st.eff if e[0] == "call"]
        v = final(o, slot)
        if v is None:
            return "keeps the old condition"
        v = text(v)
        own = v.split(".get_auxiliary_var(")[0]
        if ".get_auxiliary_var(" not in v or not v.endswith(".assign(%s)" % pred) or own not in (pred + ".generator()", pred + ".generator_"):
            return "reads the condition through %s" % v
        if (v + ".set_parent", ["this"]) not in seq:
            return "never attaches the reading assignment"
        if not fresh:
            cl = [i for i, x in enumerate(seq) if x[0] == slot + ".clear"]
            st = [i for i, e in enumerate(o.st.eff) if e[0] == "store" and e[1] == slot]
            ci = [i for i, e in enumerate(o.st.eff) if e[0] == "call" and e[1] == slot + ".clear"]
            if len(cl) != 1 or not st or ci[0] > st[0]:
                return "does not detach the previous condition"
    GA, AV = "kratos::Generator::get_auxiliary_var", "this.auxiliary_vars_"

    def newaux(o):
        v = o.val
        if o.kind == "throw" or v is None or not text(v).startswith("new Var(this, "):
            return "yields %s" % outcome(o)
        a = [x.strip() for x in text(v)[len("new Var(this, "):-1].split(",")]
        if len(a) < 3 or a[1] != "$0" or a[2] not in ("1", "[1]", "{1}"):
            return "yields %s, not one variable of the given width" % text(v)
        if [(k, text(x)) for k, x in puts(o, AV)] != [("$0", text(v))]:
            return "remembers %s" % [(k, text(x)) for k, x in puts(o, AV)]
    row(F, r, "attach", GA, newaux, ["!$0 in " + AV], key="first reader of a width", clue="a variable of that width")
    row(F, r, "attach", GA, {AV + "[$0]"}, ["$0 in " + AV], key="reader of a width", clue="the remembered variable")
    IA = "kratos::Generator::is_auxiliary_var"
    for k, tab, want in (("no other", {}, False), ("itself", {4: "v"}, True), ("another of its width", {4: "w"}, False), ("itself, of another width", {5: "v"}, False)):
        d = {"this": {"auxiliary_vars": tab}, "v": {"width": 4, "width()": 4, "generator": "this", "generator()": "this"}, "w": {"width": 4, "width()": 4, "generator": "this", "generator()": "this"}}
        row(F, r, "attach", IA, {"true" if want else "false"}, args={0: ("e", "v")}, given=world(F, d), key="reader of a condition: " + k, opaque=("width",))
    for f in select(F, "kratos::IfStmt::IfStmt", None):
        row(F, r, "attach", f, lambda o: aux(o, "$0", "this.predicate_stmt_", True), opaque=AX, key="condition", clue="the condition is recorded as read")
    row(F, r, "attach", "kratos::IfStmt::set_predicate", lambda o: aux(o, "$0", "this.predicate_stmt_", False), ["$0.ast_node_type_ == VarKind"], opaque=AX, key="new condition", clue="the old condition is released and the new one recorded")
    row(F, r, "attach", "kratos::SwitchStmt::set_target", lambda o: aux(o, "$0", "this.target_stmt_", False), opaque=AX, key="new target", clue="the old target is released and the new one recorded")
    for f in select(F, "kratos::SwitchStmt::SwitchStmt", None):
        row(F, r, "attach", f, lambda o: aux(o, "$0", "this.target_stmt_", True), ["!$0.type_ == VarType::ConstValue"], opaque=AX, key="target", clue="the target is recorded as read")
    for f, loc in (("kratos::IfStmt::set_predicate", "this.predicate_"), ("kratos::SwitchStmt::set_target", "this.target_")):
        row(F, r, "attach", f, lambda o, loc=loc: None if o.kind == "throw" or text(final(o, loc)) == "$0" else "%s becomes %s" % (loc, text(final(o, loc))), opaque=AX, key="value", clue="becomes the one given")
    # ------------------------------------------------------------- detach
    row(F, r, "detach", A + "clear", lambda o: None if recs(o) == ["this.left_.remove_source", "this.right_.remove_sink"] and final(o, "this.parent_") == ("null",) else "removes %s, parent %s" % (recs(o), text(final(o, "this.parent_")) if final(o, "this.parent_") else "kept"),
        opaque=REC, key="assignment", clue="both records go and the statement can join again")
    KIDS = {"IfStmt": ({}, {"this.predicate_stmt_", "this.then_body_", "this.else_body_"}), "SwitchStmt": ({"this.body_": ("list", (("tup", (t("k0"), t("s0"))), ("tup", (t("k1"), t("s1")))))}, {"this.target_stmt_", "s0", "s1"}),
            "ForStmt": ({}, {"this.loop_body_"}), "StmtBlock": ({"this.stmts_": L("s0", "s1", "s2")}, {"s0", "s1", "s2"})}
    for c, (g, want) in KIDS.items():
        def cl(o, want=want):
            if o.kind == "throw":
                return "rejects"
            got = {e[1].rsplit(".", 1)[0] for e in o.st.eff if e[0] == "call" and e[1].endswith(".clear") and not e[1].startswith(("this.stmts_.", "["))}
            return None if got == want else "clears %s" % sorted(got)
        row(F, r, "detach", K + c + "::clear", cl, given=gv(F, g), opaque=("clear",), key="%s clears what it holds" % c, clue="clears %s" % sorted(want))
    row(F, r, "detach", K + "StmtBlock::clear", lambda o: None if any(e[0] == "call" and e[1] == "this.stmts_.clear" for e in o.st.eff) or (final(o, "this.stmts_") or ("",))[0] == "list" and not final(o, "this.stmts_")[1] else "keeps its statements", opaque=("clear",), key="empties the block", clue="holds no statement afterwards")
    for nm, tb, own in (("clear_sources", "this.sources_", "sources"), ("clear_sinks", "this.sinks_", "sinks")):
        f = body_of(F, "Var", nm)
        for rm in (True, False):
            def cs(o, rm=rm, tb=tb):
                if o.kind == "throw":
                    return "rejects"
                got = [e[1].rsplit(".", 1)[0] for e in o.st.eff if e[0] == "call" and e[1].endswith(".remove_from_parent")]
                must = [s for s in ("s0", "s1") if not (tb == "this.sinks_" and (assumed(o, "null", s + ".parent_") or assumed(o, "truth", s + ".parent_", "", False)))]
                if rm and got != must or not rm and got:
                    return "takes %s out of their parents" % got
                e = [i for i, x in enumerate(o.st.eff) if x[0] == "call" and x[1].endswith(".clear")]
                v = final(o, tb)
                if not e and not (v is not None and v[0] == "list" and not v[1]):
                    return "keeps its records"
            row(F, r, "detach", f, cs, ["true $0" if rm else "!true $0"], given=gv(F, {tb: L("s0", "s1")}), opaque=("remove_from_parent",), key="%s %s" % (nm, "with statements" if rm else "alone"), clue="no record remains" + ("; each statement leaves its parent" if rm else ""))

    def un(o):
        got = sorted(e[1] for e in o.st.eff if e[0] == "call" and (e[1].split(".")[-1] in REC or e[1].endswith(".erase")) and [text(x) for x in e[2]] == ["$0"])
        if got != ["$0.left_.remove_source", "$0.right_.remove_sink"]:
            return "undoes %s" % got
        if [x for e, x in ((e[1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call" and e[1].endswith(".remove_stmt"))] != [["$0"]]:
            return "leaves the statement in the design"
    row(F, r, "detach", K + "Var::unassign", un, opaque=REC + ("remove_stmt", "generator"), key="unassign", clue="both records go and the statement leaves the module")
    # an instance that is removed takes its connections with it
    G = K + "Generator::"
    pv = '$0.get_port("p")'
    base = {"$0.get_port_names()": ("list", (("s", "p"),)), pv: t("P"), "P.sources()": L("a0", "a1"), "P.sinks()": L("b0", "b1"), "P.sources_": L("a0", "a1"), "P.sinks_": L("b0", "b1")}
    OPR = REC + ("unassign", "remove_stmt_from_parent", "remove_stmt", "get_port_names", "get_port", "has_child_generator", "remove_from_parent")
    for d, want in (("In", {"a0", "a1"}), ("Out", {"b0", "b1"}), ("InOut", {"a0", "a1", "b0", "b1"})):
        def gone(o, want=want):
            if o.kind == "throw":
                return "rejects"
            off = {text(e[2][0]) for e in o.st.eff if e[0] == "call" and e[1].endswith(".unassign")}
            out = {text(e[2][0]) for e in o.st.eff if e[0] == "call" and (e[1].endswith("remove_stmt_from_parent") or e[1].endswith(".remove_stmt"))} | {e[1].rsplit(".", 1)[0] for e in o.st.eff if e[0] == "call" and e[1].endswith(".remove_from_parent")}
            if off != want:
                return "releases the connections %s" % sorted(off)
            if out != want:
                return "takes the statements %s out" % sorted(out)
            if final(o, "$0.parent_generator_") != ("null",):
                return "leaves the instance attached to its old parent"
            er = {e[1]: text(e[2][0]) for e in o.st.eff if e[0] == "call" and e[1].startswith("this.children_") and e[1].endswith(".erase")}
            if er.get("this.children_.erase") != "$0.instance_name" or "this.children_names_.erase" not in er:
                return "stays in the tables of instances"
        row(F, r, "detach", G + "remove_child_generator", gone, ["true this.has_child_generator($0)", "$0.instance_name in this.children_names_", "P.direction_ == PortDirection::" + d, "P.port_direction() == PortDirection::" + d], given=gv(F, base), opaque=OPR, key="%s port of a removed instance" % d,
            clue="every connecting assignment is released and removed")
    g = gv(F, {"this.stmts_": L("s0", "s1")})
    for flip in (False, True):
        a, b = ("&$0", "&$1") if not flip else ("&$1", "&$0")

        def unw(o):
            got = sorted(e[1] for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1] in REC)
            rm = [[text(y) for y in e[2]] for e in o.st.eff if e[0] == "call" and e[1].endswith(".remove_stmt") or e[0] == "call" and e[1] == "this.stmts_.erase"]
            if got != ["s1.left_.remove_source", "s1.right_.remove_sink"] or rm != [["s1"]]:
                return "undoes %s and removes %s" % (got, rm)
        row(F, r, "detach", G + "unwire", unw, ["!s0.type_ == StatementType::Assign", "s1.type_ == StatementType::Assign", "s1.left_ == " + a, "s1.right_ == " + b, "!null s1"] + ([] if not flip else ["!s1.left_ == &$0", "!s1.right_ == &$1"]), given=g, opaque=REC + ("remove_stmt",),
            key="unwire %s" % ("reversed" if flip else "as written"), clue="the connecting assignment loses both records and leaves the module")
    moves(F, r)
    asks(F, r)


def moves(F, r):
    O = REC + ("change_var_parent", "set_slice_var_parent", "change_var_expr", "change_cast_parent", "stmt_set_left", "stmt_set_right", "generator_parent", "assign", "add_stmt", "parametrized", "width_param", "set_width_param", "move_linked_to", "replace_var", "set_left", "set_right", "set_parent", "slice_var", "generator")
    for nm, table, setter, rec, clear in (("move_src_to", "sources", "stmt_set_left", "add_source", "clear_sources"), ("move_sink_to", "sinks", "stmt_set_right", "add_sink", "clear_sinks")):
        for keep in (True, False):
            g = gv(F, {"$0.%s()" % table: L("s0", "s1", "s2"), "$0.%s_" % table: L("s0", "s1", "s2")})
            when = ["!$0.type_ == VarType::Expression", "!$0.type_ == VarType::ConstValue", "s0.generator_parent() == $2", "!s1.generator_parent() == $2", "s2.generator_parent() == $2", "!true $2.debug", "true $3" if keep else "!true $3"]

            def mv(o, keep=keep, setter=setter, rec=rec, clear=clear, table=table):
                if o.kind == "throw":
                    return "rejects"
                st = calls(o, setter)
                if st != [["s0", "$0", "$1"], ["s2", "$0", "$1"]]:
                    return "re-targets %s" % st
                rc = [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "call" and e[1] == "$1." + rec]
                if rc != [["s0"], ["s2"]]:
                    return "records %s with the new variable" % rc
                ci = [i for i, e in enumerate(o.st.eff) if e[0] == "call" and e[1] == "$0." + clear]
                if len(ci) != 1 or text(o.st.eff[ci[0]][2][0]) not in ("false", "0"):
                    return "does not just forget the old records"
                links = [(e[1].rsplit(".", 1)[0], [text(x) for x in e[2]][0]) for e in o.st.eff if e[0] == "call" and e[1].endswith(".assign")]
                adds = calls(o, "add_stmt")
                want = [("$0", "$1")] if table == "sources" else [("$1", "$0")]
                if links != (want if keep else []):
                    return "keeps them connected by %s" % links
                if len(adds) != (1 if keep else 0):
                    return "adds %d statements" % len(adds)
            row(F, r, "move", K + "Var::" + nm, mv, when, given=g, opaque=O, loops=(3,), key="%s%s" % (nm, ", connected" if keep else ""), clue="each statement of that module is re-targeted and recorded with the new variable; the old one forgets; kept connected when asked")
        for k in ("Expression", "ConstValue"):
            row(F, r, "move", K + "Var::" + nm, {"throw"}, ["$0.type_ == VarType::" + k], opaque=O, key="%s of a %s" % (nm, k))
    # one statement
    for fn, side, setter in (("stmt_set_left", "left", "set_left"), ("stmt_set_right", "right", "set_right")):
        s = "$0.%s_" % side
        for k in ("Base", "PortIO"):
            def setit(o, setter=setter, s=s):
                if o.kind == "throw":
                    return "rejects"
                got = calls(o, setter) or ([[text(final(o, s))]] if final(o, s) is not None else [])
                return None if [x[0] for x in got] == ["$2"] else "re-targets to %s" % got
            row(F, r, "move", K + fn, setit, ["%s.type_ == VarType::%s" % (s, k), s + " == $1"], opaque=O, key="%s plain %s" % (side, k), clue="the operand becomes the new variable")
            row(F, r, "move", K + fn, {"throw"}, ["%s.type_ == VarType::%s" % (s, k), "!%s == $1" % s], opaque=O, key="%s other %s" % (side, k))
        for k, to in (("Slice", {"set_slice_var_parent", "change_var_parent"}), ("Expression", {"change_var_expr", "change_var_parent"}), ("BaseCasted", {"change_cast_parent", "change_var_parent"})):
            def goes(o, to=to, s=s):
                if o.kind == "throw":
                    return "rejects"
                got = [e for e in o.st.eff if e[0] == "call" and e[1].split("::")[-1].split(".")[-1] in to]
                if len(got) != 1 or [text(x) for x in got[0][2]][:3] != [s, "$1", "$2"]:
                    return "hands on %s" % [(e[1], [text(x) for x in e[2]]) for e in got]
            row(F, r, "move", K + fn, goes, ["%s.type_ == VarType::%s" % (s, k)], opaque=O, key="%s %s" % (side, k), clue="the operand is searched for the old variable", produce=True)
    for k, to in (("Slice", "set_slice_var_parent"), ("Expression", "change_var_expr"), ("BaseCasted", "change_cast_parent")):
        row(F, r, "move", K + "change_var_parent", lambda o, to=to: None if [x[:3] for x in calls(o, to)] == [["$0", "$1", "$2"]] else "hands on %s" % calls(o, to), ["$0.type_ == VarType::" + k], opaque=tuple(x for x in O if x != "change_var_parent"), key=k, clue="searched as a " + k)
    row(F, r, "move", K + "change_cast_parent", lambda o: None if text(final(o, "$0.parent_var_")) == "$2" else "casts %s" % text(final(o, "$0.parent_var_")), ["$0.parent_var_ == $1"], opaque=O, key="cast of the variable", clue="casts the new variable")
    row(F, r, "move", K + "change_cast_parent", lambda o: None if calls(o, "change_var_parent") and [x[:3] for x in calls(o, "change_var_parent")] == [["$0.parent_var_", "$1", "$2"]] else "hands on %s" % calls(o, "change_var_parent"), ["!$0.parent_var_ == $1"], opaque=O, key="cast of something else", clue="searched further")
    # slices of slices are rebuilt on the new variable, innermost first
    S = "VarType::Slice"
    for n in (1, 2, 3):
        chain = ["$0"] + ["p%d" % i for i in range(n)]
        when = ["%s.type_ == %s" % (c, S) for c in chain[:-1]] + ["!%s.type_ == %s" % (chain[-1], S)] + ["!null " + c for c in chain] + ["!null $2", "!$2 == " + chain[-1]]
        gx = {"%s.parent_var" % chain[i]: ("e", chain[i + 1]) for i in range(n)}

        def rebuilt(o, chain=chain, n=n):
            if o.kind == "throw":
                return "rejects"
            w = "$2"
            for c in reversed(chain[:-1]):
                w = "%s.slice_var(%s)" % (c, w)
            v = final(o, "$0")
            return None if v is not None and text(v) == w else "becomes %s" % (text(v) if v is not None else "unchanged")
        row(F, r, "move", K + "set_slice_var_parent", rebuilt, when, given=gv(F, gx), args={1: ("e", chain[-1])}, opaque=O, loops=(0, 1, 2, 3), key="%d slices deep" % n, clue="the same slices of the new variable")
        row(F, r, "move", K + "set_slice_var_parent", {"throw"}, when + ["true $3"], given=gv(F, gx), args={1: ("e", "other")}, opaque=O, loops=(0, 1, 2, 3), key="%d slices of another variable" % n)
        row(F, r, "move", K + "set_slice_var_parent", lambda o: None if o.kind != "throw" and final(o, "$0") is None else "changes it", when + ["!true $3"], given=gv(F, gx), args={1: ("e", "other")}, opaque=O, loops=(0, 1, 2, 3), key="%d slices of another variable, tolerated" % n, clue="left alone")
    for n in (1, 2):
        chain = ["$0"] + ["p%d" % i for i in range(n - 1)] + ["new"]
        row(F, r, "move", K + "set_slice_var_parent", lambda o: "rejects" if o.kind == "throw" else None, ["%s.type_ == %s" % (c, S) for c in chain[:-1]] + ["!new.type_ == " + S] + ["!null " + c for c in chain] + ["true $3", "!null old"],
            given=gv(F, {"%s.parent_var" % chain[i]: ("e", chain[i + 1]) for i in range(n)}), args={1: ("e", "old"), 2: ("e", "new")}, opaque=O, loops=(0, 1, 2, 3), key="%d slices that moved already" % n, clue="accepted")
    # expressions: every operand of every kind
    def operand(o, loc, kind):
        if o.kind == "throw":
            return "rejects"
        if kind == "itself":
            v = final(o, loc)
            return None if v is not None and text(v) == "$2" else "keeps the old variable as %s" % loc
        if kind in ("Slice", "BaseCasted"):
            at, want = (loc, loc + ".slice_var($2)") if kind == "Slice" else (loc + ".parent_var_", "$2")
            v = final(o, at)
            return None if v is not None and text(v) == want else "%s becomes %s" % (at, text(v) if v is not None else "unchanged")
        to = ("change_var_expr", "change_var_parent")
        got = [[text(x) for x in e[2]][:3] for e in o.st.eff if e[0] == "call" and e[1].split("::")[-1].split(".")[-1] in to]
        return None if [loc, "$1", "$2"] in got else "never searches %s" % loc
    OX = tuple(x for x in O if x not in ("change_operand",))
    # the operands of a concatenation, wherever they stand
    for i in range(3):
        for kind in ("itself", "Slice", "Expression", "BaseCasted"):
            v = "v%d" % i
            g = {"$0.vars_": ("list", tuple(t("v%d" % j) for j in range(3)))}
            when = ["$0.op == ExprOp::Concat", "!null $0.right", "!null $1", "!null $2", "!$1 == $2"]
            oth = [j for j in range(3) if j != i]
            if kind == "itself":
                when += [v + " == $1", v + ".type_ == VarType::Base"]
            else:
                when += ["%s.type_ == VarType::%s" % (v, kind), "!%s == $1" % v]
            for j in oth:
                when += ["!v%d == $1" % j, "v%d.type_ == VarType::Base" % j]
            if kind == "Slice":
                when += ["!$1.type_ == VarType::Slice", "!null " + v, v + ".slice_var($2).type_ == VarType::Slice"]
                g[v + ".parent_var"] = t("$1")
            if kind == "BaseCasted":
                when += [v + ".parent_var_ == $1"]

            def cc(o, v=v, i=i, kind=kind):
                if o.kind == "throw":
                    return "rejects"
                if kind == "BaseCasted":
                    x = final(o, v + ".parent_var_")
                    return None if x is not None and text(x) == "$2" else "the cast keeps the old variable"
                if kind == "Expression":
                    return None if [v, "$1", "$2"] in [x[:3] for x in calls(o, "change_var_expr")] else "never searches operand %d" % i
                L = final(o, "$0.vars_")
                want = ["v0", "v1", "v2"]
                want[i] = "$2" if kind == "itself" else v + ".slice_var($2)"
                if L is None or L[0] != "list" or [text(x) for x in L[1]] != want:
                    return "operands become %s" % (text(L) if L is not None else "unchanged")
            row(F, r, "move", K + "change_var_expr", cc, when + ["$0.left.type_ == VarType::Base", "$0.right.type_ == VarType::Base", "!$0.left == $1", "!$0.right == $1"], given=gv(F, g), opaque=tuple(x for x in O if x not in ("set_slice_var_parent", "change_cast_parent")), recur=2, loops=(3,), key="Concat operand %d %s" % (i, kind), clue="the operand follows the move")
    for op in ("Conditional", "Add"):
        for pos in ("left", "right") + (("condition",) if op == "Conditional" else ()):
            loc = "$0." + pos
            for kind in ("itself", "Slice", "Expression", "BaseCasted"):
                when = ["$0.op == ExprOp::" + op, "!null $0.right", "!null $1", "!null $2", "!$1 == $2", "!$2.type_ == VarType::Slice", "!$2.type_ == VarType::BaseCasted"]
                for q in ("left", "right", "condition"):
                    if q != pos:
                        when += ["!$0.%s == $1" % q, "$0.%s.type_ == VarType::Base" % q]
                if kind == "Slice":
                    when += ["!$1.type_ == VarType::Slice", "!null " + loc, loc + ".slice_var($2).type_ == VarType::Slice", "!null %s.slice_var($2)" % loc]
                if kind == "BaseCasted":
                    when += [loc + ".parent_var_ == $1"]
                if kind == "itself":
                    when += ["%s == $1" % loc, "%s.type_ == VarType::Base" % loc, "$2.type_ == VarType::Base"]
                else:
                    when += ["%s.type_ == VarType::%s" % (loc, kind), "!%s == $1" % loc]
                def follows(o, loc=loc, kind=kind):
                    m = operand(o, loc, kind)
                    if m:
                        return m
                    if not any(e[0] == "call" and e[1] == "$0.set_parent" for e in o.st.eff) and final(o, "$0.generator_") is None:
                        return "stays in the module of the old operand"
                row(F, r, "move", K + "change_var_expr", follows, when, given=gv(F, {loc + ".parent_var": t("$1")}), opaque=tuple(x for x in OX if x not in ("set_slice_var_parent", "change_cast_parent")), recur=2, key="%s %s %s" % (op, pos, kind), clue="the operand follows the move")


    # what was derived from the variable moves along
    def linked(o):
        if o.kind == "throw":
            return "rejects"
        for k in ("s0", "s1"):
            v = final(o, k + ".parent_var")
            if [k] not in [[x.rpartition(".")[0]] for x, a in [(e[1], e[2]) for e in o.st.eff if e[0] == "call" and e[1].endswith(".set_parent")] if text(a[0]) == "$0"] and not (v is not None and text(v) == "$0"):
                return "slice %s keeps its variable" % k
        for fld, want in (("slices_", ["s0", "s1"]), ("concat_vars_", ["k0", "k1"])):
            v = final(o, "$0." + fld)
            got = [text(x) for x in v[1]] if v is not None and v[0] == "list" else [k for k, x in puts(o, "$0." + fld)]
            if not set(want) <= set(got):
                return "the new variable's %s become %s" % (fld, got)
            v = final(o, "this." + fld)
            if v is not None and v[0] == "list" and v[1]:
                return "keeps %s" % fld
        rv = [[e[1].rpartition(".")[0]] + [text(x).lstrip("&*") for x in e[2]] for e in o.st.eff if e[0] == "call" and e[1].endswith(".replace_var")]
        if sorted(rv) != [["k0", "this", "$0"], ["k1", "this", "$0"]]:
            return "re-targets the concatenations %s" % rv
        ml = [e[1] for e in o.st.eff if e[0] == "call" and e[1].endswith("move_linked_to")]
        if ml:
            return "hands the links of %s to the new variable" % ml
        cp = [(e[1].rpartition(".")[0], text(e[2][0])) for e in o.st.eff if e[0] == "call" and e[1].endswith(".set_parent") and e[1].startswith("c0")]
        if not cp and final(o, "c0.parent_var_") is None:
            return "casts keep the old variable"
    f = F.need(K + "Var::move_linked_to")[0]
    row(F, r, "move", f, linked, ["!this == $0.get_var_root_parent()", "$0.width() == this.width()", "$0.is_signed() == this.is_signed()"], given=gv(F, {"this.slices_": L("s0", "s1"), "this.concat_vars_": L("k0", "k1"), "this.casted_": L("c0"), "$0.slices_": L(), "$0.concat_vars_": L()}),
        opaque=("set_parent", "replace_var", "get_var_root_parent", "width", "is_signed", "move_linked_to"), loops=(0, 1, 2), key="links", clue="slices, concatenations and casts follow the new variable")
    # the variable stands on both sides
    for op in ("Conditional", "Add"):
        for kl in ("itself", "Slice", "Expression", "BaseCasted"):
            for kr in ("itself", "Slice", "Expression", "BaseCasted"):
                when = ["$0.op == ExprOp::" + op, "!null $0.right", "!null $1", "!null $2", "!$1 == $2", "!$2.type_ == VarType::Slice", "!$2.type_ == VarType::BaseCasted", "!$1.type_ == VarType::Slice", "$2.type_ == VarType::Base"]
                if op == "Conditional":
                    when += ["!$0.condition == $1", "$0.condition.type_ == VarType::Base"]
                g = {}
                for loc, k in (("$0.left", kl), ("$0.right", kr)):
                    if k == "itself":
                        g[loc] = t("$1")
                        continue
                    g[loc + ".type_"] = ("e", K + "VarType::" + k)
                    when += ["!%s == $1" % loc]
                    if k == "Slice":
                        g[loc + ".parent_var"] = t("$1")
                        when += ["!null " + loc, loc + ".slice_var($2).type_ == VarType::Slice", "!null %s.slice_var($2)" % loc]
                    if k == "BaseCasted":
                        when += [loc + ".parent_var_ == $1"]
                if "itself" in (kl, kr):
                    g["$1.type_"] = ("e", K + "VarType::Base")

                def sides(o, kl=kl, kr=kr):
                    return operand(o, "$0.left", kl) or operand(o, "$0.right", kr)
                row(F, r, "move", K + "change_var_expr", sides, when, given=gv(F, g), opaque=tuple(x for x in OX if x not in ("set_slice_var_parent", "change_cast_parent")), recur=2, key="%s, left %s, right %s" % (op, kl, kr), clue="both operands follow the move")


def asks(F, r):
    PT = K + "Port::"
    for d, want in (("In", "this.sources()"), ("Out", "this.sinks()")):
        pass
    so, si = "this.sources()", "this.sinks()"
    cn = PT + "connected"
    e = lambda x: ["empty " + x]
    ne = lambda x: ["!empty " + x]
    dr = lambda d: ["this.port_direction() == PortDirection::" + d] + ["!this.port_direction() == PortDirection::" + x for x in ("In", "Out", "InOut") if x != d]
    for d, tab in (("In", ((["S"], True), (["s"], False))), ("Out", ((["K"], True), (["k"], False))), ("InOut", ((["S", "k"], True), (["s", "K"], True), (["S", "K"], True), (["s", "k"], False)))):
        for fs, w in tab:
            when = list(dr(d))
            for x in fs:
                when += (ne if x.isupper() else e)(so if x in "Ss" else si)
            row(F, r, "ask", cn, lambda o, w=w: None if outcome(o) in (("true", "1") if w else ("false", "0")) or truth(o, w) else "yields %s" % outcome(o), when, opaque=("sources", "sinks", "port_direction"), key="%s port %s" % (d, "".join(fs)), clue=str(w))
    for fn, skip, tab, side, pd in (("connected_from", "Out", "sources_", "right_", "Out"), ("connected_to", "In", "sinks_", "left_", "In")):
        row(F, r, "ask", PT + fn, lambda o: None if o.kind == "ret" and not any(x[0] == "call" and x[1].endswith("visit_root") for x in o.st.eff) else "yields %s" % outcome(o), ["this.direction_ == PortDirection::" + skip], opaque=("visit_root",), key="of an %s port" % skip, clue="nothing")

        def looks(o, side=side):
            got = [[text(x) for x in e[2]][-1] for e in o.st.eff if e[0] == "call" and e[1].endswith("visit_root")]
            return None if got == ["s0." + side, "s1." + side] else "looks at %s" % got
        row(F, r, "ask", PT + fn, looks, ["!this.direction_ == PortDirection::" + skip], given=gv(F, {"this." + tab: L("s0", "s1")}), opaque=("visit_root",), key="looks at every record", clue="the other side of every recorded assignment")


def truth(o, w):
    """a returned comparison decided by the row's own facts"""
    return False
