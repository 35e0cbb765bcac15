"""Statements and blocks hold exactly what they were built from, and a clone is a structural copy."""
import itertools
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select, nparams

K = "kratos::"
OP = ("set_parent", "add_stmt", "remove_stmt", "clear", "add_scope_variable", "width", "to_string", "handle_name", "is_valid_variable_name", "clone", "accept")


def after(o, objs, loc):
    """value of a field of the small design at the end of the path"""
    ob, _, f = loc.rpartition(".")
    for k in (loc, loc + "_"):
        v = final(o, k)
        if v is not None:
            return plain(v)
    for k, x in objs.get(ob, {}).items():
        if k == f:
            return plain(world_val(x))
    return "?"


def world_val(x):
    if isinstance(x, list):
        return ("list", tuple(world_val(y) for y in x))
    if isinstance(x, dict):
        return ("list", tuple(("tup", (world_val(k), world_val(v))) for k, v in x.items()))
    if x is None:
        return ("null",)
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("i", x)
    return ("t", x)


def plain(v):
    if v is None:
        return "?"
    if v[0] == "opt":
        return plain(v[1])
    if v[0] in ("i", "b"):
        return int(v[1])
    if v[0] == "null":
        return None
    if v[0] in ("list", "tup"):
        return [plain(x) for x in v[1]]
    return text(v)


def does(o, name):
    """[(receiver, arguments)] of every call of a member function of that name"""
    out = []
    for e in o.st.eff:
        if e[0] == "call":
            m = re.match(r"(.*?)\.?(?:\w+::)*(\w+)$", e[1])
            if last(e[1].rpartition(".")[2]) == name:
                out.append((e[1].rpartition(".")[0], [text(x) for x in e[2]]))
    return out


def run(F, r, tier):
    r.rule("block", "a block holds exactly the statements added to it, in order, each with the block as its parent; what cannot be added is rejected", 40)
    block(F, r)
    r.rule("branch", "the branches of an if, the body of a loop and the cases of a case statement hold exactly the statements given to them", 30)
    branches(F, r)
    r.rule("where", "a statement finds its module, its outermost statement and the statement before it, and leaves the place it is in", 15)
    where(F, r)
    r.rule("clone", "a clone has the kind, operands, conditions and metadata of the original and cloned children", 12)
    clones(F, r)
    r.rule("instance", "an instantiated module or interface maps every port to its connection in the parent and takes it over, or is rejected", 25)
    instances(F, r)
    r.rule("text", "comment and raw text statements hold the given lines", 6)
    texts(F, r)


def scen(F, r, rule, q, objs, want, key, args=(), sel=None, clue=None, **kw):
    kw = dict(dict(opaque=OP, recur=6, depth=10, loops=(0, 1)), **kw)
    a = {i: (x if isinstance(x, tuple) else world_val1(x)) for i, x in enumerate(args)}
    objs = dict(objs)
    objs.setdefault("this", {})
    fs = select(F, K + q, sel) if isinstance(q, str) else [q]
    for f in fs:
        row(F, r, rule, f, want, given=dict(world(F, objs), **kw.pop("extra", {})), key=key, args=a, clue=clue or "as stated", **kw)


def world_val1(x):
    if isinstance(x, str):
        return ("s", x[1:]) if x.startswith('"') else ("t", x) if x == "this" else ("e", x)
    return world_val(x)


def reject(o):
    return None if o.kind == "throw" else "accepts it"


def block(F, r):
    R = "block"
    S = "StmtBlock::"
    blocks = ["Combinational", "Sequential", "Scope", "Function", "Initial", "Latch", "Final"]
    add = dict(sel=nparams("shared_ptr"), opaque=tuple(x for x in OP if x != "add_stmt"))
    s = lambda t, **k: dict({"type": "#StatementType::" + t}, **k)

    def world_(bt, st, have=("s0", "s1")):
        d = {"this": {"stmts": list(have), "block_type": "#StatementBlockType::" + bt}, "s2": st}
        for x in have:
            d.setdefault(x, s("If"))
        return d

    def added(o, have=("s0", "s1")):
        if o.kind == "throw":
            return "rejects it"
        got = after(o, {}, "this.stmts")
        if got != list(have) + ["s2"]:
            return "leaves the block with %s" % got
        if ("s2", ["this"]) not in does(o, "set_parent"):
            return "does not become the statement's parent"
    for bt in blocks:
        for at in ("Blocking", "NonBlocking", "Undefined"):
            bad = (bt, at) in (("Combinational", "NonBlocking"), ("Sequential", "Blocking"))
            for have in (("s0", "s1"), ("s0",), ()):
                scen(F, r, R, S + "add_stmt", world_(bt, s("Assign", assign_type="#AssignmentType::" + at), have), reject if bad else lambda o, have=have: added(o, have), "%s assignment into %s block%s" % (at, bt, "" if len(have) == 2 else " of %d" % len(have)), ["s2"], **add)
    for t in ("If", "Switch", "For", "Return", "Comment", "FunctionalCall", "RawString", "Assert"):
        scen(F, r, R, S + "add_stmt", world_("Scope", s(t)), added, t + " statement", ["s2"], **add)
    scen(F, r, R, S + "add_stmt", world_("Scope", s("If"), ()), lambda o: added(o, ()), "into an empty block", ["s2"], **add)
    scen(F, r, R, S + "add_stmt", world_("Scope", s("Block")), reject, "a block in a block", ["s2"], **add)
    scen(F, r, R, S + "add_stmt", world_("Scope", s("If")), reject, "no statement", [None], **add)
    for have in (("s2",), ("s0", "s2"), ("s2", "s1"), ("s0", "s2", "s1")):
        scen(F, r, R, S + "add_stmt", world_("Scope", s("If"), have), reject, "a statement that is already in the block, %d of %d" % (have.index("s2"), len(have)), ["s2"], **add)
    three = {"this": {"stmts": ["s0", "s1", "s2"]}}
    rem = dict(opaque=tuple(x for x in OP if x != "remove_stmt"))
    for i, left in enumerate((["s1", "s2"], ["s0", "s2"], ["s0", "s1"], ["s0", "s1", "s2"])):
        scen(F, r, R, S + "remove_stmt", three, lambda o, left=left: None if o.kind != "throw" and after(o, three, "this.stmts") == left else "leaves %s" % after(o, three, "this.stmts"), "removal of statement %d of 3" % i, ["s%d" % i], **rem)
    # taking a statement out of whatever holds it
    OW = tuple(x for x in OP if x != "remove_stmt")
    for kind, ty in (("Block", "StmtBlock"), ("If", "IfStmt"), ("Switch", "SwitchStmt"), (None, "Generator")):
        P = {"ir_node_kind()": "#" + ("StmtKind" if kind else "GeneratorKind"), "ast_node_type_": "#" + ("StmtKind" if kind else "GeneratorKind"), "type()": "#StatementType::" + (kind or "Block"), "type_": "#StatementType::" + (kind or "Block")}

        def taken(o, ty=ty):
            calls_ = [(e[1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call" and e[1].endswith("remove_stmt")]
            if o.kind == "throw" or [c for _, c in calls_] != [["$0"]]:
                return "removes %s" % calls_
            if "P" not in calls_[0][0].split(".")[:-1] or len(calls_[0][0].split(".")) != 2:
                return "asks %s to remove it" % calls_[0][0]
        scen(F, r, R, "remove_stmt_from_parent", {"P": P}, taken, "from its %s" % ty, opaque=OP, extra=gv(F, {"$0.parent()": ("e", "P"), "$0.parent_": ("e", "P")}))
    for i in range(4):
        want = ["new" if j == i else "s%d" % j for j in range(3)]

        def setc(o, i=i, want=want):
            got = after(o, three, "this.stmts")
            m = after_elements(o, got, "this.stmts_")
            if o.kind == "throw" or m != want:
                return "leaves %s" % m
            if i < 3 and ("new", ["this"]) not in does(o, "set_parent"):
                return "does not become the statement's parent"
        scen(F, r, R, S + "set_child", three, setc, "replacing statement %d of 3" % i, [i, "new"])

    def cleared(o):
        if sorted(x for x, a in does(o, "clear")) != ["s0", "s1", "s2"]:
            return "clears %s" % [x for x, a in does(o, "clear")]
        if after(o, three, "this.stmts") != []:
            return "keeps %s" % after(o, three, "this.stmts")
    scen(F, r, R, S + "clear", three, cleared, "clearing", opaque=tuple(x for x in OP if x != "clear") + ("kratos::Stmt::clear",))
    f = F.need(K + S + "set_parent")[0]

    def parent(o):
        sp = does(o, "set_parent")
        if sorted((x, a) for x, a in sp if x != "this") != [("s%d" % i, ["this"]) for i in range(3)]:
            return "passes itself as parent to %s" % [x for x, a in sp]
        if after(o, {}, "this.parent") != "p" and ("this", ["p"]) not in sp:
            return "becomes a child of %s" % after(o, {}, "this.parent")
    scen(F, r, R, f, three, parent, "moving a block", ["p"], opaque=OP)
    two = {"this": {"stmts": ["s0", "s1"]}}

    def scoped(kids):
        def check(o):
            sp = does(o, "add_scope_variable")
            if sorted((x, a) for x, a in sp if x != "this") != sorted((k, ['"n"', '"v"', "true", "false"]) for k in kids):
                return "passes the variable on to %s" % sp
        return check
    sc = ['"n', '"v', True, False]
    scen(F, r, R, S + "add_scope_variable", two, scoped(["s0", "s1"]), "scope variable", sc)
    scen(F, r, R, "IfStmt::add_scope_variable", {"this": {"then_body": "t", "else_body": "e"}}, scoped(["t", "e"]), "scope variable", sc)
    scen(F, r, R, "SwitchStmt::add_scope_variable", {"this": {"body": {"c0": "b0", None: "b1"}}}, scoped(["b0", "b1"]), "scope variable", sc)
    for have in ({}, {"n": 1}, {"m": 1}):
        for over, isv in ((False, True), (True, True), (False, False), (True, False)):
            ctx = ("list", tuple(("tup", (("s", k), ("tup", (("b", False), ("s", "old"))))) for k in have))
            want = dict((k, [0, '"old"']) for k in have)
            if over or "n" not in have:
                want["n"] = [int(isv), '"v"']

            def check(o, want=want):
                v = final(o, "this.scope_context_")
                got = dict((x[0].strip('"'), x[1]) for x in plain(v)) if v is not None and v[0] == "list" else None
                if got is None:
                    got = dict((k, [0, '"old"']) for k in have)
                    for e in o.st.eff:
                        if e[0] == "store" and e[1].startswith("this.scope_context_["):
                            got["n"] = plain(e[2])
                if got != want:
                    return "remembers %s" % got
            scen(F, r, R, "Stmt::add_scope_variable", {"this": {"scope_context": ctx}}, check, "scope variable, %s known, override %s%s" % (sorted(have) or "nothing", over, "" if isv else ", not a variable"), ['"n', '"v', isv, over], opaque=())
    # sensitivity list
    Q = "SequentialStmtBlock::"
    ev = lambda e, v: {"type": "#EventControlType::Edge", "edge": "#EventEdgeType::" + e, "var": v, "delay": 0}
    for edge, var, new in (("Posedge", "clk", False), ("Negedge", "clk", True), ("Posedge", "rst", True), ("Negedge", "rst", False)):
        w = {"this": {"conditions": ["e0", "e1"]}, "e0": ev("Posedge", "clk"), "e1": ev("Negedge", "rst"), "clk": {"width()": 1}, "rst": {"width()": 1}}

        def cond(o, edge=edge, var=var, new=new, w=w):
            if o.kind == "throw":
                return "rejects it"
            got = final(o, "this.conditions_")
            n = 2 if got is None else len(got[1]) if got[0] == "list" else -1
            if n != 2 + new:
                return "lists %s" % (text(got) if got is not None else "nothing new")
            if new:
                x = text(got[1][2])
                if x not in ("new EventControl(EventEdgeType::%s, %s)" % (edge, var), "EventControl(EventEdgeType::%s, %s)" % (edge, var)):
                    return "adds %s" % x
        scen(F, r, R, Q + "add_condition", w, cond, "%s of %s" % (edge, var), [("tup", (("e", K + "EventEdgeType::" + edge), ("e", var)))], opaque=("kratos::EventControl::EventControl",))


def after_elements(o, got, loc):
    """list contents after element stores"""
    if not isinstance(got, list):
        return got
    got = list(got)
    for e in o.st.eff:
        m = e[0] == "store" and re.fullmatch(re.escape(loc) + r"\[(\d+)\]", e[1])
        if m and int(m.group(1)) < len(got):
            got[int(m.group(1))] = plain(e[2])
    return got


def branches(F, r):
    R = "branch"
    I = "IfStmt::"
    w = {"this": {"then_body": "t", "else_body": "e", "predicate_stmt": "ps"}, "t": {"stmts": ["s0", "s1"]}, "e": {"stmts": ["s2"]}, "s": {"type": "#StatementType::If"}, "b": {"type": "#StatementType::Block"}}
    for n, body, other in (("then", "t", "e"), ("else", "e", "t")):
        q = I + "add_%s_stmt" % n
        scen(F, r, R, q, w, lambda o, body=body: None if o.kind != "throw" and does(o, "add_stmt") == [(body, ["s"])] else "adds to %s" % does(o, "add_stmt"), "into the %s branch" % n, ["s"], sel=nparams("shared_ptr"))
        scen(F, r, R, q, w, reject, "a block as a statement of the %s branch" % n, ["b"], sel=nparams("shared_ptr"))
        scen(F, r, R, I + "remove_%s_stmt" % n, w, lambda o, body=body: None if does(o, "remove_stmt") == [(body, ["s"])] else "removes from %s" % does(o, "remove_stmt"), "out of the %s branch" % n, ["s"])
        q = I + "set_" + n
        ww = dict(w, x={"stmts": ["a", "b", "c"]})

        def whole(o, body=body):
            seq = [(x.rpartition(".")[0], last(x.rpartition(".")[2]), [text(y) for y in a]) for k, x, a in [(e[0], e[1], e[2]) for e in o.st.eff if e[0] == "call"] if last(x.rpartition(".")[2]) in ("clear", "add_stmt")]
            want = [(body, "clear", [])] + [(body, "add_stmt", [y]) for y in "abc"]
            return None if seq == want else "does %s" % (seq,)
        scen(F, r, R, q, ww, whole, "a new %s branch" % n, ["x"])
        scen(F, r, R, q, dict(w, x={"stmts": []}), lambda o, body=body: None if does(o, "clear") == [(body, [])] and not does(o, "add_stmt") else "clears %s" % does(o, "clear"), "an empty %s branch" % n, ["x"])
        scen(F, r, R, q, ww, lambda o: None if not does(o, "clear") and not does(o, "add_stmt") else "changes the branch", "the %s branch itself" % n, [body])
    for x, want in (("s0", [("t", "s0")]), ("s1", [("t", "s1")]), ("s2", [("e", "s2")]), ("sx", [])):
        scen(F, r, R, I + "remove_stmt", w, lambda o, want=want: None if [(a, b[0]) for a, b in does(o, "remove_stmt") if a != "this"] == want else "removes %s" % does(o, "remove_stmt"), "removal of %s" % x, [x], opaque=tuple(y for y in OP if y != "remove_stmt") + ("kratos::StmtBlock::remove_stmt",))
    kids = lambda want, own="p": lambda o: "gives %s a parent" % does(o, "set_parent") if sorted((x, a) for x, a in does(o, "set_parent") if x != "this") != sorted((k, ["this"]) for k in want) else None if after(o, {}, "this.parent") == own or ("this", [own]) in does(o, "set_parent") else "becomes a child of %s" % after(o, {}, "this.parent")
    scen(F, r, R, F.need(K + I + "set_parent")[0], w, kids(["t", "e", "ps"]), "moving an if", ["p"])
    scen(F, r, R, F.need(K + "SwitchStmt::set_parent")[0], {"this": {"body": {"c0": "b0", None: "b1"}, "target_stmt": "ts"}}, lambda o: kids(["b0", "b1"])(o) and kids(["b0", "b1", "ts"])(o), "moving a case statement", ["p"])
    f = F.need(K + I + "IfStmt")
    f = [x for x in f if "shared_ptr" in x.params[0]["t"]][0]

    def fresh(o):
        if o.kind == "throw":
            return "rejects it"
        b = [final(o, "this.then_body_"), final(o, "this.else_body_")]
        t = [text(x) if x is not None else "?" for x in b]
        if any("ScopedStmtBlock(" not in x for x in t) or sum(1 for e in o.st.eff if e[0] == "new" and e[1].startswith("ScopedStmtBlock")) not in (0, 2):
            return "has branches %s" % t
        if after(o, {}, "this.predicate") != "$0":
            return "tests %s" % after(o, {}, "this.predicate")
        n = [x for x, a in does(o, "set_parent") if a == ["this"]]
        if len([x for x in n if "ScopedStmtBlock" in x]) != 2:
            return "is parent of %s" % n
    row(F, r, R, f, fresh, key="a new if", opaque=OP + ("get_auxiliary_var", "assign"), clue="two empty branches below the if, testing the given variable")
    # loops
    scen(F, r, R, "ForStmt::add_stmt", {"this": {"loop_body": "b"}}, lambda o: None if does(o, "add_stmt") == [("b", ["s"])] else "adds to %s" % does(o, "add_stmt"), "into the loop", ["s"])
    for lo, hi in ((0, 4), (-1, 4), (4, -2), (5, 0), (0, 0)):
        def loop(o, lo=lo, hi=hi):
            v = [after(o, {}, "this." + x) for x in ("start", "end", "step")]
            if v != [lo, hi, 1]:
                return "counts %s" % v
            it = [e for e in o.st.eff if e[0] in ("new", "call") and "IterVar" in e[1]]
            a = [plain(x) for e in it for x in e[2]][-4:] if it else re.findall(r"IterVar\((.*)\)", str(after(o, {}, "this.iter")))
            want = ['"i"', lo, hi, int(lo < 0 or hi < 0)]
            if a != want and a != [", ".join(["null", '"i"', str(lo), str(hi), str(lo < 0 or hi < 0).lower()])]:
                return "creates the loop variable %s" % (a,)
            if not any("ScopedStmtBlock" in x and a == ["this"] for x, a in does(o, "set_parent")):
                return "does not own its body"
        scen(F, r, R, "ForStmt::ForStmt", {}, loop, "loop from %d to %d" % (lo, hi), ['"i', lo, hi, 1], opaque=OP + ("kratos::IterVar::IterVar",))
    N = "#"
    for pk in ("GeneratorKind", "StmtKind", "VarKind"):
        for gen in (False, True):
            for inst in (("m", "m"), ("m", "s"), ("s", "m"), ()):
                w = {"this": {"loop_body": "b", "iter": "it"}, "b": {"stmts": list(inst)}, "it": {"is_gen_var()": gen, "gen_var": gen}, "p": {"ir_node_kind()": N + pk, "ast_node_type": N + pk, "generator_parent()": "g"}, "m": {"type": "#StatementType::ModuleInstantiation"}, "s": {"type": "#StatementType::Assign"}}
                ok = pk == "StmtKind" or pk == "GeneratorKind" and gen and "s" not in inst

                def placed(o, ok=ok, pk=pk):
                    if not ok:
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    if after(o, {}, "this.parent") != "p" and ("this", ["p"]) not in does(o, "set_parent"):
                        return "becomes a child of %s" % after(o, {}, "this.parent")
                    g = [a for x, a in does(o, "set_generator") if x == "it"]
                    g = g[-1] if g else [after(o, {}, "it.generator")]
                    if g != ["g" if pk == "StmtKind" else "p"]:
                        return "puts its variable into %s" % g
                scen(F, r, R, F.need(K + "ForStmt::set_parent")[0], w, placed, "%s loop of %s below a %s" % ("generate" if gen else "plain", inst, pk), ["p"], opaque=OP + ("generator_parent",))
    # cases
    C = "SwitchStmt::add_switch_case"
    val = lambda v: {"value": v, "value()": v}
    w = {"this": {"body": {"c0": "b0", "c1": "b1"}}, "c0": val(0), "c1": val(1), "d0": val(0), "d1": val(1), "d2": val(2), "s": {"type": "#StatementType::Assign"}, "blk": {"type": "#StatementType::Block", "stmts": ["x", "y"]}}
    wd = dict(w, this={"body": {None: "bd", "c1": "b1"}})
    one = lambda f: nparams("shared_ptr", "shared_ptr")(f) and "vector" not in f.params[1]["t"]
    kw = dict(sel=one)
    for wn, ww, c, target in (("", w, "c0", "b0"), ("", w, "d0", "b0"), ("", w, "c1", "b1"), ("", w, "d1", "b1"), ("", w, "d2", None), ("", w, None, None), (", default listed", wd, None, "bd"), (", default listed", wd, "d1", "b1"), (", default listed", wd, "d0", None)):
        for s, what in (("s", ["s"]), ("blk", ["x", "y"])):
            def case(o, c=c, target=target, what=what, ww=ww):
                if o.kind == "throw":
                    return "rejects it"
                b = final(o, "this.body_")
                n = 2 if b is None else len(b[1]) if b[0] == "list" else -1
                put = does(o, "add_stmt")
                if target is None:
                    if n != 3:
                        p = puts(o, "this.body_")
                        if [k for k, v in p] != [c or "null"]:
                            return "lists %s" % (p or "no new case")
                        new = text(p[0][1])
                    else:
                        if plain(b[1][2])[0] != c:
                            return "lists the case %s" % plain(b[1][2])[0]
                        new = text(b[1][2][1][1])
                    if (new, ["this"]) not in does(o, "set_parent"):
                        return "does not own the new case"
                else:
                    new = target
                    if n != 2 or puts(o, "this.body_"):
                        return "lists a second case of the value"
                if [a for x, a in put if x == new] != [[y] for y in what] or len(put) != len(what):
                    return "adds %s" % put
                if o.val is None or text(o.val) not in (new, "*" + new, "&" + new):
                    return "answers %s" % outcome(o)
            scen(F, r, R, C, ww, case, "%s under %s%s" % (s, c, wn), [c, s], **kw)

    def many(o):
        if [a for x, a in does(o, "add_switch_case")] != [["$0", "a"], ["$0", "b"]]:
            return "adds %s" % does(o, "add_switch_case")
    vec = [f for f in F.need(K + C) if "vector" in f.params[1]["t"]][0]
    row(F, r, R, vec, many, key="several statements", args={1: ("list", (("e", "a"), ("e", "b")))}, opaque=("add_switch_case",), clue="every statement, in order, under the same case")
    X = "SwitchStmt::remove_switch_case"
    scen(F, r, R, X, w, lambda o: None if [x[0] for x in (after(o, w, "this.body") or [])] == ["c0"] else "leaves %s" % after(o, w, "this.body"), "removal of a case", ["c1"], sel=nparams("shared_ptr"))
    scen(F, r, R, X, w, lambda o: None if [x[0] for x in (after(o, w, "this.body") or [])] == ["c0", "c1"] and o.kind != "throw" else "leaves %s" % after(o, w, "this.body"), "removal of an unknown case", ["d2"], sel=nparams("shared_ptr"))
    scen(F, r, R, X, w, lambda o: None if does(o, "remove_stmt") == [("b1", ["s"])] else "removes %s" % does(o, "remove_stmt"), "removal from a case", ["c1", "s"], sel=nparams("shared_ptr", "shared_ptr"))
    ww = dict(w, b0={"stmts": ["s0", "s1"]}, b1={"stmts": ["s2"]})
    for x, want in (("s0", [("b0", "s0")]), ("s1", [("b0", "s1")]), ("s2", [("b1", "s2")]), ("sx", [])):
        scen(F, r, R, "SwitchStmt::remove_stmt", ww, lambda o, want=want: None if [(a, b[0]) for a, b in does(o, "remove_stmt") if a != "this"] == want else "removes %s" % does(o, "remove_stmt"), "removal of %s" % x, [x], opaque=tuple(y for y in OP if y != "remove_stmt") + ("kratos::StmtBlock::remove_stmt",))
    sw = [f for f in F.need(K + "SwitchStmt::SwitchStmt") if "shared_ptr" not in f.params[0]["t"]][0]
    for t in ("Base", "PortIO", "Slice", "Expression", "ConstValue"):
        def tgt(o, t=t):
            if t == "ConstValue":
                return reject(o)
            if o.kind == "throw":
                return "rejects it"
            return None if after(o, {}, "this.target") in ("$0", "&$0") else "tests %s" % after(o, {}, "this.target")
        row(F, r, R, sw, tgt, given=world(F, {"$0": {"type": "#VarType::" + t}}), key="case over a " + t, opaque=OP + ("get_auxiliary_var", "assign"), clue="any target but a constant")
    for q, kid in (("IfStmt::clear", ["e", "ps", "t"]), ("ForStmt::clear", ["b"]), ("SwitchStmt::clear", ["b0", "b1", "ts"])):
        w = {"this": {"then_body": "t", "else_body": "e", "predicate_stmt": "ps", "loop_body": "b", "body": {"c0": "b0", None: "b1"}, "target_stmt": "ts"}}
        scen(F, r, R, q, w, lambda o, kid=kid: None if sorted(x for x, a in does(o, "clear")) == kid else "clears %s" % [x for x, a in does(o, "clear")], "clearing", opaque=tuple(x for x in OP if x != "clear") + ("kratos::StmtBlock::clear", "kratos::AssignStmt::clear"))


def where(F, r):
    R = "where"
    N = "#"
    k = lambda x: {"ir_node_kind()": N + x, "ast_node_type": N + x}
    chain = lambda n, top: dict([("this", dict(k("StmtKind"), parent="p0" if n or top else None, type="#StatementType::Assign"))] +
                                [("p%d" % i, dict(k("StmtKind"), parent="p%d" % (i + 1) if i + 1 < n or top else None, type="#StatementType::Block" if i % 2 == 0 else "#StatementType::If")) for i in range(n)] + ([("p%d" % n, dict(k("GeneratorKind"), parent=None))] if top else []))
    kw = dict(opaque=(), loops=(0, 1), hook=parent_hook)
    for n in range(4):
        scen(F, r, R, "Stmt::generator_parent", chain(n, True), lambda o, n=n: None if o.val is not None and text(o.val) in ("p%d" % n,) else "answers %s" % outcome(o), "%d statement(s) below a module" % n, **kw)
        scen(F, r, R, "Stmt::generator_parent", chain(n, False), lambda o: None if o.val is not None and o.val == ("null",) else "answers %s" % outcome(o), "%d statement(s) below nothing" % n, **kw)
        for top in (True, False):
            scen(F, r, R, "Stmt::stmt_parent", chain(n, top), lambda o, n=n: None if o.val is not None and text(o.val) == ("p%d" % (n - 1) if n else "this") else "answers %s" % outcome(o), "%d statement(s) below %s" % (n, "a module" if top else "nothing"), **kw)
    for kinds in (("Block", "For"), ("Block", "For", "Block", "For"), ("Block", "Switch"), ("Block", "If", "Block"), ("For",), ("Block", "For", "Block")):
        w = chain(len(kinds), True)
        for i, x in enumerate(kinds):
            w["p%d" % i]["type"] = "#StatementType::" + x
        scen(F, r, R, "Stmt::stmt_parent", w, lambda o, n=len(kinds): None if o.val is not None and text(o.val) == "p%d" % (n - 1) else "answers %s" % outcome(o), "below %s" % ", ".join(kinds), **kw)
    for n in range(4):
        for i in range(n + 1):
            L = ["g%d" % j for j in range(n)]

            def index(o, i=i, n=n):
                v = plain(o.val) if o.val is not None else "?"
                if i == n:
                    return None if o.val == ("null",) or v is None else "answers %s" % v
                return None if v == i else "answers %s" % v
            scen(F, r, R, "ForStmt::genvar_index", {"this": {"gen_var_stmts": L}}, index, "instance %s of %d in a generate loop" % (i if i < n else "elsewhere", n), ["g%d" % i])
    for q in ("AssignStmt::equal", "AssignStmt::operator=="):
        for l in ("a", "b", "c"):
            for x in ("a", "b", "c"):
                var = lambda n: {"name": '"' + n, "width": 4, "var_width_": 4, "width()": 4}
                w = {"this": {"left": "a", "right": "b"}, "o": {"left": l, "right": x}, "a": var("a"), "b": var("b"), "c": var("b" if x == "c" else "a")}
                scen(F, r, R, q, w, {"true" if (l, x) == ("a", "b") else "false"}, "comparison with %s <- %s" % (l, x), ["o"])
    for pk, t, i, want in (("StmtKind", "Block", 0, None), ("StmtKind", "Block", 1, "s0"), ("StmtKind", "Block", 2, "s1"), ("StmtKind", "If", 1, None), ("GeneratorKind", "Block", 1, None)):
        stm = ["s0", "s1", "s2"]
        stm[i] = "this"
        w = {"this": {"parent": "p"}, "p": dict(k(pk), type="#StatementType::" + t, stmts=stm)}
        scen(F, r, R, "Stmt::pre_stmt", w, lambda o, want=want: None if plain(o.val) in (want, want and "p[%d]" % (i - 1)) else "answers %s" % outcome(o), "statement %d of a %s %s" % (i, t, pk), extra={"p.index_of(this)": ("i", i), "p.size()": ("i", 3)}, opaque=("index_of",))
    scen(F, r, R, "Stmt::pre_stmt", {"this": {"parent": None}}, lambda o: None if o.val == ("null",) else "answers %s" % outcome(o), "without parent")
    for pk in ("GeneratorKind", "StmtKind", "VarKind", None):
        w = {"this": {"parent": "p" if pk else None}, "p": k(pk) if pk else {}}

        def gone(o, pk=pk):
            if pk == "VarKind":
                return reject(o)
            return None if o.kind != "throw" and does(o, "remove_stmt") == ([("p", ["this"])] if pk else []) else "removes %s" % does(o, "remove_stmt")
        scen(F, r, R, "Stmt::remove_from_parent", w, gone, "child of %s" % pk, opaque=("remove_stmt",))
    nodes = ["s0", "s1", "s2"]
    for i, n in enumerate(nodes + ["sx"]):
        def at(o, i=i):
            v = plain(o.val)
            return None if o.kind == "ret" and (v == i if i < 3 else isinstance(v, int) and v > 2) else "answers %s" % v
        scen(F, r, R, "IRNode::index_of", {"this": {"child_count()": 3}}, at, "position of child %d of 3" % i, [n], extra={"this.get_child(%d)" % j: ("e", "s%d" % j) for j in range(3)}, opaque=("get_child", "child_count"))


def parent_hook(fr, e, o, c):
    """parent() of the nodes in these scenarios is their stored parent"""
    return None


def clones(F, r):
    R = "clone"

    def made(o, cls):
        t = text(o.val) if o.val is not None else o.kind
        m = re.match(r"\*?&?(new )?%s\(" % cls, t)
        return t if m else None

    def ck(cls, first, fields, kids=()):
        """the result is a new object of that class, built from `first`, with these fields"""
        def check(o):
            if o.kind != "ret":
                return o.kind
            t = made(o, cls)
            if t is None:
                return "yields %s" % text(o.val)[:200]
            if t[t.index("(") + 1:-1] not in first:
                return "is built from %s" % t[t.index("(") + 1:-1]
            for f, want in fields.items():
                v = final(o, "%s.%s" % (t, f))
                v = plain(v) if v is not None else None
                if v not in (want if isinstance(want, tuple) else (want,)):
                    # built in place
                    return "has %s %s" % (f, v)
            for a, b in (("verilog_ln", "this.verilog_ln"), ("comment", "this.comment")):
                v = final(o, t + "." + a)
                if not (v is not None and text(v) == b) and not any(x == "this" and y == [t] for x, y in does(o, "copy_meta")):
                    return "loses %s" % a
            for c in kids:
                if (c, [t]) not in does(o, "set_parent"):
                    return "does not own %s (%s)" % (c, does(o, "set_parent"))
        return check
    op = ("set_parent", "clone", "width", "to_string", "is_signed", "kratos::AssignStmt::AssignStmt", "kratos::IfStmt::IfStmt", "kratos::SwitchStmt::SwitchStmt", "kratos::ForStmt::ForStmt", "kratos::ReturnStmt::ReturnStmt", "kratos::RawStringStmt::RawStringStmt", "add_stmt")
    targets = {"AssignStmt": (["this.left_, this.right_, this.assign_type_"], {"delay_": "this.delay_"}),
               "ReturnStmt": (["this.func_def_, this.value_"], {}),
               "IfStmt": (["this.predicate_"], {"then_body_": "this.then_body_.clone()", "else_body_": "this.else_body_.clone()"}),
               "ForStmt": (["this.iter_.name, this.start_, this.end_, this.step_"], {"loop_body_": "this.loop_body_.clone()", "iter_": "this.iter_"}),
               "SwitchStmt": (["this.target_"], {}),
               "CommentStmt": ([""], {"comments_": "this.comments_"}),
               "RawStringStmt": (["this.stmts_"], {})}
    for c, (first, fields) in targets.items():
        kids = [v for v in fields.values() if v.endswith(".clone()")]
        for f in F.need(K + c + "::clone"):
            if c == "SwitchStmt":
                def check(o):
                    m = ck(c0, ["this.target_"], {})(o)
                    if m:
                        return m
                    t = text(o.val)
                    b = final(o, t + ".body_")
                    got = [[k, plain(v) if v is not None else None] for k, v in puts(o, t + ".body_")] if b is None or b[0] != "list" else plain(b)
                    got = [[("null" if x is None else x), y] for x, y in got]
                    if got != [["c0", "b0.clone()"], ["null", "b1.clone()"]]:
                        return "has the cases %s" % got
                    if sorted((x, a) for x, a in does(o, "set_parent") if x != t) != [("b0.clone()", [t]), ("b1.clone()", [t])]:
                        return "does not own its cases"
                c0 = c
                scen(F, r, R, f, {"this": {"body": {"c0": "b0", None: "b1"}}}, check, "case statement", opaque=op)
                continue
            row(F, r, R, f, ck(c, first, fields, kids), key="clone", opaque=op, clue="a %s with the same %s" % (c, ", ".join(first + list(fields))))
    for c in ("ScopedStmtBlock", "CombinationalStmtBlock", "SequentialStmtBlock", "LatchStmtBlock", "InitialStmtBlock", "FinalStmtBlock"):
        for f in F.need(K + c + "::clone"):
            def blk(o, c=c):
                t = made(o, c)
                if t is None:
                    return "yields %s" % outcome(o)[:200]
                if [(x, a) for x, a in does(o, "add_stmt")] != [(t, ["s0.clone()"]), (t, ["s1.clone()"])]:
                    v = final(o, t + ".stmts_")
                    if v is None or plain(v) != ["s0.clone()", "s1.clone()"]:
                        return "holds %s" % does(o, "add_stmt")
                for a in ("verilog_ln", "comment"):
                    v = final(o, t + "." + a)
                    if not (v is not None and text(v) == "this." + a):
                        return "loses %s" % a
                if c == "SequentialStmtBlock":
                    v = final(o, t + ".conditions_")
                    if v is None or text(v) != "this.conditions_":
                        return "is sensitive to %s" % (text(v) if v is not None else "nothing")
                if c == "CombinationalStmtBlock":
                    v = final(o, t + ".general_purpose_")
                    if v is None or text(v) != "this.general_purpose_":
                        return "forgets whether it is general purpose"
            scen(F, r, R, f, {"this": {"stmts": ["s0", "s1"]}}, blk, c, opaque=op)


def instances(F, r):
    R = "instance"
    D = "#PortDirection::"
    asg = lambda l, x: {"left": l, "right": x}
    V = lambda g: {"generator": g, "generator()": g}
    base = {"par": {"debug": False}, "port": {"name": '"p', "slices": []}, "a0": asg("port", "v0"), "a1": asg("port", "v1"), "ax": asg("port", "vx"),
            "v0": V("par"), "v1": V("par"), "vx": V("other"), "k0": asg("v0", "port"), "k1": asg("v1", "port"), "kx": asg("vx", "port"), "sl": {}}

    def mapped(want, stmt, d):
        def check(o):
            if want is None:
                return reject(o)
            if o.kind == "throw":
                return "rejects it"
            p = [(k, plain(v)) for k, v in puts(o, "this.port_mapping_")]
            if p != ([("port", want)] if want else []):
                v = final(o, "this.port_mapping_")
                if v is None or plain(v) != ([["port", want]] if want else []):
                    return "maps %s" % p
            if d == "In":
                c = final(o, "this.connection_stmt_")
                c = plain(c) if c is not None and c[0] == "list" else [k for k, v in puts(o, "this.connection_stmt_")]
                if c != ([stmt] if stmt else []):
                    return "lists the connections %s" % c
            rm = does(o, "remove_from_parent")
            if rm != ([(stmt, [])] if stmt else []):
                return "takes %s out of the parent" % rm
        return check
    q = "InstantiationStmt::process_port"
    sl = {"none": [], "unrelated": ["sx"], "driven": ["sd"]}
    for d, tab, one, two, ox, val in (("In", "sources", "a0", "a1", "ax", "v0"), ("Out", "sinks", "k0", "k1", "kx", "v0")):
        for have, want in (([], None if d == "In" else ""), ([one], val), ([one, ox], val), ([ox, one], val), ([ox], None if d == "In" else ""), ([one, two], None)):
            for sn, ss in sl.items():
                w = dict(base)
                w["port"] = dict(base["port"], direction=D + d, slices=ss, **{"get_slices()": ss, "sources": have if tab == "sources" else [], "sinks": have if tab == "sinks" else []})
                # a slice of the port connected to the parent (drivers of the slice decide)
                w["sx"] = {"sources": [], "sinks": []}
                w["sd"] = {"sources": ["asl"], "sinks": []}
                w["asl"] = asg("w0", "w0")
                w["w0"] = V("par")
                bad = want is None or sn == "driven"
                scen(F, r, R, q, w, mapped(None if bad else want, one if want else None, d), "%s port, connections %s, slices %s" % (d, have, sn), ["port", "par", '"inst'], opaque=("remove_from_parent", "to_string"))
    w = dict(base)
    w["port"] = dict(base["port"], direction=D + "InOut", sources=["a0"], sinks=[])
    scen(F, r, R, q, w, reject, "inout port", ["port", "par", '"inst'], opaque=("remove_from_parent", "to_string"))
    for f in F.need(K + "ModuleInstantiationStmt::ModuleInstantiationStmt"):
        def every(o):
            got = [[a[0], a[1]] for x, a in does(o, "process_port")]
            if sorted(got) != [["p0", "$1"], ["p1", "$1"], ["p2", "$1"]]:
                return "connects %s" % got
            if after(o, {}, "this.target") != "$0":
                return "instantiates %s" % after(o, {}, "this.target")
            v = final(o, "$0.has_instantiated_")
            if not (v == ("b", True) or any(e[0] == "store" and "has_instantiated" in e[1] and e[2] == ("b", True) for e in o.st.eff)):
                return "does not mark the module as instantiated"
        row(F, r, R, f, every, given=world(F, {"$0": {"get_port_names()": ['"a', '"b', '"c'], 'get_port("a")': "p0", 'get_port("b")': "p1", 'get_port("c")': "p2"}}), key="every port of the module", opaque=("process_port", "get_port_names", "get_port"), clue="every port, in the given parent")
    for f in F.need(K + "InterfaceInstantiationStmt::InterfaceInstantiationStmt"):
        def every(o):
            got = [[a[0], a[1]] for x, a in does(o, "process_port")]
            if sorted(got) != [["p0", "$0"], ["p1", "$0"]]:
                return "connects %s" % got
            if after(o, {}, "this.interface") != "$1":
                return "instantiates %s" % after(o, {}, "this.interface")
        row(F, r, R, f, every, given=world(F, {"$1": {"ports": {'"a': "p0", '"b': "p1"}}}), key="every port of the interface", opaque=("process_port",), clue="every port, in the given parent")


def texts(F, r):
    R = "text"
    for f in F.need(K + "RawStringStmt::RawStringStmt"):
        many = "vector" in f.params[0]["t"]
        for toks, want in ((["a", "b"], ["a", "b"]), (["a", "", "b"], ["a", "b"]), ([""], []), ([], [])):
            tk = ("list", tuple(("s", x) for x in toks))
            arg = ("list", (("s", "L0"),)) if many else ("s", "L0")
            row(F, r, R, f, lambda o, want=want: None if [x.strip('"') for x in (after(o, {"this": {"stmts": []}}, "this.stmts") or [])] == want else "holds %s" % after(o, {}, "this.stmts"), args={0: arg},
                given={'string::get_tokens("L0", "\\r\\n")': tk, 'get_tokens("L0", "\\r\\n")': tk, 'string::get_tokens("L0", "\r\n")': tk, 'get_tokens("L0", "\r\n")': tk}, key="lines %s" % toks, opaque=("get_tokens",), clue="every line that is not empty, in order")
