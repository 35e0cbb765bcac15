"""Traversals reach every node of the design once and hand each node to the handler of its own kind."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select
from .. import poly

V = "kratos::IRVisitor::"
t = lambda x: ("t", x)
L = lambda *xs: ("list", tuple(t(x) for x in xs))

# class -> (given, children in order as texts; a set when the order is free)
KIDS = {
    "Var": ({"this.slices_": L("k0", "k1", "k2")}, ["k0", "k1", "k2"]),
    "Port": ({}, []),
    "Stmt": ({}, []),
    "IRNode": ({}, []),
    "AssignStmt": ({}, ["this.left_", "this.right_"]),
    "IfStmt": ({}, ["this.predicate_", "this.then_body_", "this.else_body_"]),
    "ForStmt": ({}, ["this.loop_body_"]),
    "StmtBlock": ({"this.stmts_": L("k0", "k1", "k2")}, ["k0", "k1", "k2"]),
    "SequentialStmtBlock": ({"this.stmts_": L("k0", "k1", "k2"), "this.conditions_": L("e0", "e1")}, ["k0", "k1", "k2", "e0.var", "e1.var"]),
    "Expr": ({}, ["this.left", "this.right"]),
    "VarConcat": ({"this.vars_": L("k0", "k1", "k2")}, ["k0", "k1", "k2"]),
    "VarExtend": ({}, ["this.left"]),
    "ConditionalExpr": ({}, ["this.condition", "this.left", "this.right"]),
}


def at(F, cls, name):
    """the definition objects of exactly this class run"""
    root = F.one("kratos::IRNode::" + name)
    x = F.resolve(cls, root.fid)
    return x if isinstance(x, Func) else F.funcs.get(x) or root


def run(F, r, tier):
    r.rule("children", "every node type enumerates exactly its own children, and nothing beyond them", 60)
    r.rule("kind", "every concrete node type hands itself to the visit overload of its own kind", 35)
    r.rule("walk", "a traversal calls the handler of every node once, parents first, even when a handler removes the node it was given", 12)
    r.rule("graph", "the instance graph holds every instance once, below its parent", 20)
    # ---------------------------------------------------------------- children
    def both(c):
        cc = at(F, "kratos::" + c, "child_count")
        gc = at(F, "kratos::" + c, "get_child")
        return cc, gc
    for f in F.all:
        if f.name in ("child_count", "get_child") and f.body is not None and (f.cls or "").startswith("kratos::"):
            c = short(f.cls)
            if c not in KIDS and c not in ("SwitchStmt", "Generator"):
                r.ob("children", "%s::%s has a table" % (c, f.name), False, f.loc(), "%s enumerates children of a node type that has no rule" % f.sig())
    for c, (g, kids) in KIDS.items():
        cc, gc = both(c)
        when = ["!null this.right"] if c == "Expr" else []
        g = dict(g, **{"this.child_count()": ("i", len(kids))})
        row(F, r, "children", cc, {str(len(kids))}, when, given=gv(F, {k: v for k, v in g.items() if "count" not in k}), key="%s child count" % c)
        for i in range(len(kids) + 2):
            want = {kids[i]} if i < len(kids) else {"null", "nullptr"}
            row(F, r, "children", gc, lambda o, want=want: None if o.kind == "ret" and ((o.val == ("null",) and "null" in want) or text(o.val) in want) else "yields %s" % outcome(o), when, given=gv(F, g), args={0: ("i", i)} if gc.params and gc.params[0].get("n") else None, key="%s child %d" % (c, i), clue=sorted(want)[0])
    row(F, r, "children", at(F, "kratos::Expr", "child_count"), {"1"}, ["null this.right"], key="unary expression")
    # a case statement: the target, then each body once
    cc, gc = both("SwitchStmt")
    c1, c2 = ("e", "c1"), ("e", "c2")
    for order in ((1, 2), (2, 1)):
        for dflt in (False, True):
            body = [("tup", (c1, t("b1"))), ("tup", (c2, t("b2")))] + ([("tup", (("null",), t("b0")))] if dflt else [])
            g = gv(F, {"this.body_": ("list", tuple(body)), "c1.value_": ("i", order[0]), "c2.value_": ("i", order[1])})
            n = len(body)
            row(F, r, "children", cc, {str(n + 1)}, given=g, key="SwitchStmt child count %s" % n)
            got = []
            for i in range(n + 3):
                def chk(o, i=i):
                    v = "null" if o.val == ("null",) else text(o.val)
                    if i == 0:
                        return None if v == "this.target_" else "yields %s" % v
                    if i > n:
                        return None if v in ("null", "nullptr") else "yields %s" % v
                    if v in got:
                        return "yields %s twice" % v
                    if [v] != ((["b1", "b2"] if order == (1, 2) else ["b2", "b1"]) + ["b0"])[i - 1:i]:
                        return "yields %s" % v
                    got.append(v)
                row(F, r, "children", gc, chk, ["!null c1", "!null c2"], given=g, args={0: ("i", i)}, key="SwitchStmt %s%s child %d" % (order, " with default" if dflt else "", i), clue="the target, then every body once by its value, the default last")
    # a module: statements, functions, instances
    cc, gc = both("Generator")
    g = gv(F, {"this.stmts_": L("s0", "s1"), "this.funcs_": ("list", (("tup", (("s", "f"), t("fn0"))), ("tup", (("s", "g"), t("fn1"))))), "this.func_index_": ("list", (("tup", (("i", 0), ("s", "f"))), ("tup", (("i", 1), ("s", "g"))))),
              "this.children_names_": ("list", (("s", "x"), ("s", "y"))), "this.children_": ("list", (("tup", (("s", "x"), t("m0"))), ("tup", (("s", "y"), t("m1")))))})
    kids = ["s0", "s1", "fn0", "fn1", "m0", "m1"]
    row(F, r, "children", cc, {"6"}, ["!true this.is_external_"], given=g, key="module child count")
    row(F, r, "children", cc, {"0"}, ["true this.is_external_"], given=g, key="external module child count")
    for i in range(8):
        w = kids[i] if i < 6 else "null"
        row(F, r, "children", gc, lambda o, w=w: None if ("null" if o.val == ("null",) else outcome(o)) == w else "yields %s" % outcome(o), ["!true this.is_external_"], given=g, args={0: ("i", i)}, key="module child %d" % i, clue=w)
    row(F, r, "children", gc, lambda o: None if o.val == ("null",) else "yields %s" % outcome(o), ["true this.is_external_"], key="external module children", given=g, args={0: ("i", 0)}, clue="none")
    # index_of
    g = {"this.child_count()": ("i", 3)}
    g.update({"this.get_child(%d)" % i: ("e", "k%d" % i) for i in range(3)})
    for i in range(3):
        row(F, r, "children", "kratos::IRNode::index_of", {str(i)}, given=g, args={0: ("e", "k%d" % i)}, key="position of child %d" % i)
    row(F, r, "children", "kratos::IRNode::index_of", lambda o: None if o.kind == "ret" and o.val[0] == "i" and o.val[1] >= 3 else "yields %s" % outcome(o), given=g, args={0: ("e", "other")}, key="position of a stranger", clue="not below the number of children")
    # ---------------------------------------------------------------- kinds
    handlers = {short(strip_type(f.params[0]["t"])).rstrip(" *") for f in F.need(V + "visit")}
    for c in sorted(F.subclasses("kratos::IRNode")):
        f = at(F, c, "accept")
        if short(c) == "IRNode" or "kratos::Generator" in F.bases(c) or (f.cls != c and any(x != c for x in F.subclasses(c))):
            continue
        own = c
        while own and short(own) not in handlers:
            own = next((b for b in F.classes[own].get("bases", []) if b in F.classes), None) if own in F.classes else None
        r.saw(f)
        own = short(own) if own else None
        if own is None:  # a kind no visitor can name
            continue
        row(F, r, "kind", f, lambda o, own=own: visited(o, own), key="%s goes to %s" % (short(c), own), opaque=("visit",), clue="handed once to visit(%s *)" % own)
    ga = F.need("kratos::Generator::accept")[0]
    for ext, when in ((False, ["!true this.is_external_", "empty this.lib_files_"]), (True, ["true this.is_external_"]), (True, ["!empty this.lib_files_"])):
        row(F, r, "kind", ga, lambda o, ext=ext: None if [(e[1].split(".")[-1], text(e[2][0])) for e in o.st.eff if e[0] == "call" and "visit" in e[1]] == [("visit_external" if ext else "visit", "this")] else "calls %s" % [e[1] for e in o.st.eff if e[0] == "call"],
            when, key="%s module%s" % ("external" if ext else "own", "" if when[0].startswith("true") or not ext else " from a library"), opaque=("visit", "visit_external"))
    # ---------------------------------------------------------------- walks
    O = ("accept", "visit_root", "visit_root_s", "visit_generator_root", "accept_generator", "get_child_generators", "get_nodes", "get_leveled_nodes", "GeneratorGraph", "get_num_cpus", "visit", "functions", "get_all_var_names", "get_var")
    K = lambda i: ("e", "k%d" % i)

    def seq(o):
        """the handlers and recursive traversals of a walk, in order"""
        out = []
        for e in o.st.eff:
            if e[0] == "call" and e[1].split(".")[-1] in ("accept", "accept_generator", "visit_external") and text(e[2][0]) == "this":
                out.append("handle " + e[1].rsplit(".", 1)[0])
            elif e[0] == "call" and e[1] in ("this.visit_root", "this.visit_root_s", "this.visit_generator_root", "this.visit"):
                out.append(("walk " if e[1] != "this.visit" else "handle ") + text(e[2][0]))
        return out

    def walks(want, level=True, mark=None):
        def check(o):
            if o.kind == "throw":
                return "rejects"
            s = seq(o)
            w = list(want)
            if mark:  # already visited children are skipped; the rest are marked
                w = [x for x in w if not (x.startswith("walk ") and assumed(o, "in", x[5:] + " in " + mark, True))]
                w = [x for x in want if not x.startswith("walk ") or not skipped(o, x[5:], mark)]
            if s != w:
                return "handles %s" % s
            lv = final(o, "this.level")
            if level and lv is not None and not poly.same(lv, "{this.level}"):
                return "leaves the level at %s" % text(lv)
            if mark:
                m = [k for k, _ in puts(o, mark)]
                if m != [x[5:] for x in w if x.startswith("walk ")]:
                    return "marks %s as visited" % m
        return check

    def skipped(o, x, mark):
        return any(a == ("in", x, mark) and p for a, p in o.st.trail) or any(atext(a, p) == "%s in %s" % (x, mark) for a, p in o.st.trail)

    def fixed(n, owner="$0"):
        d = {owner + ".child_count()": ("i", n)}
        d.update({"%s.get_child(%d)" % (owner, i): K(i) for i in range(n)})
        return d

    def shrinking(n, fn, owner="$0"):
        """children remove themselves when visited"""
        def left(st):
            gone = {text(e[2][0]) for e in st.eff if e[0] == "call" and e[1] == "this." + fn}
            return [K(i) for i in range(n) if "k%d" % i not in gone]
        d = {owner + ".child_count()": lambda st: ("i", len(left(st)))}
        for i in range(n):
            d["%s.get_child(%d)" % (owner, i)] = lambda st, i=i: left(st)[i] if i < len(left(st)) else ("null",)
        return d
    M = "this.visited_"
    for n in (0, 1, 2, 3):
        w = ["handle $0"] + ["walk k%d" % i for i in range(n)]
        row(F, r, "walk", V + "visit_root", walks(w, mark=M), given=fixed(n), key="%d children" % n, opaque=O, clue="the node, then every child not seen before")
        row(F, r, "walk", V + "visit_root_s", walks(w), given=fixed(n), key="%d children" % n, opaque=O, clue="the node, then every child")
        if n:
            row(F, r, "walk", V + "visit_root", walks(w), ["!k%d in %s" % (i, M) for i in range(n)], given=shrinking(n, "visit_root"), key="%d vanishing children" % n, opaque=O, clue="the node, then every child")
            row(F, r, "walk", V + "visit_root_s", walks(w), given=shrinking(n, "visit_root_s"), key="%d vanishing children" % n, opaque=O, clue="the node, then every child")
    tp = V + "visit_root_tp"
    row(F, r, "walk", tp, lambda o: None if seq(o) == ["walk $0"] else "handles %s" % seq(o), ["!$0.ast_node_type_ == GeneratorKind"], key="not a module", opaque=O)
    G = {"GeneratorGraph($0).get_nodes()": L("g1", "g2"), "GeneratorGraph($0).get_leveled_nodes()": ("list", (L("g1"), L("g2", "g3")))}
    own = lambda g: ["!true %s.is_external_" % g, "empty %s.lib_files_" % g, "!true %s.is_cloned_" % g]
    kinds = lambda ks: ["%sk%d.ast_node_type_ == GeneratorKind" % ("" if k == "G" else "!", i) for i, k in enumerate(ks)]
    for ks in ("SS", "SG", "S", ""):
        g = dict(G, **{"GeneratorGraph($0).get_nodes()": L("g1")})
        g.update(fixed(len(ks), "g1"))
        w = ["handle g1"] + ["walk k%d" % i for i, k in enumerate(ks) if k == "S"]
        row(F, r, "walk", tp, walks(w, level=False), ["$0.ast_node_type_ == GeneratorKind"] + own("g1") + kinds(ks), given=g, key="module with children %s" % ks, opaque=O + ("child_count", "get_child"), clue=w)
    row(F, r, "walk", tp, walks(["handle g1", "handle g2"], level=False), ["$0.ast_node_type_ == GeneratorKind"] + own("g1") + own("g2"), given=dict(G, **{"g1.child_count()": ("i", 0), "g2.child_count()": ("i", 0)}), key="every module", opaque=O + ("child_count", "get_child"))
    for skip in (["true g1.is_external_"], ["!empty g1.lib_files_"], ["true g1.is_cloned_"]):
        row(F, r, "walk", tp, walks([], level=False), ["$0.ast_node_type_ == GeneratorKind"] + skip, given=dict(G, **{"GeneratorGraph($0).get_nodes()": L("g1")}), key="skips a module with " + skip[0], opaque=O + ("child_count", "get_child"), clue="modules without contents are skipped")
    row(F, r, "walk", V + "visit_generator_root", walks(["handle $0", "walk g1", "walk g2"]), given={"$0.get_child_generators()": L("g1", "g2")}, key="instances", opaque=O)
    row(F, r, "walk", V + "visit_generator_root_tp", walks(["handle g1", "handle g2"], level=False), given=G, key="instances", opaque=O)

    def by_level(o):
        # deepest level first, and the level told to the handler is the level of the instance
        out, lv = [], None
        for e in o.st.eff:
            if e[0] == "store" and e[1] == "this.level":
                lv = text(e[2])
            elif e[0] == "call" and e[1].endswith(".accept_generator"):
                out.append((e[1].split(".")[0], lv))
        return None if sorted(out[:2]) == [("g2", "1"), ("g3", "1")] and out[2:] == [("g1", "0")] else "handles %s" % out
    row(F, r, "walk", V + "visit_generator_root_p", by_level, given=G, key="instances by level", opaque=O, clue="every instance once, deepest level first")
    g = {"$0.stmts_count()": ("i", 2), "$0.stmts_": L("k0", "k1"), "$0.get_child(0)": K(0), "$0.get_child(1)": K(1), "$0.get_stmt(0)": K(0), "$0.get_stmt(1)": K(1), "$0.functions()": ("list", (("tup", (("s", "f"), ("e", "f0"))),)), "$0.funcs_": ("list", (("tup", (("s", "f"), ("e", "f0"))),)),
         "$0.get_all_var_names()": ("list", (("s", "a"), ("s", "b"))), '$0.get_var("a")': ("e", "va"), '$0.get_var("b")': ("e", "vb")}
    every = {"walk k0", "walk k1", "walk f0", "handle va", "handle vb"}

    def content(o):
        s = seq(o)
        if not s or s[0] != "handle $0":
            return "handles %s first" % s[:1]
        if len(s) != len(set(s)) or set(s[1:]) != every:
            return "handles %s" % s
        if final(o, "this.level") is not None and not poly.same(final(o, "this.level"), "{this.level}"):
            return "leaves the level at %s" % text(final(o, "this.level"))
    row(F, r, "walk", V + "visit_content", content, ["!%s in %s" % (x, M) for x in ("k0", "k1", "f0", "va", "vb")], given=g, key="contents", opaque=O + ("stmts_count", "get_child"), clue="statements, variables and functions of the module, once each")
    row(F, r, "walk", V + "visit_content", lambda o: None if seq(o) == ["handle $0"] else "handles %s again" % seq(o)[1:], ["%s in %s" % (x, M) for x in ("k0", "k1", "f0", "va", "vb")], given=g, key="contents seen before", opaque=O + ("stmts_count", "get_child"))
    row(F, r, "walk", V + "visit_content_s", content, given=g, key="contents", opaque=O + ("stmts_count", "get_child", "get_stmt"), clue="statements, variables and functions of the module, once each")
    # ---------------------------------------------------------------- graph
    N = "this.nodes_"
    GG = "kratos::GeneratorGraph::"
    row(F, r, "graph", GG + "add_node", {"throw"}, ["$0 in " + N], key="an instance used twice")
    row(F, r, "graph", GG + "add_node", lambda o: None if o.kind != "throw" and [k for k, _ in puts(o, N)] == ["$0"] and text(puts(o, N)[0][1]) else "stores %s" % puts(o, N), ["!$0 in " + N], key="a new instance", clue="a node of its own")
    row(F, r, "graph", GG + "get_node", {"throw"}, ["!$0 in " + N], key="unknown instance")
    row(F, r, "graph", GG + "get_node", lambda o: None if text(o.val).lstrip("&") == N + "[$0]" else "yields %s" % outcome(o), ["$0 in " + N], key="known instance")
    row(F, r, "graph", GG + "get_nodes", lambda o: None if o.kind == "ret" and text(o.val) == "[each(%s)#1.generator]" % N else "yields %s" % outcome(o), loops=(1,), key="every instance", clue="every instance once")
    one = {"GeneratorVisitor": None, "GeneratorGraphVisitor": None}
    for f in F.all:
        if f.name == "visit" and short(f.cls or "") in one and f.body is not None:
            one[short(f.cls)] = f
    if None in one.values():
        raise AnalysisError("anchor vanished: the visitors that build the instance graph")
    row(F, r, "graph", one["GeneratorVisitor"], lambda o: None if [x[-1] for x in calls(o, "add_node")] == ["$0"] else "adds %s" % calls(o, "add_node"), opaque=("add_node",), key="each instance becomes a node")
    gx = {"$0.get_child_generators()": L("c1", "c2")}
    for a in ("this.g_", ):
        gx.update({a + ".get_node($0)": t("P"), a + ".get_node(c1)": t("C1"), a + ".get_node(c2)": t("C2")})
    gx.update({"C1.generator": t("c1"), "C2.generator": t("c2")})

    def linked(o):
        if o.kind == "throw":
            return "rejects"
        if text(final(o, "C1.parent")) != "P" or text(final(o, "C2.parent")) != "P":
            return "leaves the parents at %s, %s" % (text(final(o, "C1.parent")), text(final(o, "C2.parent")))
        k = [x for x, _ in puts(o, "P.children")]
        if k != ["c1", "c2"]:
            return "lists the children %s" % k
    row(F, r, "graph", one["GeneratorGraphVisitor"], linked, ["null C1.parent", "null C2.parent"], given=gv(F, gx), opaque=("get_node", "get_child_generators"), key="links instances", clue="every child knows its parent and is listed once")
    row(F, r, "graph", one["GeneratorGraphVisitor"], {"throw"}, ["!null C1.parent"], given=gv(F, gx), opaque=("get_node", "get_child_generators"), key="two parents")
    ctor = [f for f in F.all if f.cls == "kratos::GeneratorGraph" and f.name == "GeneratorGraph" and f.body is not None]
    for f in ctor:
        row(F, r, "graph", f, lambda o: None if [e[1].split(".")[-1] for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1].startswith("visit_")] == ["visit_generator_root"] * 2 and all(text(e[2][0]) == "$0" for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1].startswith("visit_")) else "calls %s" % [(e[1], [text(x) for x in e[2]]) for e in o.st.eff if e[0] == "call"], opaque=("visit_generator_root",), key="built from the whole hierarchy", clue="nodes first, then links")
    # a small hierarchy, in any order of its nodes: levels, and children before parents
    shapes = {"diamond": {"top": "ab", "a": "c", "b": "d", "c": "", "d": ""}, "chain": {"top": "a", "a": "b", "b": "c", "c": ""}, "leaf": {"top": ""}, "star": {"top": "abc", "a": "", "b": "", "c": ""}}
    E = lambda x: ("e", x)
    EL = lambda xs: ("list", tuple(E(x) for x in xs))
    for sn, ns in shapes.items():
        depth = {"top": 0}
        for n in ns:
            for x in ns[n]:
                depth[x] = depth[n] + 1
        H = {"this.root_": E("top")}
        for n in ns:
            for pre in ("this", "$0"):
                H["%s.get_node(%s)" % (pre, n)] = E("N" + n)
            H["%s.get_child_generators()" % n] = EL(ns[n])
            H["N%s.children" % n] = EL(ns[n])
            H["N%s.generator" % n] = E(n)

        def levels(o, depth=depth):
            if o.kind != "ret" or o.val[0] != "list" or any(x[0] != "list" for x in o.val[1]):
                return "yields %s" % outcome(o)
            got = [sorted(text(y) for y in x[1]) for x in o.val[1]]
            want = [sorted(n for n in depth if depth[n] == i) for i in range(max(depth.values()) + 1)]
            if got != want:
                return "yields the levels %s" % got
        row(F, r, "graph", GG + "get_leveled_nodes", levels, given=gv(F, H), opaque=("get_child_generators", "get_node"), key="levels of a %s" % sn, clue="every instance once, at its distance from the top")
        for order in (list(ns), list(ns)[::-1]):
            g = gv(F, dict(H, **{"this.nodes_": ("list", tuple(("tup", (E(n), E("N" + n))) for n in order))}))

            def sorted_(o, ns=ns):
                if o.kind != "ret" or o.val[0] != "list":
                    return "yields %s" % outcome(o)
                got = [text(x) for x in o.val[1]]
                if sorted(got) != sorted(ns):
                    return "yields %s" % got
                for n in ns:
                    for x in ns[n]:
                        if got.index(x) > got.index(n):
                            return "yields %s before its child %s" % (n, x)
            row(F, r, "graph", GG + "get_sorted_nodes", sorted_, given=g, opaque=("get_node",), depth=14, recur=8, key="order of a %s, %s first" % (sn, order[0]), clue="every instance once, after all its children")
    # the statement graph
    S = "kratos::StatementGraph::"
    row(F, r, "graph", S + "build_graph", lambda o: None if o.kind != "throw" and [k for k, _ in puts(o, "this.nodes_")] == ["s1", "s2", "f1"] and [x[-1] for x in calls(o, "add_stmt_child")] == ["s1", "s2", "f1"] else "adds %s and walks %s" % ([k for k, _ in puts(o, "this.nodes_")], calls(o, "add_stmt_child")),
        given=gv(F, {"this.root_.stmts_": EL(["s1", "s2"]), "this.root_.funcs_": ("list", (("tup", (("s", "f"), E("f1"))),))}), opaque=("add_stmt_child",), key="every top-level statement and function")
    g = {"$0.child_count()": ("i", 2), "$0.get_child(0)": E("s1"), "$0.get_child(1)": E("s2")}
    for k1 in (True, False):
        for k2 in (True, False):
            want = ["s%d" % (i + 1) for i, k in enumerate((k1, k2)) if k]
            kk = ["%ss1.ast_node_type_ == StmtKind" % ("" if k1 else "!"), "%ss2.ast_node_type_ == StmtKind" % ("" if k2 else "!"), "!null s1", "!null s2", "!s1 in this.nodes_", "!s2 in this.nodes_"]
            row(F, r, "graph", S + "add_stmt_child", lambda o, want=want: None if o.kind != "throw" and [k for k, _ in puts(o, "this.nodes_")] == want and [x[-1] for x in calls(o, "add_stmt_child")] == want else "adds %s (%s)" % ([k for k, _ in puts(o, "this.nodes_")], outcome(o)), kk,
                given=g, opaque=("child_count", "get_child"), recur=1, key="children %s" % (want or "without statements"))
    row(F, r, "graph", S + "add_stmt_child", {"throw"}, ["s1.ast_node_type_ == StmtKind", "!null s1", "s1 in this.nodes_"], given=g, opaque=("child_count", "get_child"), key="a statement used twice")


def visited(o, own):
    if o.kind == "throw":
        return "rejects"
    n = [e for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1] == "visit"]
    if len(n) != 1:
        return "is handed to %d handlers" % len(n)
    to = short(strip_type(n[0][3][0])).rstrip(" *") if len(n[0]) > 3 and n[0][3] else "?"
    if text(n[0][2][0]) != "this" or to != own:
        return "hands %s to visit(%s)" % (text(n[0][2][0]), to)
