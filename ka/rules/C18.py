"""Verification passes reject exactly the designs that break their rule, and nothing else."""
import itertools
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select

K = "kratos::"
GEN, STMT = "#GeneratorKind", "#StmtKind"
RELATIONAL = ("LessThan", "GreaterThan", "LessEqThan", "GreaterEqThan", "Neq", "Eq", "LAnd", "LOr")
REDUCTION = ("UAnd", "UOr", "UXor", "UNot")
EXPAND = ("Extend", "Concat", "Duplicate")


def passes(F):
    """driver -> (visitor class, traversal) as the driver's own code says"""
    out = {}
    for d in F.all:
        if d.file == "src/analysis.cc" and d.cls is None and d.body is not None:
            out[short(d.q)] = d
    return out


def visitor(F, r, rule, driver, walk, args=("$0",)):
    """the driver hands the whole design to one visitor; returns its class"""
    f = F.one(K + driver)
    outs, P = returns(F, f, opaque=("visit_root", "visit_root_s", "visit_root_p", "visit_root_tp", "visit_generator_root", "visit_generator_root_p", "visit_generator_root_tp", "nodes", "print_nodes", "fix_assignment_type", "values", "names", "structs", "dpi_funcs", "interfaces"), loops=(0,))
    cls = None
    for o in outs:
        for e in o.st.eff:
            if e[0] == "new" and K + "IRVisitor" in F.bases(K + last(e[1])):
                cls = K + last(e[1])
    r.saw(f)
    if cls is None:
        raise AnalysisError("anchor vanished: visitor of %s" % driver)
    for o in outs:
        w = [e[1].split(".")[-1] for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1].startswith("visit_")]
        a = [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "call" and e[1].split(".")[-1].startswith("visit_")]
        ok = len(w) == 1 and w[0] in walk and a[0] == list(args)
        r.ob(rule, "%s|traversal" % driver, ok, f.loc(), "%s walks the design by %s(%s), expected %s" % (driver, w, a, "/".join(walk)))
    return cls


def handler(F, cls, kind):
    fs = [f for f in F.all if f.cls == cls and f.name == "visit" and f.body is not None and strip_type(f.params[0]["t"]).replace("const ", "").rstrip(" *&").split("::")[-1] == kind]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: %s::visit(%s *)" % (short(cls), kind))
    return fs[0]


def handlers(F, r, rule, cls, kinds):
    """the visitor looks at exactly these kinds of nodes"""
    have = {strip_type(f.params[0]["t"]).rstrip(" *").split("::")[-1] for f in F.all if f.cls == cls and f.name == "visit" and f.body is not None}
    r.ob(rule, "%s|kinds" % short(cls), have >= set(kinds), "src/analysis.cc", "%s handles %s, expected %s" % (short(cls), sorted(have), sorted(kinds)))


GLOB = dict(opaque=("width", "to_string", "handle_name", "width_param", "get_all_var_names", "get_vars", "get_port_names", "get_var", "get_port", "const_gen", "get_builtin_function_info"), recur=9, depth=18)
VT = "#VarType::"


def module(vars=(), ports=(), **more):
    """objects of module `$0` with these variable and port names"""
    d = {"vars": ['"' + v for v in vars], "all_var_names": ['"' + v for v in list(vars) + list(ports)], "port_names": ['"' + v for v in ports]}
    for v in list(vars) + list(ports):
        d['get_var("%s")' % v] = v
        d['get_port("%s")' % v] = v
    d.update(more)
    return d


def judge(F, r, rule, f, objs, bad, key, args=None, calls_=None, extra=None, **kw):
    """on this small design the handler rejects iff `bad`"""
    kw = dict(GLOB, **kw)

    def check(o):
        if o.kind == "throw":
            if not bad:
                return "rejects a good design"
            if o.val is not None and "Internal" in text(o.val):
                return "fails internally (%s)" % text(o.val)[:60]
            return None
        if bad:
            return "accepts a bad design"
        if calls_ is not None:
            return calls_(o)
    row(F, r, rule, f, check, given=dict(world(F, objs), **dict({"Const::const_gen()": ("e", "cg")}, **(extra or {}))), key=key, args=args or {0: ("e", "$0")}, clue="rejected" if bad else "accepted", **kw)


def run(F, r, tier):
    r.rule("assign", "assignments whose widths, signs or nested expression widths differ are rejected, all others accepted", 40)
    assigns(F, r)
    r.rule("mixed", "a variable assigned both ways, or wired from a module it cannot see, is rejected; nothing else is", 60)
    mixed(F, r)
    r.rule("sensitivity", "only clocks and asynchronous resets may trigger a sequential block", 10)
    sensitivity(F, r)
    r.rule("reset", "a reset used against its declared kind or polarity is rejected; consistent use is accepted", 60)
    resets(F, r)
    r.rule("synthesis", "exactly the constructs that cannot be synthesised are reported", 14)
    synthesis(F, r)
    r.rule("return", "a function that returns a value does so on every path, and has nothing after the return", 60)
    returning(F, r)
    r.rule("latch", "a variable assigned on some but not all paths of combinational logic is reported, others are not", 40)
    latches(F, r)
    r.rule("driver", "bits driven twice in one scope are rejected; prioritised or disjoint assignments are accepted", 40)
    drivers(F, r)
    r.rule("loop", "a top-level wire assigned from itself is rejected", 20)
    loops(F, r)
    r.rule("flipflop", "a clocked block with a top-level if holds nothing else", 12)
    flipflops(F, r)
    r.rule("floating", "every bit of every output, and of every input below the top, is driven", 40)
    floating(F, r)
    r.rule("same", "two types or interfaces of one name are identical or rejected", 50)
    same(F, r)
    r.rule("extract", "registers and variables are listed once, by full name", 20)
    extract(F, r)
    r.rule("enable", "the condition recorded for a statement is the one under which it runs", 15)
    enables(F, r)


def assigns(F, r):
    R = "assign"
    v = visitor(F, r, R, "verify_assignments", ("visit_root_s", "visit_root"))
    f = handler(F, v, "AssignStmt")

    def stmt(lw, ls, rw, rs, const=False, **more):
        d = {"$0": {"left": "l", "right": "x"}, "l": {"width": lw, "signed": ls}, "x": {"width": rw, "signed": rs, "type": "#VarType::ConstValue" if const else "#VarType::Base", "value": 3}}
        d.update(more)
        return d
    for lw, rw, ls, rs in itertools.product((1, 8), (1, 8), (False, True), (False, True)):
        judge(F, r, R, f, stmt(lw, ls, rw, rs), lw != rw or ls != rs, "%d/%s := %d/%s" % (lw, ls, rw, rs))
    g = handler(F, v, "Generator")
    for n in range(4):
        for src in itertools.product("GS", repeat=n):
            objs = {"$0": module(["a"]), "a": {"sources": ["s%d" % i for i in range(n)]}}
            for i, c in enumerate(src):
                objs["s%d" % i] = {"parent": "p%d" % i}
                objs["p%d" % i] = {"ast_node_type": GEN if c == "G" else STMT}
            judge(F, r, R, g, objs, len(set(src)) > 1, "driven from %s" % "".join(src))
    for op in [m["q"] for m in F.enums[K + "ExprOp"]["c"]]:
        o = op.split("::")[-1]
        if o == "Conditional":
            continue
        free = o in RELATIONAL + REDUCTION + EXPAND
        for lw, rw in ((8, 8), (4, 8), (8, 4), (8, None), (4, None)):
            objs = stmt(8, False, 8, False)
            objs["x"] = {"width": 8, "signed": False, "type": "#VarType::Expression", "op": "#ExprOp::" + o, "left": "a", "right": "b" if rw else None}
            objs["a"] = {"width": lw, "type": "#VarType::Base"}
            objs["b"] = {"width": rw or 8, "type": "#VarType::Base"}
            judge(F, r, R, f, objs, not free and (lw != 8 or (rw or 8) != 8), "%s of %s and %s bits" % (o, lw, rw))
        # operands of every kind; nested on either side, or on both
        for kind in ("Expression", "Slice", "PortIO", "ConstValue", "Parameter", "Iter", "BaseCasted"):
            for side in ("left", "right"):
                objs = stmt(8, False, 8, False)
                objs["x"] = {"width": 8, "signed": False, "type": "#VarType::Expression", "op": "#ExprOp::" + o, "left": "a", "right": "b"}
                objs["a"], objs["b"] = {"width": 8, "type": VT + "Base"}, {"width": 8, "type": VT + "Base"}
                objs["a" if side == "left" else "b"] = {"width": 5, "type": VT + kind, "op": "#ExprOp::Add", "left": "c", "right": None, "value": 3}
                objs["c"] = {"width": 5, "type": VT + "Base"}
                judge(F, r, R, f, objs, not free, "%s with a 5 bit %s on the %s" % (o, kind, side))
        for lb, rb in itertools.product((False, True), repeat=2):
            objs = stmt(8, False, 8, False)
            objs["x"] = {"width": 8, "signed": False, "type": "#VarType::Expression", "op": "#ExprOp::" + o, "left": "a", "right": "b"}
            for n, b in (("a", lb), ("b", rb)):
                objs[n] = {"width": 8, "type": VT + "Expression", "op": "#ExprOp::Add", "left": n + "l", "right": n + "r"}
                objs[n + "l"], objs[n + "r"] = {"width": 8, "type": VT + "Base"}, {"width": 7 if b else 8, "type": VT + "Base"}
            judge(F, r, R, f, objs, lb or rb, "%s of sums, %s wrong" % (o, [x for x, y in (("left", lb), ("right", rb)) if y]))


def mixed(F, r):
    R = "mixed"
    v = visitor(F, r, R, "check_mixed_assignment", ("visit_generator_root_tp", "visit_generator_root_p", "visit_generator_root"))
    f = handler(F, v, "Generator")
    # assignment kinds; a source whose target belongs to another variable is not counted
    for as_port in (False, True):
        for n in (1, 2, 3):
            for kinds in itertools.product("BNo", repeat=n):
                objs = {"$0": module(*(([], ["a"]) if as_port else (["a"], []))), "a": {"sources": ["s%d" % i for i in range(n)], "type": VT + "Base"}}
                for i, c in enumerate(kinds):
                    objs["s%d" % i] = {"left": "l%d" % i, "right": "x", "assign_type": "#AssignmentType::" + ("Blocking" if c == "B" else "NonBlocking")}
                    objs["l%d" % i] = {"get_var_root_parent()": "a" if c != "o" else "b", "type": VT + "Base", "generator()": "$0"}
                objs["x"] = {"generator()": "$0", "type": VT + "Base"}
                own = set(kinds) - {"o"}
                judge(F, r, R, f, objs, len(own) > 1, "%s assigned %s" % ("port" if as_port else "variable", "".join(kinds)))
    # where the right-hand side may live: $0 sits in P, c is a child of $0, s a sibling in P, far is neither
    where = {"self": "$0", "child": "c", "sibling": "s", "parent": "P", "far": "far", "const": "cg"}
    tree = {"c": {"parent()": "$0", "parent_generator": "$0"}, "s": {"parent()": "P", "parent_generator": "P"}, "P": {"parent()": "T", "parent_generator": "T"}, "far": {"parent()": "F", "parent_generator": "F"}, "cg": {"parent()": None, "parent_generator": None}}
    for dst in ("var", "in", "out", "slice of in", "slice of var"):
        for rhs, g in where.items():
            for kind in ("Base", "PortIO", "ConstValue", "slice of Base", "slice of PortIO", "ports", "port and Base", "Base and port", "port alone", "variable alone", "Parameter", "Iter"):
                if rhs == "const" and kind != "ConstValue":
                    continue
                port = dst.endswith("in") or dst == "out"
                objs = {"$0": module(["a"], parent_generator="P", **{"parent()": "P"}), "a": {"sources": ["s0"]}, "s0": {"left": "l", "right": "x", "assign_type": "#Blocking"}}
                objs.update(tree)
                a = {"type": VT + ("PortIO" if port else "Base"), "generator()": "$0", "direction": "#PortDirection::" + ("In" if dst.endswith("in") else "Out"), "get_var_root_parent()": "a"}
                objs["a"].update(a)
                objs["l"] = dict(a) if not dst.startswith("slice") else {"type": VT + "Slice", "generator()": "$0", "get_var_root_parent()": "a", "parent_var": "l2"}
                objs["l2"] = dict(objs["l"], parent_var="a", type=VT + "Slice")
                leaf = lambda t: {"generator()": g, "type": VT + t}
                objs["x"] = leaf(kind) if " " not in kind and kind != "ports" else dict(leaf("Slice" if kind.startswith("slice") else "Expression"), parent_var="y", left="y", right="z")
                objs["y"] = leaf("PortIO" if kind.startswith(("port", "slice of P")) else "Base")
                objs["z"] = leaf("Base" if kind == "port and Base" else "PortIO")
                if "alone" in kind:
                    objs["x"]["right"] = None
                ports = kind in ("PortIO", "ConstValue", "slice of PortIO", "ports", "port alone")
                if rhs in ("self", "const") or kind == "ConstValue":
                    bad = False
                elif dst.endswith("in"):
                    bad = rhs not in ("parent", "sibling")
                else:
                    bad = rhs not in ("child", "sibling") or not ports
                judge(F, r, R, f, dict(objs, **{}), bad, "%s of the module from %s in %s" % (dst, kind, rhs))


def sensitivity(F, r):
    R = "sensitivity"
    v = visitor(F, r, R, "check_always_sensitivity", ("visit_root", "visit_root_s"))
    f = handler(F, v, "SequentialStmtBlock")
    def one(t, pt=None, ct=None):
        return {"type": VT + t, "port_type": "#PortType::" + (pt or "Data"), "cast_type": "#VarCastType::" + (ct or "Signed")}
    cases = {("PortIO", p, None): p in ("Clock", "AsyncReset") for p in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable")}
    cases.update({("BaseCasted", None, c["q"].split("::")[-1]): c["q"].split("::")[-1] in ("Clock", "AsyncReset") for c in F.enums[K + "VarCastType"]["c"]})
    cases.update({(t["q"].split("::")[-1], None, None): False for t in F.enums[K + "VarType"]["c"] if t["q"].split("::")[-1] not in ("PortIO", "BaseCasted")})
    for c, ok in cases.items():
        objs = {"$0": {"conditions": ["c0", "c1"]}, "c0": {"var": "clk"}, "c1": {"var": "x"}, "clk": one("PortIO", "Clock"), "x": one(*c)}
        judge(F, r, R, f, objs, not ok, "%s %s" % (c[0], c[1] or c[2] or ""))
        objs["$0"]["conditions"] = ["c1", "c0"]
        judge(F, r, R, f, objs, not ok, "%s %s first" % (c[0], c[1] or c[2] or ""))
    judge(F, r, R, f, {"$0": {"conditions": []}}, False, "no events")


def resets(F, r):
    R = "reset"
    v = visitor(F, r, R, "check_active_high", ("visit_root_s", "visit_root"))
    ff, fi = handler(F, v, "SequentialStmtBlock"), handler(F, v, "IfStmt")
    tab = sorted({e[1].split(".emplace")[0] for o in returns(F, ff, given=world(F, {"$0": {"conditions": ["c0"]}, "c0": {"var": "p", "edge": "#Posedge"}, "p": {"type": VT + "PortIO", "port_type": "#PortType::AsyncReset", "active_high": None}}), **GLOB)[0] for e in o.st.eff if e[0] == "call" and ".emplace" in e[1]})
    for pt in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable"):
        for edge in ("Posedge", "Negedge"):
            for decl in (None, True, False):
                for seen in (None, True, False):
                    objs = {"$0": {"conditions": ["c0"]}, "c0": {"var": "p", "edge": "#" + edge}, "p": {"type": VT + "PortIO", "port_type": "#PortType::" + pt, "active_high": None if decl is None else ("opt", ("b", decl))}, "this": {"reset_map": {} if seen is None else {"p": seen}, "reset_stmt": {} if seen is None else {"p": "st"}}}
                    hi = edge == "Posedge"
                    bad = pt == "Reset" or pt == "AsyncReset" and (decl is not None and decl != hi or seen is not None and seen != hi)
                    def rec(o, pt=pt, seen=seen, hi=hi):
                        m = final(o, "this.reset_map_")
                        got = [tuple(text(y) for y in x[1]) for x in m[1]] if m and m[0] == "list" else [] if seen is None else [("p", str(seen).lower())]
                        want = [("p", str(hi if seen is None else seen).lower())] if pt == "AsyncReset" or seen is not None else []
                        return None if got == want else "remembers %s" % got
                    judge(F, r, R, ff, objs, bad, "%s %s, declared %s, seen %s" % (pt, edge, decl, seen), calls_=rec)
    judge(F, r, R, ff, {"$0": {"conditions": ["c0"]}, "c0": {"var": "p", "edge": "#Posedge"}, "p": {"type": VT + "Base"}}, False, "not a port")
    for pt in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable"):
        for op in (None, "UNot", "UInvert", "UOr", "Eq"):
            for seen in (None, True, False):
                p = {"type": VT + "PortIO", "port_type": "#PortType::" + pt}
                objs = {"$0": {"predicate": "p" if op is None else "e"}, "p": p, "e": {"type": VT + "Expression", "op": "#ExprOp::" + (op or "Eq"), "left": "p", "right": None}, "this": {"reset_map": {} if seen is None else {"p": seen}, "reset_stmt": {} if seen is None else {"p": "st"}}}
                low = op in ("UNot", "UInvert")
                bad = (op is None or low) and (pt == "AsyncReset" and (seen is None or seen == low) or pt == "Reset" and seen is not None)
                judge(F, r, R, fi, objs, bad, "if (%s %s), seen %s" % (op or "", pt, seen))
    judge(F, r, R, fi, {"$0": {"predicate": "p"}, "p": {"type": VT + "Base"}, "this": {"reset_map": {}}}, False, "if (variable)")


def synthesis(F, r):
    R = "synthesis"
    v = visitor(F, r, R, "check_non_synthesizable_content", ("visit_root",))
    handlers(F, r, R, v, ("AssignStmt", "FunctionCallVar", "FunctionCallStmt", "AuxiliaryStmt", "InitialStmtBlock", "CombinationalStmtBlock"))

    def flags(kind, objs, bad, key, extra=None, **kw):
        def chk(o):
            if o.kind == "throw":
                return "fails"
            got = [k for k, _ in puts(o, "this.nodes_")]
            return None if got == (["$0"] if bad else []) else "reports %s" % got
        row(F, r, R, handler(F, v, kind), chk, given=dict(world(F, objs), **(extra or {})), key=key, args={0: ("e", "$0")}, clue="reported" if bad else "not reported", **dict(GLOB, **kw))
    for d in (True, False):
        flags("AssignStmt", {"$0": {"has_delay()": d, "delay": "d" if d else None}}, d, "assignment %s delay" % ("with" if d else "without"))
        flags("CombinationalStmtBlock", {"$0": {"general_purpose": d}}, d, "%s combinational block" % ("general" if d else "plain"))
        for t in (True, False):
            flags("FunctionCallVar", {"$0": {"func": "f", "func_def": "f"}, "f": {"is_dpi()": d, "is_task()": t}}, d or t, "value of a call, dpi %s task %s" % (d, t))
        for b in (True, False):
            for info, syn in ((False, False), (True, True), (True, False)):
                objs = {"$0": {"func": "f"}, "f": {"is_dpi()": d, "is_builtin()": b, "function_name": '"fn'}, "fi": {"synthesizable": syn}}
                flags("FunctionCallStmt", objs, d or b and info and not syn, "call, dpi %s builtin %s known %s synthesizable %s" % (d, b, info, syn), extra={'get_builtin_function_info("fn")': ("opt", ("e", "fi")) if info else ("null",)})
    for k in ("AuxiliaryStmt", "InitialStmtBlock"):
        flags(k, {}, True, k)
    f = F.one(K + "check_non_synthesizable_content")
    for n in range(3):
        row(F, r, R, f, lambda o, n=n: None if (o.kind == "throw") == (n > 0) else "throws with nothing found" if o.kind == "throw" else "accepts the design", given={"%s().nodes()" % short(v): ("list", tuple(("e", "n%d" % i) for i in range(n))), "%s().nodes_" % short(v): ("list", tuple(("e", "n%d" % i) for i in range(n)))}, key="%d found" % n, opaque=("visit_root", "print_nodes"))


# ---- statement trees: "R" a return / the assignment looked for, "A" anything else, ("B", kids), ("I", then, else),
#      ("S", width, [case bodies], default body or None, enum size or None), ("F", body)
def build(tree, objs, leaf, n=None):
    n = n if n is not None else [0]
    nm = "n%d" % n[0]
    n[0] += 1
    if isinstance(tree, str):
        objs[nm] = leaf(tree)
        return nm
    k = tree[0]
    if k == "B":
        ks = [build(x, objs, leaf, n) for x in tree[1]]
        objs[nm] = {"type": "#StatementType::Block", "block_type": "#StatementBlockType::" + (tree[2] if len(tree) > 2 else "Scope"), "stmts": ks, "size()": len(ks)}
        for i, x in enumerate(ks):
            objs[nm]["get_stmt(%d)" % i] = x
    elif k == "I":
        a, b = build(tree[1], objs, leaf, n), build(tree[2], objs, leaf, n)
        objs[nm] = {"type": "#StatementType::If", "then_body": a, "else_body": b}
    elif k == "S":
        cs = [build(x, objs, leaf, n) for x in tree[2]]
        body = [("tup", (("e", "case%d" % i), ("e", x))) for i, x in enumerate(cs)]
        if tree[3] is not None:
            body.append(("tup", (("null",), ("e", build(tree[3], objs, leaf, n)))))
        objs[nm] = {"type": "#StatementType::Switch", "body": ("list", tuple(body)), "target": nm + "t"}
        objs[nm + "t"] = {"width": tree[1], "is_enum()": tree[4] is not None, "enum_type()": nm + "d"}
        objs[nm + "d"] = {"values": [i for i in range(tree[4] or 0)]}
    elif k == "F":
        b = build(tree[1], objs, leaf, n)
        objs[nm] = {"type": "#StatementType::For", "loop_body": b, "get_loop_body()": b}
    return nm


def covered(t, full=True):
    """does every (or, not full, some) path through the tree contain R"""
    if isinstance(t, str):
        return t == "R"
    if t[0] == "B":
        return any(covered(x, full) for x in t[1])
    if t[0] == "I":
        return (covered(t[1], full) and covered(t[2], full)) if full else (covered(t[1], full) or covered(t[2], full))
    if t[0] == "S":
        bs = [covered(x, full) for x in t[2]] + ([covered(t[3], full)] if t[3] is not None else [])
        if not bs:
            return False
        if not full:
            return any(bs)
        return all(bs) and (t[3] is not None or len(t[2]) == (t[4] if t[4] is not None else 1 << t[1]))
    if t[0] == "F":
        return covered(t[1], full)


def dead(t):
    """something follows the R of a block"""
    if isinstance(t, str):
        return False
    if t[0] == "B":
        for i, x in enumerate(t[1]):
            if dead(x):
                return True
            if covered(x):
                return i != len(t[1]) - 1
        return False
    if t[0] == "I":
        return dead(t[1]) or dead(t[2])
    if t[0] == "S":
        return any(dead(x) for x in t[2] + ([t[3]] if t[3] is not None else []))
    return dead(t[1])


def trees():
    B = lambda *k: ("B", list(k))
    one, no = B("R"), B("A")
    out = [B(*k) for n in range(4) for k in itertools.product("RA", repeat=n)]
    ifs = [("I", B(*a), B(*b)) for a in ("R", "A", "", "AR", "RA") for b in ("R", "A", "")]
    out += [B(i) for i in ifs] + [B(i, "A") for i in ifs[:6]] + [B(i, "R") for i in ifs[:6]] + [B("A", i) for i in ifs[:3]]
    for w, n, d, en in ((1, 2, None, None), (1, 1, None, None), (2, 3, None, None), (2, 4, None, None), (2, 1, 1, None), (3, 0, 1, None), (1, 0, None, None), (2, 3, None, 3), (2, 2, None, 3), (32, 1, 1, None), (32, 1, None, None), (64, 2, None, None), (33, 2, None, None)):
        for flip in (None, 0, "d"):
            cs = [one if flip != i else no for i in range(n)]
            df = None if d is None else (no if flip == "d" else one)
            if flip == 0 and not n or flip == "d" and d is None:
                continue
            out.append(B(("S", w, cs, df, en)))
    out.append(B(("S", 1, [one, no], one, None)))
    out += [B(("F", one)), B(("F", no)), B(("F", one), "A"), B(("F", B(("I", one, no)))), B(("I", B(("I", one, one)), one)), B(("I", B(("I", one, no)), one)), B(("I", B(("I", one, no)), one), "R"), B(B("R"), "A"), B(B("A"), "R"), B(B(), B("R"))]
    return out


def shape_of(t):
    if isinstance(t, str):
        return t
    return t[0] + "(" + ",".join(shape_of(x) for x in (t[1] if t[0] == "B" else t[1:3] if t[0] == "I" else t[2] + (["d:"] + [t[3]] if t[3] is not None else []) if t[0] == "S" else t[1:2])) + ("/%s%s" % (t[1], "e" if t[4] is not None else "") if t[0] == "S" else "") + ")"


def returning(F, r):
    R = "return"
    v = visitor(F, r, R, "check_function_return", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    leaf = lambda t: {"type": "#StatementType::" + ("Return" if t == "R" else "Assign")}
    for t in trees():
        for has, builtin in ((True, False), (False, False), (True, True)):
            if (not has or builtin) and t[1] and len(t[1]) > 1:
                continue
            objs = {}
            root = build(t, objs, leaf)
            objs[root].update({"has_return_value()": has, "is_builtin()": builtin, "function_name": '"f', "block_type": "#StatementBlockType::Function"})
            objs["$0"] = {"functions()": {'"f': root}, "funcs": {'"f': root}}
            bad = has and not builtin and (not covered(t) or dead(t))
            judge(F, r, R, f, objs, bad, "%s%s%s" % (shape_of(t), "" if has else " void", " builtin" if builtin else ""))
    # two functions: each is looked at
    for bads in ((0, 0), (0, 1), (1, 0)):
        objs, names = {}, {}
        for i, b in enumerate(bads):
            o2 = {}
            root = build(("B", ["A" if b else "R"]), o2, leaf, [100 * i])
            o2[root].update({"has_return_value()": True, "is_builtin()": False, "function_name": '"f%d' % i})
            objs.update(o2)
            names['"f%d' % i] = root
        objs["$0"] = {"functions()": names, "funcs": names}
        judge(F, r, R, f, objs, any(bads), "two functions %s" % (bads,))


def field(F, cls, frag):
    fs = [x["n"] for x in F.classes[cls].get("fields", []) if frag in x["t"].replace(" ", "")]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: the %s of %s" % (frag, short(cls)))
    return fs[0]


def latches(F, r):
    R = "latch"
    v = visitor(F, r, R, "check_inferred_latch", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    inner = [c for c in F.subclasses(K + "IRVisitor") if c.startswith(v + "::")]
    av = [c for c in inner if any(x.cls == c and x.name == "visit" and "AssignStmt" in x.params[0]["t"] for x in F.all)]
    iv = [c for c in inner if any(x.cls == c and x.name == "visit" and "IfStmt" in x.params[0]["t"] for x in F.all)]
    if len(av) != 1 or len(iv) != 1:
        raise AnalysisError("anchor vanished: helpers of %s" % v)
    av, iv = av[0], iv[0]
    am, im = field(F, av, "map<"), field(F, iv, "set<")
    seen = "%s().%s" % (short(av), am)
    kw = dict(opaque=GLOB["opaque"] + ("visit_root", "get_stmt", "stmts_count"))

    def leaf(t):
        d = {"type": "#StatementType::Assign", "left": {"R": "v", "r": "vs"}.get(t, "w")}
        return d
    base = {"v": {"type": VT + "Base"}, "w": {"type": VT + "Base"}, "vs": {"type": VT + "Slice", "get_var_root_parent()": "v", "parent_var": "v"}}

    def top(t, kind):
        objs = dict(base)
        root = build(t, objs, leaf)
        objs[root].update({"type": "#StatementType::Block", "block_type": "#StatementBlockType::" + kind})
        objs["$0"] = {"stmts_count()": 1, "get_stmt(0)": root}
        return objs, root
    some = lambda t: t == "R" if isinstance(t, str) else any(some(x) for x in (t[1] if t[0] == "B" else t[1:3] if t[0] == "I" else t[2] + ([t[3]] if t[3] is not None else []) if t[0] == "S" else t[1:2]))
    low = lambda t: "r" if t == "R" else t if isinstance(t, str) or t is None else [low(x) for x in t] if isinstance(t, list) else tuple(x if isinstance(x, (int, type(None))) or i == 0 else low(x) for i, x in enumerate(t))
    for t in trees():
        if not some(t):
            continue
        for part in (False, True):
            objs, root = top(low(t) if part else t, "Combinational")
            judge(F, r, R, f, objs, not covered(t), "combinational %s%s" % (shape_of(t), " by slices" if part else ""), extra={seen: ("list", (("tup", (("e", "v"), ("list", (("e", "a0"),)))),))}, **kw)
    # two variables: both are looked at
    for t, bad in ((("B", ["R", "A"]), False), (("B", [("I", ("B", ["R", "A"]), ("B", ["R"]))]), True), (("B", [("I", ("B", ["R", "A"]), ("B", ["A"]))]), True), (("B", [("I", ("B", ["R", "A"]), ("B", ["A", "R"]))]), False)):
        objs, root = top(t, "Combinational")
        judge(F, r, R, f, objs, bad, "combinational %s, two variables" % shape_of(t), extra={seen: ("list", tuple(("tup", (("e", x), ("list", (("e", "a0"),)))) for x in "vw"))}, **kw)
    for kind in ("Initial", "Scope", "Latch"):
        objs, root = top(("B", [("I", ("B", ["R"]), ("B", []))]), kind)
        judge(F, r, R, f, objs, False, "%s block" % kind, extra={seen: ("list", (("tup", (("e", "v"), ("list", (("e", "a0"),)))),))}, **kw)
    # clocked logic: what one branch of a reset assigns, the rest assigns as well
    for ev, skip in ((("PortIO", "Clock"), True), (("PortIO", "AsyncReset"), False), (("PortIO", "Data"), False), (("Base", "Clock"), False), (("BaseCasted", "Clock"), False)):
        for els in (("B", []), ("B", ["A"]), ("B", ["R"]), ("B", ["A", "R"]), ("B", [("I", ("B", ["R"]), ("B", []))]), ("B", [("I", ("B", ["A"]), ("B", ["A"]))]), ("B", [("I", ("B", ["A"]), ("B", ["R"]))]), ("B", [("S", 2, [("B", ["R"])], None, None)]), ("B", [("S", 2, [("B", ["A"]), ("B", ["R"])], None, None)]), ("B", [("S", 2, [("B", ["A"])], ("B", ["A"]), None)]), ("B", [("F", ("B", ["R"]))])):
            for first in (True, False):
                objs = dict(base)
                root = build(("B", [("I", ("B", ["R"]), els)]), objs, leaf)
                objs[root].update({"block_type": "#StatementBlockType::Sequential", "conditions": ["c0", "c1"] if first else ["c1", "c0"]})
                objs.update({"c0": {"var": "clk"}, "c1": {"var": "rst"}, "clk": {"type": VT + "PortIO", "port_type": "#PortType::Clock"}, "rst": {"type": VT + ev[0], "port_type": "#PortType::" + ev[1]}})
                objs["$0"] = {"stmts_count()": 1, "get_stmt(0)": root}
                i = [k for k, d in objs.items() if d.get("type") == "#StatementType::If"][0]
                ex = {seen: ("list", (("tup", (("e", "v"), ("list", (("e", "a0"),)))),)), "%s(rst).%s" % (short(iv), im): ("list", (("e", "n1"),)), "%s(clk).%s" % (short(iv), im): ("list", (("e", "n1"),))}
                judge(F, r, R, f, objs, not skip and not covered(els, False), "clocked by %s %s, else %s%s" % (ev[0], ev[1], shape_of(els), "" if first else ", listed first"), extra=ex, **kw)
    # the ifs that test a variable, the variables that a body assigns
    fi = handler(F, iv, "IfStmt")
    vf = field(F, iv, "Var*")
    for name, pred, hit in (("itself", {"p": {"type": VT + "Base"}}, False), ("the variable", None, True), ("inverted", {"p": {"type": VT + "Expression", "left": "x", "right": None}}, True), ("right operand", {"p": {"type": VT + "Expression", "left": "y", "right": "x"}}, True),
                            ("left operand", {"p": {"type": VT + "Expression", "left": "x", "right": "y"}}, True), ("other operands", {"p": {"type": VT + "Expression", "left": "y", "right": "y"}}, False), ("bit", {"p": {"type": VT + "Slice", "get_var_root_parent()": "x", "parent_var": "x"}}, True),
                            ("nested", {"p": {"type": VT + "Expression", "left": "q", "right": "y"}, "q": {"type": VT + "Expression", "left": "y", "right": "x"}}, True), ("bit of another", {"p": {"type": VT + "Slice", "get_var_root_parent()": "y", "parent_var": "y"}}, False)):
        objs = dict({"$0": {"predicate": "p" if pred else "x"}, "x": {"type": VT + "Base"}, "y": {"type": VT + "Base"}, "this": {vf: "x"}}, **(pred or {}))
        row(F, r, R, fi, lambda o, hit=hit: None if o.kind != "throw" and ("$0" in [k for k, _ in puts(o, "this." + im)]) == hit else "collects %s" % puts(o, "this." + im), given=world(F, objs), args={0: ("e", "$0")}, key="if on %s" % name, clue="collected" if hit else "left out", **GLOB)
    fa = handler(F, av, "AssignStmt")
    for kind, want in (("Base", "l"), ("PortIO", "l"), ("Slice", "root"), ("indexed", None)):
        objs = {"$0": {"left": "l"}, "l": {"type": VT + ("Slice" if kind in ("Slice", "indexed") else kind), "get_var_root_parent()": "root", "parent_var": "root", "sliced_by_var()": kind == "indexed"}, "root": {"type": VT + "Base"}}

        def chk(o, want=want):
            got = [e for e in o.st.eff if e[0] == "call" and "emplace_back" in e[1] or e[0] == "call" and "push_back" in e[1]]
            got = [(e[1].rsplit(".", 1)[0], [text(x) for x in e[2]]) for e in got]
            exp = [("this.%s[%s]" % (am, want), ["$0"])] if want else []
            return None if got == exp else "collects %s" % got
        row(F, r, R, fa, chk, given=world(F, objs), args={0: ("e", "$0")}, key="assignment to a %s" % kind, clue="collected for %s" % want, **GLOB)


def drivers(F, r):
    R = "driver"
    v = visitor(F, r, R, "check_multiple_driver", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    # where a statement sits: path of scopes from the module; the first is the block it belongs to
    places = {"module": (), "comb": ("c",), "comb if": ("c", "ci"), "latch": ("l",), "seq": ("q",), "seq then": ("q", "qi", "qt"), "seq else": ("q", "qi", "qe"), "seq other if": ("q", "qj", "qu"), "seq2": ("q2",), "initial": ("i",), "initial if": ("i", "ii"), "seq loop": ("q", "qf", "qg")}
    kinds = {"c": "Combinational", "l": "Latch", "q": "Sequential", "q2": "Sequential", "i": "Initial"}
    scopes = {}
    for path in places.values():
        for i, p in enumerate(path):
            scopes[p] = {"parent": path[i - 1] if i else "$0", "ast_node_type": STMT, "type": "#StatementType::" + ("For" if p == "qf" else "If" if p in ("ci", "qi", "qj", "ii") else "Block"), "block_type": "#StatementBlockType::" + kinds.get(p, "Scope")}

    def bad(a, b):
        pa, pb = places[a], places[b]
        if "loop" in a + b:
            return False
        if not pa or not pb:
            return True  # each continuous assignment is a scope of its own
        if pa[0] != pb[0]:
            return True
        k = kinds[pa[0]]
        if k in ("Combinational", "Latch"):
            return False
        if pa == pb:
            return True
        if k == "Sequential":
            return not set(pa[1:]) & set(pb[1:])
        return False
    K2 = dict(opaque=GLOB["opaque"] + ("var_low", "var_high", "get_var_root_parent"))

    def design(port, srcs):
        objs = dict(scopes)
        objs["$0"] = module(*(([], ["a"]) if port else (["a"], [])), ast_node_type=GEN, parent=None)
        objs["a"] = {"type": VT + "Base", "sources": ["s%d" % i for i in range(len(srcs))], "get_var_root_parent()": "a"}
        for i, (pl, lo, hi, *how) in enumerate(srcs):
            objs["s%d" % i] = {"parent": places[pl][-1] if places[pl] else "$0", "ast_node_type": STMT, "type": "#StatementType::Assign", "left": "l%d" % i}
            objs["l%d" % i] = {"type": VT + ("Slice" if how else "Base"), "var_low()": lo, "var_high()": hi, "get_var_root_parent()": "b" if "other" in how else "a", "sliced_by_var()": "index" in how}
        return objs
    for a, b in itertools.product(places, repeat=2):
        judge(F, r, R, f, design(False, [(a, 0, 3), (b, 0, 3)]), bad(a, b), "%s and %s" % (a, b), **K2)
    for (l1, h1), (l2, h2) in (((0, 3), (4, 7)), ((4, 7), (0, 3)), ((0, 3), (3, 7)), ((0, 0), (0, 0)), ((0, 7), (2, 2)), ((1, 1), (0, 0))):
        over = l1 <= h2 and l2 <= h1
        for port in (False, True):
            judge(F, r, R, f, design(port, [("module", l1, h1, "slice"), ("module", l2, h2, "slice")]), over, "%s bits %d..%d and %d..%d" % ("port" if port else "variable", l1, h1, l2, h2), **K2)
    judge(F, r, R, f, design(False, [("module", 0, 3, "index"), ("module", 0, 3, "slice")]), False, "an indexed element", **K2)
    judge(F, r, R, f, design(False, [("module", 0, 3, "other"), ("module", 0, 3)]), False, "a part of another variable", **K2)
    judge(F, r, R, f, design(False, [("module", 0, 0, "slice"), ("seq", 1, 1, "slice"), ("comb", 0, 0, "slice")]), True, "third source", **K2)
    judge(F, r, R, f, design(False, [("seq loop", 0, 3), ("module", 0, 3), ("comb", 0, 3)]), True, "a loop before two drivers", **K2)
    judge(F, r, R, f, design(False, [("module", 0, 3), ("seq loop", 0, 3), ("comb", 0, 3)]), True, "a loop between two drivers", **K2)
    judge(F, r, R, f, design(False, []), False, "undriven", **K2)
    judge(F, r, R, f, design(True, [("module", 0, 3)]), False, "one driver", **K2)


def loops(F, r):
    R = "loop"
    v = visitor(F, r, R, "check_combinational_loop", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    for port in (False, True):
        for kind, top, rhs in itertools.product(("Blocking", "NonBlocking", "Undefined"), (True, False), ("self", "other", "left", "right", "deep", "none", "slice")):
            objs = {"$0": module(*(([], ["a"]) if port else (["a"], []))), "a": {"type": VT + "Base", "sources": ["s0", "s1"]}, "b": {"type": VT + "Base"}, "s0": {"left": "a", "right": "b", "assign_type": "#AssignmentType::Blocking", "parent": "p"},
                    "s1": {"left": "a", "right": {"self": "a", "other": "b", "slice": "s"}.get(rhs, "e"), "assign_type": "#AssignmentType::" + kind, "parent": "p"}, "p": {"ast_node_type": GEN if top else STMT}, "s": {"type": VT + "Slice", "parent_var": "a", "get_var_root_parent()": "a"},
                    "e": {"type": VT + "Expression", "left": "a" if rhs == "left" else "b", "right": {"right": "a", "deep": "e2"}.get(rhs)}, "e2": {"type": VT + "Expression", "left": "b", "right": "a"}}
            judge(F, r, R, f, objs, kind == "Blocking" and top and rhs in ("self", "left", "right", "deep"), "%s %s %s from %s" % ("port" if port else "variable", kind, "at top" if top else "in a block", rhs))
            if rhs in ("self", "other", "left", "right"):
                objs["s1"]["left"] = "s"
                judge(F, r, R, f, objs, kind == "Blocking" and top and rhs != "other", "part of a %s %s %s from %s" % ("port" if port else "variable", kind, "at top" if top else "in a block", rhs))


def flipflops(F, r):
    R = "flipflop"
    v = visitor(F, r, R, "check_flip_flop_always_ff", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    for bt in [c["q"].split("::")[-1] for c in F.enums[K + "StatementBlockType"]["c"]]:
        for n in range(4):
            for kids in itertools.product(("If", "Assign"), repeat=n):
                if bt != "Sequential" and n != 2:
                    continue
                objs = {"$0": {"stmts": ["x", "b"]}, "x": {"type": "#StatementType::Assign"}, "b": {"type": "#StatementType::Block", "block_type": "#StatementBlockType::" + bt, "size()": n, "stmts": ["k%d" % i for i in range(n)]}}
                for i, k in enumerate(kids):
                    objs["b"]["get_stmt(%d)" % i] = "k%d" % i
                    objs["k%d" % i] = {"type": "#StatementType::" + k}
                judge(F, r, R, f, objs, bt == "Sequential" and "If" in kids and n > 1, "%s block of %s" % (bt, ",".join(kids)))


def floating(F, r):
    R = "floating"
    v = visitor(F, r, R, "verify_generator_connectivity", ("visit_generator_root",))
    f = handler(F, v, "Generator")
    top = [x["n"] for x in F.classes[v].get("fields", []) if x["t"] == "bool"]
    if len(top) != 1:
        raise AnalysisError("anchor vanished: the top-level flag of %s" % v)
    ini = [x for x in F.classes[v]["fields"] if x["n"] == top[0]]
    drive = {"nothing": [], "whole": ["w"], "all slices": [(0, 1), (2, 3)], "overlapping": [(0, 2), (1, 3)], "low half": [(0, 1)], "hole": [(0, 0), (2, 3)], "top missing": [(0, 2)], "bottom missing": [(1, 3)], "index": ["i"], "as an index": ["x"], "slice and whole": [(0, 0), "w"], "index elsewhere and slice": ["x", (0, 3)]}
    full = {"whole", "all slices", "overlapping", "index", "slice and whole", "index elsewhere and slice"}
    K2 = dict(opaque=GLOB["opaque"] + ("var_low", "var_high", "get_var_root_parent", "external", "is_stub"))
    for d in ("In", "Out", "InOut"):
        for is_top in (True, False):
            for how, srcs in drive.items():
                objs = {"$0": module([], ["p"], **{"external()": False, "is_stub()": False}), "this": {top[0]: is_top}, "p": {"type": VT + "PortIO", "direction": "#PortDirection::" + d, "width": 4, "sources": ["s%d" % i for i in range(len(srcs))]}}
                for i, x in enumerate(srcs):
                    objs["s%d" % i] = {"left": "p" if x == "w" else "l%d" % i}
                    if x != "w":
                        objs["l%d" % i] = {"type": VT + "Slice", "get_var_root_parent()": "q" if x == "x" else "p", "sliced_by_var()": x in ("x", "i"), "var_low()": x[0] if isinstance(x, tuple) else 0, "var_high()": x[1] if isinstance(x, tuple) else 3}
                bad = how not in full and not (d == "In" and is_top)
                judge(F, r, R, f, objs, bad, "%s %s driven by %s" % ("top" if is_top else "inner", d, how), calls_=lambda o, top=top: None if text(final(o, "this." + top[0]) or ("t", "")) == "false" or not is_top else "the next module is still taken for the top", **K2)
    for flag in ("external()", "is_stub()"):
        for is_top in (True, False):
            objs = {"$0": module([], ["p"], **{"external()": flag == "external()", "is_stub()": flag == "is_stub()"}), "this": {top[0]: is_top}, "p": {"type": VT + "PortIO", "direction": "#PortDirection::Out", "width": 4, "sources": []}}
            judge(F, r, R, f, objs, False, "%s %s" % (flag, is_top), **K2)
    for is_top in (True, False):
        judge(F, r, R, f, {"$0": module([], [], **{"external()": False, "is_stub()": False}), "this": {top[0]: is_top}}, False, "no ports %s" % is_top, calls_=lambda o, is_top=is_top: None if not is_top or text(final(o, "this." + top[0]) or ("t", "")) == "false" else "the next module is taken for the top", **K2)
    # two ports: each is looked at
    for bads in ((0, 1), (1, 0), (0, 0)):
        objs = {"$0": module([], ["p", "q"], **{"external()": False, "is_stub()": False}), "this": {top[0]: True}}
        for n, b in zip("pq", bads):
            objs[n] = {"type": VT + "PortIO", "direction": "#PortDirection::Out", "width": 1, "sources": [] if b else ["s" + n]}
            objs["s" + n] = {"left": n}
        judge(F, r, R, f, objs, any(bads), "two ports %s" % (bads,), **K2)
    objs["$0"] = module(["r"], ["p", "i"], **{"external()": False, "is_stub()": False})
    objs["i"] = {"type": VT + "PortIO", "direction": "#PortDirection::In", "width": 1, "sources": []}
    objs["p"]["sources"] = []
    judge(F, r, R, f, objs, True, "an output after an input of the top", **K2)


def keys(o, table):
    """the keys a table that started empty ends with"""
    v = final(o, "this." + table)
    if v is None or v[0] != "list":
        return []
    return [x[1][0][1] if x[0] in ("tup", "list") and x[1] else text(x) for x in v[1]]


def same(F, r):
    R = "same"
    v = visitor(F, r, R, "extract_struct_info", ("visit_generator_root", "visit_generator_root_p"))
    f = handler(F, v, "Generator")
    m = field(F, v, "PackedStruct*>")

    def attr(name, w, s, inner=None):
        return {"name": '"' + name, "width": w, "signed_": s, "signed": s, "struct": inner}
    base = [("a", 8, False, None), ("b", 4, True, None)]
    other = {"the same": base, "another name": [("a", 8, False, None), ("c", 4, True, None)], "another width": [("a", 8, False, None), ("b", 5, True, None)], "another sign": [("a", 8, False, None), ("b", 4, False, None)],
             "fewer": base[:1], "more": base + [("c", 1, False, None)], "reordered": base[::-1], "none": [], "first differs": [("a", 9, False, None), ("b", 4, True, None)]}
    for kinds in itertools.product(("PortIO", "Base"), repeat=2):
        for how, at in other.items():
            for ext in (0, 1, 2):
                objs = {"$0": module(["p", "q"]), "this": {m: {}}}
                vf = [x["n"] for x in F.classes[v]["fields"] if "Var*" in x["t"].replace(" ", "")]
                for x in vf:
                    objs["this"][x] = {}
                for n, k, d, e in (("p", kinds[0], base, ext == 1), ("q", kinds[1], at, ext == 2)):
                    objs[n] = {"is_struct()": True, "type": VT + k, "packed_struct": "S" + n, "struct": "S" + n}
                    objs["S" + n] = {"struct_name": '"T', "external": e, "attributes": ["%s%d" % (n, i) for i in range(len(d))]}
                    for i, x in enumerate(d):
                        objs["%s%d" % (n, i)] = attr(*x)
                judge(F, r, R, f, objs, at != base and not ext, "%s and %s of one type name, second is %s%s" % (kinds + (how, ("", ", first external", ", second external")[ext])),
                      calls_=lambda o, ext=ext: None if keys(o, m) == ["T"] else "remembers %s" % keys(o, m))
    # different names; a struct inside a struct; not a struct
    objs = {"$0": module(["p", "q", "n"]), "this": {x["n"]: {} for x in F.classes[v]["fields"]}, "n": {"is_struct()": False, "type": VT + "Base"}}
    for n in "pq":
        objs[n] = {"is_struct()": True, "type": VT + "Base", "packed_struct": "S" + n, "struct": "S" + n}
        objs["S" + n] = {"struct_name": '"T' + n, "external": False, "attributes": [n + "0"]}
        objs[n + "0"] = attr(n, 3, False)
    judge(F, r, R, f, objs, False, "two type names", calls_=lambda o: None if sorted(keys(o, m)) == ["Tp", "Tq"] else "remembers %s" % keys(o, m))
    objs["p0"]["struct"] = "Sq"
    objs["Sq"]["struct_name"] = '"Tq'
    objs["q"]["packed_struct"] = objs["q"]["struct"] = "Sr"
    objs["Sr"] = {"struct_name": '"Tq', "external": False, "attributes": ["r0"]}
    for w in (3, 4):
        objs["r0"] = attr("q", w, False)
        judge(F, r, R, f, objs, w != 3, "a type used inside another, and alone with %d bits" % w)
    # interfaces
    v = visitor(F, r, R, "extract_interface_info", ("visit_generator_root_p", "visit_generator_root_tp", "visit_generator_root"))
    f = handler(F, v, "Generator")
    tab = [x["n"] for x in F.classes[v]["fields"] if "map<" in x["t"]]
    if len(tab) != 1:
        raise AnalysisError("anchor vanished: the table of %s" % v)
    tab = tab[0]
    P = lambda w, sz, d: ("tup", (("i", w), ("i", sz), ("e", K + "PortDirection::" + d)))
    V = lambda w, sz: ("tup", (("i", w), ("i", sz)))
    base = ({"a": P(8, 1, "In"), "b": P(1, 1, "Out")}, {"x": V(4, 1)})
    other = {"the same": base, "another port width": ({"a": P(9, 1, "In"), "b": P(1, 1, "Out")}, {"x": V(4, 1)}), "another direction": ({"a": P(8, 1, "In"), "b": P(1, 1, "In")}, {"x": V(4, 1)}), "fewer ports": ({"a": P(8, 1, "In")}, {"x": V(4, 1)}),
             "more ports": (dict(base[0], c=P(1, 1, "In")), base[1]), "another variable": (base[0], {"y": V(4, 1)}), "another variable width": (base[0], {"x": V(5, 1)}), "no variable": (base[0], {}), "another port name": ({"a": P(8, 1, "In"), "c": P(1, 1, "Out")}, base[1])}

    def idef(o, n, d):
        o[n] = {"def_name": '"I', "name": '"I', "ports": ['"' + x for x in d[0]], "vars": ['"' + x for x in d[1]]}
        for x, t in d[0].items():
            o[n]['port("%s")' % x] = t
        for x, t in d[1].items():
            o[n]['var("%s")' % x] = t
    for how, d in other.items():
        for kinds in itertools.product(("statement", "port"), repeat=2):
            objs = {"$0": dict(module([], ["p%d" % i for i, k in enumerate(kinds) if k == "port"]), **{"stmts_count()": kinds.count("statement"), "stmts": ["p%d" % i for i, k in enumerate(kinds) if k == "statement"]}), "this": {tab: {}}}
            order = sorted(range(2), key=lambda i: kinds[i] != "statement")
            n = 0
            for i, k in enumerate(kinds):
                idef(objs, "D%d" % i, (base, d)[i])
                objs["R%d" % i] = {"definition": "D%d" % i}
                if k == "statement":
                    objs["$0"]["get_stmt(%d)" % n] = "p%d" % i
                    n += 1
                    objs["p%d" % i] = {"type": "#StatementType::InterfaceInstantiation", "interface": "R%d" % i, "generator_parent()": "$0"}
                else:
                    objs["p%d" % i] = {"is_interface()": True, "interface": "R%d" % i}
            judge(F, r, R, f, objs, d != base, "interface %s and %s, second has %s" % (kinds + (how,)), calls_=lambda o: None if keys(o, tab) == ["I"] else "remembers %s" % keys(o, tab), opaque=GLOB["opaque"] + ("handle_name",))
    objs = {"$0": dict(module([], ["p"]), **{"stmts_count()": 1, "stmts": ["s"], "get_stmt(0)": "s"}), "s": {"type": "#StatementType::Assign"}, "p": {"is_interface()": False}, "this": {tab: {}}}
    judge(F, r, R, f, objs, False, "no interface", calls_=lambda o: None if not keys(o, tab) else "remembers %s" % keys(o, tab))


def extract(F, r):
    R = "extract"
    for driver, only in (("extract_register_names", True), ("extract_var_names", False)):
        v = visitor(F, r, R, driver, ("visit_generator_root",))
        f = handler(F, v, "Generator")
        flag = [x["n"] for x in F.classes[v]["fields"] if x["t"] == "bool"][0]
        lst = field(F, v, "vector<")
        d = F.one(K + driver)
        outs, P = returns(F, d, opaque=("visit_generator_root", "fix_assignment_type", "names"))
        fixed = lambda o: [e[1].split(".")[-1] for e in o.st.eff if e[0] == "call" and (e[1].endswith("fix_assignment_type") or e[1].endswith("visit_generator_root"))]
        ok = outs and all(o.kind == "ret" and fixed(o)[-1:] == ["visit_generator_root"] and (not only or fixed(o)[0].endswith("fix_assignment_type")) for o in outs)
        r.ob(R, "%s|order" % driver, bool(ok), d.loc(), "%s: runs %s" % (driver, [fixed(o) for o in outs]))
        ctor = [e for o in outs for e in o.st.eff if e[0] == "new" and K + last(e[1]) == v]
        a = {text(x) for e in ctor for x in e[2]}
        r.ob(R, "%s|mode" % driver, a == {str(only).lower()}, d.loc(), "%s collects %s" % (driver, sorted(a)))
        r.ob(R, "%s|result" % driver, all(text(o.val).endswith("." + lst) or "names" in text(o.val) or o.val[0] == "list" for o in outs if o.val is not None), d.loc(), "%s returns %s" % (driver, [text(o.val) for o in outs if o.val is not None]))
        for srcs in ("", "N", "B", "NN", "NB", "BN", "U"):
            for n in (1, 2):
                objs = {"$0": module(["a", "b"][:n]), "this": {flag: only, lst: []}}
                for x in "ab"[:n]:
                    objs[x] = {"sources": [x + str(i) for i in range(len(srcs))], "handle_name()": '"top.' + x}
                    for i, c in enumerate(srcs):
                        objs[x + str(i)] = {"assign_type": "#AssignmentType::" + {"N": "NonBlocking", "B": "Blocking", "U": "Undefined"}[c]}
                want = ["top." + x for x in "ab"[:n]] if not only or srcs[:1] == "N" else []
                if only and set(srcs) == {"N", "B"}:
                    continue  # rejected before this
                judge(F, r, R, f, objs, False, "%s: %d variables assigned %s" % (driver, n, srcs or "nowhere"), calls_=lambda o, want=want: None if [x[1] for x in (final(o, "this." + lst) or ("list", ()))[1]] == want else "lists %s" % text(final(o, "this." + lst) or ("list", ())))
    f = F.one(K + "extract_enum_info")
    for ext in itertools.product((False, True), repeat=2):
        objs = {"$0": {"context()": "ctx"}, "ctx": {"enum_defs": {'"E0': "e0", '"E1': "e1"}}, "e0": {"external": ext[0]}, "e1": {"external": ext[1]}}
        g = dict(world(F, objs))
        for i in range(2):
            for cls in ("SystemVerilogCodeGen::", ""):
                g["%senum_code(e%d)" % (cls, i)] = ("s", "code%d" % i)
        want = [("E%d" % i, "code%d" % i) for i in range(2) if not ext[i]]
        row(F, r, R, f, lambda o, want=want: None if o.kind == "ret" and o.val[0] == "list" and [tuple(y[1] for y in x[1]) for x in o.val[1]] == want else "yields %s" % outcome(o)[:200], given=g, args={0: ("e", "$0")}, key="enumerations, external %s" % (ext,), opaque=("enum_code", "width", "context"))


def enables(F, r):
    R = "enable"
    v = visitor(F, r, R, "compute_enable_condition", ("visit_root",))
    f = handler(F, v, "ScopedStmtBlock")
    tab = field(F, v, "map<")
    ops = ("operator&&", "operator!=", "eq", "operator==", "r_not")
    KW = dict(GLOB, opaque=GLOB["opaque"] + ops, fresh=ops)

    def chk(want):
        def c(o):
            if o.kind == "throw":
                return "rejects"
            got = [(k, text(x) if x is not None else "") for k, x in puts(o, "this." + tab)]
            return None if got == want else "records %s" % got
        return c
    sc = lambda p: {"ast_node_type": STMT, "type": "#StatementType::Block", "parent": p}
    gen = {"ast_node_type": GEN, "parent": None}

    def case(name, chain, want):
        """chain: outermost construct first; the innermost holds the scope $0 with the statement s"""
        objs = {"m": dict(gen), "cg": {}}
        up = "m"
        g = {}
        for i, (k, *a) in enumerate(chain):
            n = "n%d" % i
            nxt = "$0" if i == len(chain) - 1 else "b%d" % i
            if k == "block":
                objs[n] = sc(up)
                up = n
                continue
            elif k == "if":
                objs[n] = {"ast_node_type": STMT, "type": "#StatementType::If", "parent": up, "predicate": "p%d" % i, "then_body": nxt if a[0] else "oth%d" % i, "else_body": nxt if not a[0] else "oth%d" % i}
                objs["oth%d" % i] = sc(n)
                g["p%d.r_not()" % i] = ("e", "!p%d" % i)
            elif k == "case":
                at, vals, default = a
                rows = [("tup", (("e", "k%d_%d" % (i, x)), ("e", nxt if at == x else "c%d_%d" % (i, x)))) for x in vals]
                if default:
                    rows.append(("tup", (("null",), ("e", nxt if at == "d" else "c%d_d" % i))))
                objs[n] = {"ast_node_type": STMT, "type": "#StatementType::Switch", "parent": up, "target": "t%d" % i, "body": ("list", tuple(rows))}
                for x in vals:
                    objs["k%d_%d" % (i, x)] = {"value": x}
            objs[nxt] = sc(n)
            up = nxt
        objs["$0"] = dict(objs.get("$0") or sc(up), stmts=["s"], **{"size()": 1, "get_stmt(0)": "s", "generator_parent()": "m"})
        objs["s"] = {"ast_node_type": STMT, "type": "#StatementType::Assign", "parent": "$0"}
        row(F, r, R, f, chk(want), given=dict(world(F, objs), **g), args={0: ("e", "$0")}, key=name, clue=str(want), **KW)
    one = lambda c: [("s", "%s.handle_name(m)" % c)]
    case("in the then branch", [("if", True)], one("p0"))
    case("in the else branch", [("if", False)], one("!p0"))
    case("in a block", [("block",)], [])
    case("in a block's then branch", [("block",), ("if", True)], one("p1"))
    for x in (0, 1):
        case("under case %d" % x, [("case", x, (0, 1), True)], one("t0.eq(k0_%d)" % x))
    for d in ((1, 0), (0, 1), (2,)):
        e = None
        for x in sorted(d):
            y = "t0.operator!=(k0_%d)" % x
            e = y if e is None else "%s.operator&&(%s)" % (e, y)
        case("under the default of %s" % (d,), [("case", "d", d, True)], one(e))
    case("under an only default", [("case", "d", (), True)], [])
    case("then branch in an only default", [("case", "d", (), True), ("if", True)], one("p1"))
    for a, b in itertools.product((True, False), repeat=2):
        case("nested %s %s" % (a, b), [("if", a), ("if", b)], one("%sp1.operator&&(%sp0)" % ("" if b else "!", "" if a else "!")))
    case("three deep", [("if", True), ("if", False), ("if", True)], one("p2.operator&&(!p1.operator&&(p0))"))
    case("case in an if", [("if", True), ("case", 1, (0, 1), False)], one("t1.eq(k1_1).operator&&(p0)"))
    case("default in an if", [("if", True), ("case", "d", (0,), True)], one("t1.operator!=(k1_0).operator&&(p0)"))
    case("only default in an if", [("if", True), ("case", "d", (), True)], one("p0"))
