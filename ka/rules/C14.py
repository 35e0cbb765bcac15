"""Preparation passes: what they add, replace, move and reorder, and what they leave alone."""
import itertools
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select, nparams
from .C11 import after, does, plain, reject, world_val1, K
from .C18 import visitor, handler, module, GEN, STMT

D = "#PortDirection::"
VT = "#VarType::"
OP = ("set_parent", "add_stmt", "remove_stmt", "remove_from_parent", "visit_root", "set_assign_type", "get_unique_variable_name", "width", "to_string", "assign", "constant", "operator[]", "is_signed",
      "move_src_to", "move_sink_to", "var", "var_packed", "cast", "var_width", "set_stmts", "set_instantiation_stmt", "get_child_comment",
      "kratos::ModuleInstantiationStmt::ModuleInstantiationStmt", "kratos::InterfaceInstantiationStmt::InterfaceInstantiationStmt", "var_low", "var_high", "get_var_root_parent", "sliced_by_var", "get_child_generators", "get_port_names", "get_vars", "get_attributes",
      "stmts_count", "get_port", "connection_stmt", "is_struct", "packed_struct", "set_is_packed", "set_explicit_array", "get_var", "realize", "kratos::AssertPropertyStmt::AssertPropertyStmt",
      "get_ports", "change_var_expr", "set_predicate", "set_target", "is_auxiliary_var", "is_interface", "parent_generator", "generator_parent", "is_cloned", "external", "parent", "generator", "is_packed", "explicit_array", "get_all_stmts", "high", "has_hash", "get_hash")


def run(F, r, tier):
    r.rule("type", "assignments without a kind become blocking, or non-blocking inside clocked blocks; an assignment of the wrong kind is rejected", 30)
    types(F, r)
    r.rule("stub", "a stub drives every output with zero and holds nothing else", 12)
    stubs(F, r)
    r.rule("zero", "exactly the unconnected input bits of the instances of a marked module are tied to zero in that module", 25)
    zeros(F, r)
    r.rule("instance", "every child module and internal interface is instantiated once, in its parent", 12)
    instances(F, r)
    r.rule("decouple", "a port connected to one plain net of the parent keeps it; any other connected port gets a variable of its own shape and all its uses in the parent", 60)
    decouple(F, r)
    r.rule("order", "sorting keeps every statement once and in the order of its class", 20)
    orders(F, r)
    r.rule("fsm", "every top state machine that has not been realised is realised once", 8)
    fsms(F, r)
    r.rule("property", "every property is asserted in its module; a clocked sequence without an edge takes the only clock or is rejected", 15)
    props(F, r)
    r.rule("legal", "uses of an input port in the parent of its module read the net that drives the port", 12)
    legal(F, r)
    r.rule("lift", "instances of one module become a generate loop exactly when each port reads the same net or the element of its own index", 20)
    lift(F, r)
    r.rule("wrapper", "a flattening wrapper has one port for every element of every port, and a port stub has every port of the module", 12)
    wrapper(F, r)


def sc(F, r, rule, f, objs, want, key, args=None, **kw):
    kw = dict(dict(opaque=OP, recur=9, depth=16, loops=(0, 1)), **kw)
    objs = dict(objs)
    objs.setdefault("this", {})
    r.saw(f)
    row(F, r, rule, f, want, given=dict(world(F, objs), **kw.pop("extra", {})), key=key, args=args or {0: ("e", "$0")}, clue="as stated", **kw)


def nothing(*names):
    def check(o):
        if o.kind == "throw":
            return "rejects it"
        for n in names:
            if does(o, n):
                return "does %s %s" % (n, does(o, n))
    return check


def types(F, r):
    R = "type"
    T = "#AssignmentType::"
    KT = "AssignmentType::"
    f = F.one(K + "fix_assignment_type")
    r.saw(f)
    outs, P = returns(F, f, opaque=("visit_root", "visit_root_s", "visit_root_p", "visit_root_tp", "visit_generator_root", "visit_generator_root_p"))
    for o in outs:
        vs = [(text(e[2][0]) if e[2] else "", e[1].rpartition(".")) for e in o.st.eff if e[0] == "call" and e[1].rpartition(".")[2].startswith("visit_")]
        ok = len(vs) == 2 and all(a in ("$0", "$0.ast_node()") for a, _ in vs) and all(x[2].startswith("visit_root") for _, x in vs)
        r.ob(R, "fix_assignment_type|traversal", ok, f.loc(), "fix_assignment_type visits %s, expected the whole design twice: the blocks, then the rest" % vs)
        new = [e for e in o.st.eff if e[0] == "new" and e[1].endswith("AssignmentTypeVisitor")]
        ok = len(new) == 1 and [plain(x) for x in new[0][2]] == [KT + "Blocking", 0]
        r.ob(R, "fix_assignment_type|rest", ok, f.loc(), "the assignments outside blocks are fixed with %s, expected blocking and unchecked" % [[plain(x) for x in n[2]] for n in new])
    v = K + "AssignmentTypeVisitor"
    h = handler(F, v, "AssignStmt")
    for want, have, chk, par in itertools.product(("Blocking", "NonBlocking"), ("Blocking", "NonBlocking", "Undefined"), (True, False), ("none", "plain", "cloned", "external")):
        objs = {"this": {"type": T + want, "check_type": chk}, "$0": {"generator_parent()": None if par == "none" else "p", "assign_type": T + have, "left": "l", "right": "x"}, "p": {"is_cloned()": par == "cloned", "external()": par == "external"}}
        live = par in ("none", "plain")

        def check(o, want=want, have=have, chk=chk, live=live):
            if live and chk and have not in ("Undefined", want):
                return reject(o)
            if o.kind == "throw":
                return "rejects it"
            s = [a for _, a in does(o, "set_assign_type")]
            e = final(o, "$0.assign_type_")
            if e is not None:
                s.append([text(e)])
            if s != ([[KT + want]] if live and have == "Undefined" else []):
                return "sets %s" % s
        sc(F, r, R, h, objs, check, "%s assignment where %s is %s in a %s module" % (have, want, "required" if chk else "the default", par))
    b = K + "AssignmentTypeBlockVisitor"
    for kind, want in (("CombinationalStmtBlock", "Blocking"), ("SequentialStmtBlock", "NonBlocking"), ("FunctionStmtBlock", "Blocking")):
        h = handler(F, b, kind)
        at = {"a0": {"type_str": '"check_assignment', "value_str": '"false'}, "a1": {"type_str": '"check_assignment', "value_str": '"true'}, "a2": {"type_str": '"other', "value_str": '"false'}}
        for par in ("none", "plain", "cloned", "external"):
            for attrs in ([], ["a0"], ["a1"], ["a2"], ["a2", "a0"]):
                skip = par in ("cloned", "external") or (kind == "SequentialStmtBlock" and "a0" in attrs)
                objs = {"$0": {"generator_parent()": None if par == "none" else "p", "attributes": attrs, "get_attributes()": attrs}, "p": {"is_cloned()": par == "cloned", "external()": par == "external"}, **at}

                def check(o, skip=skip, want=want):
                    if o.kind == "throw":
                        return "rejects it"
                    n = [[plain(x) for x in e[2]] for e in o.st.eff if e[0] == "new" and e[1].endswith("AssignmentTypeVisitor")]
                    w = [a for _, a in does(o, "visit_root")]
                    if skip:
                        return "looks into the block" if w else None
                    if len(n) != 1 or n[0][0] != KT + want or n[0][1:] not in ([], [1]):
                        return "fixes the block with %s" % n
                    if len(w) != 1 or w[0][0] not in ("$0", "$0.ast_node()"):
                        return "visits %s" % w
                sc(F, r, R, h, objs, check, "%s of a %s module with %s" % (kind, par, attrs))


def stubs(F, r):
    R = "stub"
    v = visitor(F, r, R, "zero_out_stubs", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")

    def objs(stub=True, n=0, vars=(), src=(), snk=()):
        d = {"$0": module(list(vars), ["i", "o", "q"], is_stub=stub, stmts_count=n, stmts=["s%d" % i for i in range(n)])}
        for p, dr in (("i", "In"), ("o", "Out"), ("q", "Out")):
            d[p] = {"direction": D + dr, "port_direction()": D + dr, "sinks": ["k"] if p in snk else [], "sources": ["k"] if p in src else [], "width": {"i": 2, "o": 4, "q": 8}[p], "is_signed()": p == "q", "signed": p == "q"}
        return d

    def done(o):
        if o.kind == "throw":
            return "rejects it"
        c = [a for a in calls(o, "constant")]
        got = sorted((x, a) for x, a in does(o, "assign"))
        add = does(o, "add_stmt")
        if [x for x, _ in got] != ["o", "q"]:
            return "assigns %s" % [x for x, _ in got]
        if [x for x, _ in add] != ["$0", "$0"] or sorted(a[0].split(".")[0] for _, a in add) != ["o", "q"]:
            return "adds %s" % add
        for x, a in got:
            w, s = ("4", ("false",)) if x == "o" else ("8", ("true",))
            m = re.match(r"&?\*?constant\(0, (\d+)(?:, (\w+))?\)", a[0])
            if not m or m.group(1) != w or (m.group(2) or "false") not in s:
                return "drives %s with %s" % (x, a[0])
    sc(F, r, R, h, objs(), done, "stub with an input and two outputs")
    sc(F, r, R, h, objs(False, 1, ["x"], "oq", "i"), nothing("add_stmt", "assign"), "module that is no stub")
    for n in (1, 2):
        sc(F, r, R, h, objs(n=n), reject, "stub with %d statements" % n)
    for vs in (["x"], ["x", "y"]):
        sc(F, r, R, h, objs(vars=vs), reject, "stub with the variables %s" % vs)
    for src, snk, bad in (("o", "", True), ("q", "", True), ("", "i", True), ("oq", "i", True), ("i", "oq", False), ("i", "q", False), ("", "o", False)):
        sc(F, r, R, h, objs(src=src, snk=snk), reject if bad else done, "stub with %s driven and %s read" % (src or "nothing", snk or "nothing"))


def zeros(F, r):
    R = "zero"
    v = visitor(F, r, R, "zero_generator_inputs", ("visit_generator_root_p", "visit_generator_root"))
    h = handler(F, v, "Generator")
    A = {"z": {"type_str": '"zero_inputs'}, "y": {"type_str": '"other'}}

    def runs(bits, w):
        out = []
        for i in range(w):
            if i in bits:
                continue
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
        return out

    cases = []
    for w, size, vw in ((1, 1, 1), (4, 1, 4), (4, 4, 1), (8, 4, 2), (6, 2, 3)):
        S = [set(), {0}, {w - 1}, {0, w - 1}, {1}, {1, 2}, set(range(w)) - {1}, set(range(0, w, 2)), set(range(vw)), set(range(w - vw, w)), set(range(vw, min(2 * vw, w)))]
        for s in S:
            s = {x for x in s if x < w}
            if s not in [c[3] for c in cases if c[:3] == (w, size, vw)]:
                cases.append((w, size, vw, s))
    for attrs in ([], ["y"], ["z"], ["y", "z"], ["z", "y"]):
        for w, size, vw, bits in (cases if attrs == ["z"] else cases[1:3]):
            for dr in ("In", "Out", "InOut") if attrs == ["z"] and w == 4 and size == 1 else ("In",):
                full = len(bits) == w
                cov = runs(set(range(w)) - bits, w)
                if full and w > 1:
                    cov = [[0, 0], [1, w - 1]]
                objs = {"$0": {"get_attributes()": attrs, "attributes": attrs, "get_child_generators()": ["g"]}, "g": module([], ["p"]), "p": {"type": VT + "PortIO", "direction": D + dr, "port_direction()": D + dr, "width": w, "width()": w, "size": [size], "var_width()": vw, "var_width": vw, "is_signed()": False, "sources": ["s%d" % i for i in range(len(cov))]}, **A}
                for i, (lo, hi) in enumerate(cov):
                    objs["s%d" % i] = {"left": "p" if hi - lo + 1 == w else "l%d" % i, "right": "x"}
                    objs["l%d" % i] = {"type": VT + "Slice", "get_var_root_parent()": "p", "sliced_by_var()": False, "var_low()": lo, "var_high()": hi}
                rs = runs(bits, w)
                elem = size != 1
                bad = elem and any(a % vw or (b + 1) % vw for a, b in rs)
                want = [[a // vw, b // vw] for a, b in rs] if elem else rs
                act = "z" in attrs and dr != "Out" and not full

                def check(o, act=act, bad=bad, want=want, w=w, size=size):
                    if act and bad:
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    got = []
                    for x, a in does(o, "assign"):
                        m = re.match(r"&?\*?p\[<(\d+), (\d+)>\]$", x)
                        if x == "p":
                            got.append([0, (size if size != 1 else w) - 1])
                            n = str(w)
                        elif m:
                            got.append(sorted([int(m.group(2)), int(m.group(1))]))
                            if int(m.group(1)) < int(m.group(2)):
                                return "selects %s" % x
                            n = x + ".width()"
                        else:
                            return "assigns %s" % x
                        if not re.match(r"&?\*?constant\(0, %s, " % re.escape(n), a[0]):
                            return "drives %s with %s" % (x, a[0])
                    if sorted(got) != (want if act else []):
                        return "ties %s" % got
                    add = [x for x, _ in does(o, "add_stmt")]
                    if add != ["$0"] * len(got):
                        return "adds to %s" % add
                sc(F, r, R, h, objs, check, "%s of %d bits in %d elements with %s connected, module marked %s" % (dr, w, size, sorted(bits), attrs))


def instances(F, r):
    R = "instance"
    v = visitor_of(F, "create_module_instantiation", "ModuleInstantiationVisitor")
    h = handler(F, v, "Generator")
    for par, inst, dbg, cm in itertools.product(("plain", "cloned", "external"), itertools.product((True, False), repeat=2), (True, False), ("", "note")):
        objs = {"$0": {"is_cloned()": par == "cloned", "external()": par == "external", "get_child_generators()": ["g0", "g1"], "debug": dbg, "children_debug()": {}, "children_debug": {}, 'get_child_comment("i0")': '"' + cm, 'get_child_comment("i1")': '"' + cm}}
        for i in (0, 1):
            objs["g%d" % i] = {"instance_name": '"i%d' % i, "has_instantiated": inst[i], "has_instantiated()": inst[i]}
        want = [] if par != "plain" else ["g%d" % i for i in (0, 1) if not inst[i]]

        def check(o, want=want, cm=cm):
            if o.kind == "throw":
                return "rejects it"
            new = [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "new" and e[1].endswith("ModuleInstantiationStmt")]
            if sorted(new) != [[g, "$0"] for g in want]:
                return "instantiates %s" % new
            st = ["new ModuleInstantiationStmt(%s, $0)" % g for g in want]
            if sorted(does(o, "add_stmt")) != [("$0", [t]) for t in st]:
                return "adds %s" % does(o, "add_stmt")
            if sorted(does(o, "set_instantiation_stmt")) != [(g, [t]) for g, t in zip(want, st)]:
                return "records %s" % does(o, "set_instantiation_stmt")
            for t in st:
                c = final(o, t + ".comment")
                if cm and (c is None or plain(c) != "note" and text(c).strip('"') != "note"):
                    return "loses the comment (%s)" % (c,)
                if not any(x.startswith((t, "each(" + t, "%s.connection_stmt()" % t)) for x, _ in does(o, "remove_from_parent")):
                    return "keeps the connections of %s (%s)" % (t, does(o, "remove_from_parent"))
        sc(F, r, R, h, objs, check, "%s module, children instantiated %s, debug %s, comment %s" % (par, inst, dbg, bool(cm)), extra={"new ModuleInstantiationStmt(g%d, $0).connection_stmt()" % i: ("list", (("e", "new ModuleInstantiationStmt(g%d, $0).c" % i),)) for i in (0, 1)})
    v = visitor(F, r, R, "create_interface_instantiation", ("visit_root_tp", "visit_generator_root", "visit_generator_root_p", "visit_generator_root_tp", "visit_root"))
    h = handler(F, v, "Generator")
    for a, b in itertools.product(itertools.product((True, False), repeat=2), repeat=2):
        objs = {"$0": {"interfaces()": {'"i0': "x0", '"i1': "x1"}, "interfaces": {'"i0': "x0", '"i1': "x1"}}}
        for i, (ins, port) in enumerate((a, b)):
            objs["x%d" % i] = {"has_instantiated": ins, "has_instantiated()": ins, "is_port()": port, "is_port": port}
        want = ["x%d" % i for i, (ins, port) in enumerate((a, b)) if not ins and not port]

        def check(o, want=want):
            if o.kind == "throw":
                return "rejects it"
            new = [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "new" and e[1].endswith("InterfaceInstantiationStmt")]
            if sorted(new) != [["$0", g] for g in want]:
                return "instantiates %s" % new
            st = ["new InterfaceInstantiationStmt($0, %s)" % g for g in want]
            if sorted(does(o, "add_stmt")) != [("$0", [t]) for t in st]:
                return "adds %s" % does(o, "add_stmt")
            for t in st:
                if not any(x.startswith(t) for x, _ in does(o, "remove_from_parent")):
                    return "keeps the connections of %s" % t
        sc(F, r, R, h, objs, check, "interfaces (instantiated, port) %s %s" % (a, b), extra={"new InterfaceInstantiationStmt($0, x%d).connection_stmt()" % i: ("list", (("e", "new InterfaceInstantiationStmt($0, x%d).c" % i),)) for i in (0, 1)})


def visitor_of(F, driver, default):
    if K + default in F.classes:
        return K + default
    raise AnalysisError("anchor vanished: visitor of %s" % driver)


def decouple(F, r):
    R = "decouple"
    h = handler(F, K + "GeneratorPortVisitor", "Generator")
    PT = "#PortType::"
    sc(F, r, R, h, {"$0": module([], ["p"], **{"parent()": None, "parent": None, "interfaces()": {}}), "p": {"port_direction()": D + "In", "sources": ["s"]}}, nothing("move_src_to", "move_sink_to", "var", "remove_stmt", "remove_from_parent"), "top module")

    def net(kind, own="par", parent=None):
        return {"type": VT + kind, "type()": VT + kind, "generator": own, "generator()": own, "parent()": parent or own, "parent": parent or own, "is_interface()": False}
    nets = {"variable": net("Base"), "constant": net("ConstValue"), "parameter": net("Parameter"), "port of the parent": net("PortIO"), "port of a sibling": net("PortIO", "sib"), "expression": net("Expression"), "slice": net("Slice"), "slice of a sibling's": net("Slice", "sib"),
            "cast variable": dict(net("BaseCasted"), **{"parent_var": "b"}), "cast expression": dict(net("BaseCasted"), **{"parent_var": "be"}), "iterator": net("Iter")}
    good_in = {"variable", "constant", "parameter", "port of the parent", "slice", "cast variable"}
    good_out = {"variable", "constant", "parameter", "port of the parent", "cast variable"}
    shapes = {"1": dict(width=4, size=[1], sign=False, pk=True, ea=False), "array": dict(width=8, size=[2, 3], sign=True, pk=False, ea=True)}

    def port(d, sh, pt="Data", struct=False, src=(), snk=()):
        s = shapes[sh]
        return {"type": VT + "PortIO", "port_direction()": D + d, "direction": D + d, "port_type_": PT + pt, "port_type()": PT + pt, "is_struct()": struct, "packed_struct()": "st", "packed_struct": "st", "var_width()": s["width"], "var_width": s["width"], "size": s["size"], "is_signed()": s["sign"], "is_packed()": s["pk"], "explicit_array()": s["ea"],
                "explicit_array": s["ea"], "sources": list(src), "sinks": list(snk), "generator": "$0", "generator()": "$0", "fn_name_ln": []}

    def design(p, st, n, where="G", link=True, d="In"):
        o = {"$0": module([], ["p"], **{"parent()": "par", "parent": "par", "parent_generator()": "par", "interfaces()": {}, "interfaces": {}, "instance_name": '"i0'}), "par": {"debug": False, 'get_unique_variable_name("i0", "p")': '"i0_p', 'get_var("i0_p")': "nv"}, "p": p, "b": net("Base"), "be": net("Expression"), "nv": {"type": VT + "Base", "fn_name_ln": []}}
        for i, (s, x) in enumerate(zip(st, n)):
            other = "n%d" % i
            o[s] = {"parent()": "par" if where == "G" else "blk", "parent": "par" if where == "G" else "blk", "generator_parent()": "par"}
            me = "p" if link else "ps"
            o[s].update({"left": me, "right": other} if d == "In" else {"left": other, "right": me})
            o[other] = nets[x]

        o["par"]["ast_node_type"] = GEN
        o["blk"] = {"ast_node_type": STMT}
        return o

    def kept(s):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            for n in ("move_src_to", "move_sink_to", "var", "var_packed"):
                if does(o, n):
                    return "does %s %s" % (n, does(o, n))
            rm = does(o, "remove_stmt") + [("par", [x]) for x, _ in does(o, "remove_from_parent")]
            if rm != ([("par", [s])] if s else []):
                return "removes %s" % rm
        return check

    def moved(d, p, pt="Data", struct=False, sh="1"):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            if does(o, "remove_stmt") or does(o, "remove_from_parent"):
                return "removes a statement"
            s = shapes[sh]
            if struct:
                if does(o, "var") or [a for x, a in does(o, "var_packed")] != [['"i0_p"', "st"]] and [a for x, a in does(o, "var_packed")] != [["i0_p", "st"]]:
                    return "creates %s %s" % (does(o, "var"), does(o, "var_packed"))
            else:
                c = does(o, "var")
                if does(o, "var_packed") or len(c) != 1 or c[0][0] != "par" or [x.strip('"') for x in c[0][1]] != ["i0_p", str(s["width"]), "[%s]" % ", ".join(map(str, s["size"])), str(s["sign"]).lower()]:
                    return "creates %s" % c
                if [a for x, a in does(o, "set_is_packed")] != [[str(s["pk"]).lower()]] or [a for x, a in does(o, "set_explicit_array")] != [[str(s["ea"]).lower()]]:
                    return "makes it packed %s, explicit array %s" % (does(o, "set_is_packed"), does(o, "set_explicit_array"))
            name = "move_src_to" if d == "In" else "move_sink_to"
            other = "move_sink_to" if d == "In" else "move_src_to"
            m = [a for _, a in does(o, name)]
            if does(o, other) or len(m) != 1 or m[0][0] != "p" or m[0][2:] != ["par", "true"]:
                return "moves %s %s" % (m, does(o, other))
            want = "nv" if pt == "Data" or d == "Out" else "nv.cast(VarCastType::%s)" % pt
            if m[0][1].lstrip("&*") != want:
                return "moves to %s" % m[0][1]
        return check
    for d, good in (("In", good_in), ("Out", good_out)):
        st = lambda k: {"src" if d == "In" else "snk": k}
        for x in nets:
            for where, link in (("G", True), ("S", True), ("G", False)):
                if d == "Out" and x == "iterator":
                    continue
                ok = x in good and where == "G" and link
                p = port(d, "1", **st(["s0"]))
                if d == "Out" and ok and x in ("constant", "parameter"):
                    continue
                sc(F, r, R, h, design(p, ["s0"], [x], where, link, d), kept("s0") if ok else moved(d, p), "%s port %s %s%s" % (d, "connected to a", x, "" if ok or x not in good else " in a block" if where == "S" else " through a slice of the port"))
        for two in (("variable", "variable"), ("variable", "slice")):
            p = port(d, "array", **st(["s0", "s1"]))
            sc(F, r, R, h, design(p, ["s0", "s1"], two, d=d), moved(d, p, sh="array"), "%s port with two connections %s" % (d, two))
        for pt in ("Clock", "AsyncReset", "Reset", "ClockEnable", "Data"):
            p = port(d, "1", pt, **st(["s0"]))
            sc(F, r, R, h, design(p, ["s0"], ["expression"], d=d), moved(d, p, pt), "%s %s port connected to an expression" % (d, pt))
        for sh in shapes:
            p = port(d, sh, struct=True, **st(["s0"]))
            sc(F, r, R, h, design(p, ["s0"], ["expression"], d=d), moved(d, p, struct=True, sh=sh), "%s struct port connected to an expression" % d)
            p = port(d, sh, **st(["s0"]))
            sc(F, r, R, h, design(p, ["s0"], ["expression"], d=d), moved(d, p, sh=sh), "%s port (%s) connected to an expression" % (d, sh))
    sc(F, r, R, h, design(port("Out", "1"), [], []), kept(None), "unused output")
    nets["variable of a sibling"] = net("Base", "sib")
    p = port("Out", "1", snk=["s0"])
    sc(F, r, R, h, design(p, ["s0"], ["variable of a sibling"], d="Out"), moved("Out", p), "Out port connected to a variable of a sibling")
    # ports of the interfaces a module uses, whether the interface is itself a port or not
    for isp in (True, False):
        for x in ("variable", "expression"):
            p = port("In", "1", src=["s0"])
            o = design(p, ["s0"], [x])
            o["$0"].update(module([], []))
            o["$0"].update({"interfaces()": {'"f': "ifc"}, "interfaces": {'"f': "ifc"}})
            o["ifc"] = {"ports": {'"p': "p"}, "ports()": {'"p': "p"}, "is_port()": isp, "is_port": isp}
            sc(F, r, R, h, o, kept("s0") if x == "variable" else moved("In", p), "port of %s interface connected to a %s" % ("a port" if isp else "an internal", x))
    # uses of the output inside its own module are not connections
    o = design(port("Out", "1", snk=["s0"]), ["s0"], ["variable"], d="Out")
    o["s0"]["generator_parent()"] = "$0"
    sc(F, r, R, h, o, kept(None), "output read inside its module only")
    o = design(port("Out", "1", snk=["s0", "s1"]), ["s0", "s1"], ["variable", "variable"], d="Out")
    o["s0"]["generator_parent()"] = "$0"
    sc(F, r, R, h, o, kept("s1"), "output read inside its module and by a variable of the parent")


def orders(F, r):
    R = "order"
    v = visitor(F, r, R, "sort_stmts", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")
    S, B = "#StatementType::", "#StatementBlockType::"
    kinds = {"a": ("Assign", None, 0), "m": ("ModuleInstantiation", None, 1), "l": ("Block", "Latch", 2), "c": ("Block", "Combinational", 3), "s": ("Block", "Sequential", 4)}

    def design(seq, tab):
        o = {"$0": {"get_all_stmts()": ["t%d" % i for i in range(len(seq))], "stmts": ["t%d" % i for i in range(len(seq))]}}
        for i, c in enumerate(seq):
            t, b, _ = tab[c]
            o["t%d" % i] = {"type": S + t, "type()": S + t}
            if b:
                o["t%d" % i].update({"block_type": B + b, "block_type()": B + b})
        return o

    def sorted_(seq, tab):
        want = ["t%d" % i for i in sorted(range(len(seq)), key=lambda i: tab[seq[i]][2])]

        def check(o):
            if o.kind == "throw":
                return "rejects it"
            s = [[plain(y) for y in e[2]] for e in o.st.eff if e[0] == "call" and last(e[1].rpartition(".")[2]) == "set_stmts"]
            if s != [[want]]:
                return "leaves the order %s instead of %s" % (s, want)
        return check
    seqs = ["", "a", "sa", "ca", "sclma", "aa", "smlca", "caca", "ssccllmmaa", "almcs", "scscs", "lc", "cl", "ml", "lm", "ma", "am"]
    for q in seqs:
        sc(F, r, R, h, design(q, kinds), sorted_(q, kinds), "statements %s" % (q or "none"))
    bad = dict(kinds, i=("Block", "Initial", 9), f=("Block", "Function", 9), F=("Block", "Final", 9), x=("If", None, 9), w=("Switch", None, 9), C=("Comment", None, 9))
    for c in "ifFxw":
        sc(F, r, R, h, design("a" + c, bad), reject, "a %s among the statements" % "".join(x or "" for x in bad[c][:2]))
    v = visitor(F, r, R, "sort_initial_stmts", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")
    gs = [f for f in F.all if f.cls == v and f.body is not None and not f.name == "visit" and len(f.params) == 1 and "Stmt" in f.params[0]["t"]]
    for f in gs:
        vals = {}
        for k, (t, b, _) in dict(bad, **{"g": ("For", None, 0)}).items():
            o = design(k, dict(bad, g=("For", None, 0)))
            o["$0"] = o.pop("t0")
            outs, P = returns(F, f, given=world(F, dict(o, this={})), opaque=OP, args={0: ("e", "$0")})
            vals[k] = {outcome(x) for x in outs}
        r.saw(f)
        small = vals["a"]
        ok = all(len(x) == 1 for x in vals.values()) and all(vals[k] == small for k in vals if k != "i") and vals["i"] != small and all(re.match(r"-?\d+$", next(iter(x))) for x in vals.values()) and int(next(iter(vals["i"]))) > int(next(iter(small)))
        r.ob(R, "SortInitialVisitor|rank", ok, f.loc(), "%s ranks the kinds %s, expected initial blocks last and all others alike" % (f.sig(), vals))


def fsms(F, r):
    R = "fsm"
    v = visitor(F, r, R, "realize_fsm", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")
    for cl in (True, False):
        for a, b in itertools.product(itertools.product((True, False), repeat=2), repeat=2):
            objs = {"$0": {"is_cloned()": cl, "fsms()": {'"f0': "m0", '"f1': "m1"}, "fsms": {'"f0': "m0", '"f1': "m1"}}}
            for i, (done, child) in enumerate((a, b)):
                objs["m%d" % i] = {"realized": done, "realized()": done, "parent_fsm()": "up" if child else None, "parent_fsm": "up" if child else None}
            want = [] if cl else ["m%d" % i for i, (done, child) in enumerate((a, b)) if not done and not child]
            sc(F, r, R, h, objs, lambda o, want=want: "rejects it" if o.kind == "throw" else None if [x for x, _ in does(o, "realize")] == want else "realises %s" % does(o, "realize"), "%s module, machines (realised, nested) %s %s" % ("cloned" if cl else "plain", a, b))


def props(F, r):
    R = "property"
    v = visitor(F, r, R, "change_property_into_stmt", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")
    for n in range(3):
        ps = {'"p%d' % i: "q%d" % i for i in range(n)}
        objs = {"$0": {"properties()": ps, "properties": ps}}

        def check(o, n=n):
            if o.kind == "throw":
                return "rejects it"
            want = [("$0", ["new AssertPropertyStmt(q%d)" % i]) for i in range(n)]
            if sorted(does(o, "add_stmt")) != want:
                return "adds %s" % does(o, "add_stmt")
        sc(F, r, R, h, objs, check, "%d properties" % n)
    v = visitor(F, r, R, "infer_property_clocking", ("visit_root_s", "visit_root", "visit_root_tp"))
    h = handler(F, v, "AssertBase")
    for kind in ("AssertProperty", "AssertValue"):
        for edge, nxt in itertools.product((True, False), repeat=2):
            for n, kids in ((0, []), (1, []), (2, []), (0, ["cast"]), (0, ["cast", "cast"]), (0, ["var"]), (0, ["reset"]), (0, ["other"]), (1, ["cast"]), (0, ["var", "cast"])):
                objs = {"$0": {"assert_type()": "#AssertType::" + kind, "property()": "pr", "property": "pr", "generator_parent()": "g"}, "pr": {"edge": "ed", "edge()": "ed", "sequence()": "sq", "sequence": "sq"}, "ed": {"var": "clk0" if edge else None}, "sq": {"next()": "sn" if nxt else None, "next": "sn" if nxt else None},
                        "g": {"get_ports(PortType::Clock)": ['"c%d' % i for i in range(n)], "get_child_generators()": ["k%d" % i for i in range(len(kids))], **{'get_port("c%d")' % i: "clk%d" % i for i in range(n)}}}
                found = ["clk%d" % i for i in range(n)]
                for i, c in enumerate(kids):
                    objs["k%d" % i] = {"get_ports(PortType::Clock)": ['"ck'], 'get_port("ck")': "kc%d" % i}
                    objs["kc%d" % i] = {"sources": ["ks%d" % i], "sources()": ["ks%d" % i]}
                    objs["ks%d" % i] = {"right": "kr%d" % i}
                    own = "h" if c == "other" else "g"
                    objs["kr%d" % i] = {"generator": own, "generator()": own, "type": VT + ("Base" if c == "var" else "BaseCasted"), "cast_type": "#VarCastType::" + ("Reset" if c == "reset" else "Clock"), "cast_type()": "#VarCastType::" + ("Reset" if c == "reset" else "Clock")}
                    if n == 0 and c == "cast":
                        found.append("kr%d" % i)
                need = kind == "AssertProperty" and not edge and nxt

                def check(o, need=need, found=found):
                    if need and len(found) != 1:
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    got = [final(o, "ed." + x) for x in ("var", "edge", "type")]
                    got = [plain(x) if x is not None and any(e[0] == "store" and e[1].startswith("ed.") for e in o.st.eff) else None for x in got]
                    want = [found[0], "EventEdgeType::Posedge", "EventControlType::Edge"] if need else [None] * 3
                    if got != want:
                        return "sets the edge %s" % got
                sc(F, r, R, h, objs, check, "%s, %s, %s, %d clocks, instances clocked by %s" % (kind, "edge" if edge else "no edge", "sequence" if nxt else "single step", n, kids))


def legal(F, r):
    R = "legal"
    v = visitor(F, r, R, "port_legality_fix", ("visit_generator_root_p", "visit_generator_root", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")

    def design(d="In", use="plain", src=True, aux=None, home="par", sown="par", kind="Base"):
        o = {"$0": module([], ["p"], **{"parent_generator()": "par", "is_auxiliary_var(l)": bool(aux)}), "p": {"port_direction()": D + d, "direction": D + d, "generator": "$0", "generator()": "$0", "sinks": ["s"], "sources": ["d"] if src else []},
             "d": {"left": "p", "right": "x"}, "x": {"generator": sown, "generator()": sown}, "s": {"left": "l", "right": "e" if kind == "Expression" else "p", "generator_parent()": home, "parent()": "ps", "parent": "ps"}, "l": {}, "e": {"type": VT + kind, "type()": VT + kind}}
        o["p"].update({"type": VT + "PortIO", "type()": VT + "PortIO"})
        if aux:
            o["ps"] = {"type": "#StatementType::" + aux, "type()": "#StatementType::" + aux, "predicate": "e" if kind == "Expression" else "p", "predicate()": "e" if kind == "Expression" else "p", "target": "e" if kind == "Expression" else "p", "target()": "e" if kind == "Expression" else "p"}
        return o
    quiet = nothing("change_var_expr", "set_predicate", "set_target")

    def unchanged(o):
        m = quiet(o)
        if m:
            return m
        if any(e[0] == "store" and re.match(r"s\.right", e[1]) for e in o.st.eff):
            return "changes the use"

    def now(aux, kind):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            ch, sp, st = ([a for _, a in does(o, x)] for x in ("change_var_expr", "set_predicate", "set_target"))
            ws = [e for e in o.st.eff if e[0] == "store" and re.match(r"s\.(right|get_right)", e[1])]
            rt = plain(ws[-1][2]).lstrip("&*") if ws else None
            got = (ch, sp, st, rt)
            if kind == "Expression":
                want = ([["e", "p", "x", "false"]], [], [], None)
            else:
                want = ([], [["x"]] if aux == "If" else [], [["x"]] if aux == "Switch" else [], None if aux else "x")
            if got != want:
                return "does %s instead of %s" % (got, want)
        return check
    for aux in (None, "If", "Switch"):
        for kind in ("Base", "Expression"):
            sc(F, r, R, h, design(aux=aux, kind=kind), now(aux, kind), "input read in the parent by %s %s" % (aux or "an assignment", "inside an expression" if kind == "Expression" else "directly"))
            sc(F, r, R, h, design(aux=aux, kind=kind, home="$0"), unchanged, "input read in its own module by %s %s" % (aux or "an assignment", kind))
            for d in ("Out", "InOut"):
                sc(F, r, R, h, design(d=d, aux=aux, kind=kind), unchanged, "%s read in the parent by %s %s" % (d, aux or "an assignment", kind))
            sc(F, r, R, h, design(aux=aux, kind=kind, src=False), unchanged, "input without driver read by %s %s" % (aux or "an assignment", kind))
    sc(F, r, R, h, design(home="sib"), unchanged, "input read in a third module")
    sc(F, r, R, h, design(sown="sib"), reject, "input driven by a net of another module")


def lift(F, r):
    R = "lift"
    v = visitor(F, r, R, "lift_genvar_instances", ("visit_generator_root", "visit_generator_root_p", "visit_generator_root_tp"))
    h = handler(F, v, "Generator")
    op = OP + ("add_named_block", "add_genvar_stmt", "set_mapping", "context", "get_loop_body", "get_iter_var", "set_is_gen_gar", "clear_sources", "clear_sinks", "add_source", "add_sink", "kratos::ForStmt::ForStmt")

    def design(conns, hashes=None, dirs=("In",), other=0):
        """conns[i][j]: what port j of instance i is connected to: "x" or ("x", index)"""
        n = len(conns)
        ports = ["a", "b", "c"][:len(conns[0])]
        st = ["s%d" % i for i in range(n)] + ["o%d" % i for i in range(other)]
        o = {"$0": {"get_all_stmts()": st, "stmts": st, "context()": "cx", "context": "cx", 'get_unique_variable_name("", "i")': '"i'}, "cx": {}}
        for i in range(other):
            o["o%d" % i] = {"type": "#StatementType::Assign"}
        for x in "xyzk":
            o["$0"]['get_var("%s")' % x] = x
            o[x] = {"type": VT + "Base", "to_string()": '"' + x, "sinks": [], "sources": []}
        for i, c in enumerate(conns):
            o["s%d" % i] = {"type": "#StatementType::ModuleInstantiation", "target()": "m%d" % i, "target": "m%d" % i, "generator_parent()": "$0"}
            o["cx"]["has_hash(m%d)" % i] = True
            o["cx"]["get_hash(m%d)" % i] = (hashes or [7] * n)[i]
            o["m%d" % i] = {"get_port_names()": ['"' + p for p in ports], "instance_name": '"u_%d' % i, "name": '"mod', **{'get_port("%s")' % p: "m%d%s" % (i, p) for p in ports}}
            for p, x, d in zip(ports, c, dirs):
                q = "m%d%s" % (i, p)
                t = "t" + q
                o[q] = {"port_direction()": D + d, "direction": D + d, "sources": [t] if d == "In" else [], "sinks": [t] if d == "Out" else []}
                net = x
                if isinstance(x, tuple):
                    net = "e" + q
                    b = x[1] if isinstance(x[1], tuple) else (x[1], x[1])
                    o[net] = {"type": VT + "Slice", "high": b[0], "low": b[1], "parent_var": x[0], "sinks": [], "sources": []}
                o[t] = {"left": q if d == "In" else net, "right": net if d == "In" else q}
        return o

    def lifted(n, nets):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            new = [[plain(x) for x in e[2]] for e in o.st.eff if e[0] == "new" and e[1].endswith("ForStmt")]
            if nets is None:
                return "makes the loops %s" % new if new or does(o, "set_mapping") or does(o, "remove_stmt") else None
            if [x[1:] for x in new] != [[0, n, 1]]:
                return "makes the loops %s" % new
            m = sorted(a[0] for _, a in does(o, "set_mapping"))
            if m != sorted("m%d%s" % (i, "abc"[j]) for i in range(n) for j in range(len(nets))):
                return "connects %s" % m
            for _, a in does(o, "set_mapping"):
                x = nets["abc".index(a[0][-1])]
                t = a[1].lstrip("&*")
                if isinstance(x, tuple):
                    if not re.match(r"%s(\.operator)?\[" % x[0], t) or re.search(r"\[\(?\d", t):
                        return "connects %s to %s" % (a[0], t)
                elif t != x:
                    return "connects %s to %s" % (a[0], t)
            g = sorted(a[0] for _, a in does(o, "add_genvar_stmt"))
            if g != ["s%d" % i for i in range(n)]:
                return "keeps %s in the loop" % g
            rm = [a[0] for x, a in does(o, "remove_stmt") if x == "$0" and a[0].startswith("s")] + [x for x, _ in does(o, "remove_from_parent") if x.startswith("s")]
            if sorted(rm) != g:
                return "takes %s out of the module" % rm
            up = {x for x, a in does(o, "set_parent") if "ForStmt" in a[0]} | {e[1].split(".")[0] for e in o.st.eff if e[0] == "store" and re.match(r"s\d+\.parent_?$", e[1]) and "ForStmt" in text(e[2])}
            if not up >= set(g):
                return "leaves %s outside the loop" % sorted(set(g) - up)
        return check
    E_ = lambda x, *ix: [((x, i),) for i in ix]
    cases = [("one net for all", [("x",)] * 2, ["x"]), ("one net for three", [("x",)] * 3, ["x"]), ("elements in order", E_("x", 0, 1), [("x",)]), ("elements in reverse", E_("x", 1, 0), [("x",)]), ("three elements", E_("x", 0, 1, 2), [("x",)]), ("elements from one on", E_("x", 1, 2), None),
             ("the same element twice", E_("x", 0, 0), None), ("a missing element", E_("x", 0, 2), None), ("nets of their own", [("x",), ("y",)], None), ("elements of two nets", [(("x", 0),), (("y", 1),)], None), ("ranges", [(("x", (1, 0)),), (("x", (3, 2)),)], None),
             ("three of two elements", E_("x", 0, 1, 1), None), ("element and shared", [(("x", 0), "k"), (("x", 1), "k")], [("x",), "k"]), ("two arrays alike", [(("x", 0), ("y", 0)), (("x", 1), ("y", 1))], [("x",), ("y",)]), ("two arrays crossed", [(("x", 0), ("y", 1)), (("x", 1), ("y", 0))], None),
             ("shared and different", [("k", "x"), ("k", "y")], None), ("different and shared", [("x", "k"), ("y", "k")], None)]
    for name, conns, nets in cases:
        for dirs in (("In", "In"), ("Out", "Out"), ("In", "Out")) if len(conns[0]) > 1 else (("In",), ("Out",)):
            sc(F, r, R, h, design(conns, dirs=dirs), lifted(len(conns), nets), "%s ports: %s" % ("/".join(dirs), name), opaque=op, budget=60000)
    sc(F, r, R, h, design([("x",)]), lifted(1, None), "a single instance", opaque=op)
    sc(F, r, R, h, design([("x",)] * 2, hashes=[7, 8]), lifted(2, None), "instances of different modules", opaque=op)
    sc(F, r, R, h, design([("x",)] * 2, other=2), lifted(2, ["x"]), "assignments besides", opaque=op)


def wrapper(F, r):
    """create_wrapper_flatten, get_flatten_slices and create_stub on small modules"""
    R = "wrapper"
    f = F.one("kratos::get_flatten_slices")
    leaves = lambda dims: list(itertools.product(*[range(d) for d in dims]))
    for dims in ([1], [2], [3], [2, 3], [3, 2], [1, 2], [2, 2, 2]):
        def chk(o, want=leaves(dims)):
            if o.kind != "ret" or o.val[0] != "list":
                return "yields %s" % (text(o.val) if o.val else o.kind)
            got = [tuple(y[1] for y in x[1]) if x[0] in ("list", "tup") else x for x in o.val[1]]
            return None if got == want else "yields %s" % got
        n = 8 * len(leaves(dims))
        row(F, r, R, f, chk, given=gv(F, {"$0.size()": ("list", tuple(("i", d) for d in dims)), "$0.width()": ("i", n), "$0.var_width_": ("i", 8)}), key="elements of %s" % dims, loops=(0, 1), opaque=("width",), clue="the index of every element once, in order")
    f = F.one("kratos::create_wrapper_flatten")
    op = ("width", "port", "assign", "add_stmt", "get_port", "get_port_names", "parameter", "set_value", "add_child_generator", "generator", "add_attribute", "operator[]", "context")
    W = 'ctx.generator("wrap")'
    for d in ("In", "Out"):
        for dims in ([2], [3], [2, 2], [3, 2]):
            port = lambda dims, w, at: {"size": dims, "direction": "#PortDirection::" + d, "port_direction()": "#PortDirection::" + d, "var_width": w, "width()": w * len(leaves(dims)), "attributes": at}
            objs = {"$0": {"get_port_names()": ['"a', '"b'], 'get_port("a")': "pa", 'get_port("b")': "pb", "params": {'"P': "P1", '"Q': "P2"}, "instance_name": '"inst', "context()": "ctx"},
                    "pa": port([1], 4, ["at1", "at2"]), "pb": port(dims, 8, ["at3"]), "P1": {"value()": 5}, "P2": {"value()": 7}}
            sub = {}
            for ix in leaves(dims):
                for k in range(1, len(ix) + 1):
                    t = "pb" + "".join("[%d]" % i for i in ix[:k])
                    sub[t + ".size()"] = sub[t + ".size_"] = ("list", tuple(("i", x) for x in dims[k:]) or (("i", 1),))
                    sub[t + ".var_width_"] = sub[t + ".var_width()"] = ("i", 8)
            want = {("a", "pa"): None}
            for ix in leaves(dims):
                want[("b" + "".join("_%d" % i for i in ix), "pb" + "".join("[%d]" % i for i in ix))] = 8

            def chk(o, want=want, d=d):
                if o.kind == "throw":
                    return "rejects it"
                ca = [(e[1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call"]
                made = [(e[1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call" and e[1] == W + ".port"]
                full = lambda c: "%s(%s)" % (c[0], ", ".join(c[1]))
                if len(made) != len(want):
                    return "makes %d ports" % len(made)
                left = dict(want)
                links = [(q[:-len(".assign")], a[0].replace(".shared_from_this()", "")) for q, a in ca if q.endswith(".assign")]
                stm = [a[0] for q, a in ca if q == W + ".add_stmt"]
                if len(links) != len(made) or len(set(stm)) != len(made) or any(".assign(" not in x for x in stm):
                    return "connects %d and adds %d" % (len(links), len(set(stm)))
                for m in made:
                    name = "a" if m[1][0] == "pa" else m[1][1].strip('"') if len(m[1]) > 1 else None
                    inner = {k[0]: k[1] for k in left}.get(name)
                    if inner is None:
                        return "makes a port %s" % m
                    w = left.pop((name, inner))
                    if w is not None and (m[1][0] != "PortDirection::" + d or m[1][2] != str(w)):
                        return "makes the port %s" % m
                    if ((inner, full(m)) if d == "In" else (full(m), inner)) not in links:
                        return "connects %s" % links
                at = sorted(a[0] for q, a in ca if q.endswith(".add_attribute"))
                if at != sorted(["at1", "at2"] + ["at3"] * (len(want) - 1)):
                    return "copies the attributes %s" % at
                if [a for q, a in ca if q == W + ".add_child_generator"] != [['"inst"', "$0"]]:
                    return "does not hold the module"
                for p, n, v in (("P1", "P", "5"), ("P2", "Q", "7")):
                    if not any(q == p + ".set_value" and a[0].startswith(W + '.parameter("%s"' % n) for q, a in ca):
                        return "does not pass the parameter %s on" % n
            row(F, r, R, f, chk, given=dict(world(F, objs), **gv(F, sub)), args={1: ("s", "wrap")}, key="%s port of %s" % (d, dims), loops=(0, 1), opaque=op, clue="one port for every element, connected to it")
    f = F.one("kratos::create_stub")
    for d in ("In", "Out", "InOut"):
        for pk in (True, False):
            for sg in (True, False):
                t = "#PortType::" + ("Data" if pk else "Clock")
                objs = {"$0": {"get_port_names()": ['"a', '"b'], 'get_port("a")': "pa", 'get_port("b")': "pb", "name": '"top'}, "pa": {"size": [3], "direction": "#PortDirection::" + d, "port_direction()": "#PortDirection::" + d, "var_width": 4, "port_type": t, "port_type()": t, "is_signed": sg, "is_packed": pk},
                        "pb": {"size": [1], "direction": "#PortDirection::In", "port_direction()": "#PortDirection::In", "var_width": 1, "port_type": "#PortType::AsyncReset", "port_type()": "#PortType::AsyncReset", "is_signed": False, "is_packed": True}}

                def chk(o, d=d, pk=pk, sg=sg, t=t):
                    ca = [(e[1], [text(y) for y in e[2]]) for e in o.st.eff if e[0] == "call"]
                    got = [a for q, a in ca if q.endswith(".port")]
                    b = lambda x: str(x).lower()
                    if o.kind == "throw" or sorted(got) != sorted([["PortDirection::" + d, '"a"', "4", "[3]", t[1:], b(sg)], ["PortDirection::In", '"b"', "1", "[1]", "PortType::AsyncReset", "false"]]):
                        return "declares %s" % got
                    p = [a for q, a in ca if q.endswith(".set_is_packed") and '"a"' in q]
                    if p not in ([[b(pk)]], [["true" if pk else "false"]]) and not (pk and not p):
                        return "declares it %s" % p
                row(F, r, R, f, chk, given=world(F, objs), key="stub with a%s%s %s port" % (" signed" if sg else "n unsigned", " packed" if pk else "", d), loops=(0, 1), opaque=("width", "port", "assign", "get_port", "get_port_names", "set_is_packed", "generate_verilog"), clue="every port as in the module")
