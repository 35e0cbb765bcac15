"""Ports, bundles and interfaces connect in the right direction, or the request is rejected."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select

G = "kratos::Generator::"
DIR = ("In", "Out", "InOut")
OPW = ("assign", "add_stmt", "has_child_generator")


def wired(o):
    """(target, source) pairs of the statements this path adds to the module"""
    out = []
    for a in calls(o, "add_stmt"):
        m = re.match(r"(.*)\.assign\((.*)\)$", a[0])
        out.append((m.group(1).replace("*", "").replace("&", ""), m.group(2).replace("*", "").replace("&", "")) if m else ("?", a[0]))
    return out


def run(F, r, tier):
    r.rule("port-direction", "two ports are wired so that the driver drives the receiver, for every relation of their modules and every pair of directions; incompatible directions and unrelated modules are rejected", 40)
    r.rule("var-direction", "a port wired to a variable drives or is driven according to its direction and to the module it belongs to", 20)
    r.rule("wire", "wiring adds exactly one assignment in the decided direction; unwiring removes exactly the statement between the two", 3)
    r.rule("interface", "wiring interfaces connects every port of the child side with its namesake in the port's direction", 6)
    r.rule("modport", "a modport contains exactly the members given to it, with their direction, and contradictions are rejected", 12)
    r.rule("bundle", "a port bundle has the declared ports, its flip has the opposite directions, and assigning bundles wires namesakes", 6)
    r.rule("port", "port attributes: special types are one bit wide, connectivity is reported by direction, upper casts are explicit", 15)
    W = G + "correct_wire_direction"
    sp = lambda f: "shared_ptr" in f.params[0]["t"]
    both = ["!null $0", "!null $1", "!$0.type_ == VarType::Slice", "!$1.type_ == VarType::Slice", "$0.type_ == VarType::PortIO", "$1.type_ == VarType::PortIO"]
    top0, top1 = "$0.generator_ == this", "$1.generator_ == this"
    ch0, ch1 = "true this.has_child_generator($0.generator_)", "true this.has_child_generator($1.generator_)"
    sib = ["$0.generator_.parent_generator_ == $1.generator_.parent_generator_", "$0.generator_.parent_generator_ == this", "$1.generator_.parent_generator_ == this"]
    plain = ["!true $0.is_interface()", "!true $1.is_interface()"]
    same = "$0.generator_ == $1.generator_"

    def dirs(a, b):
        out = []
        for n, d in ((0, a), (1, b)):
            out += ["%s$%d.direction_ == PortDirection::%s" % ("" if x == d else "!", n, x) for x in DIR]
        out.append("%s$0.direction_ == $1.direction_" % ("" if a == b else "!"))
        return out
    P = "port-direction"
    # relation -> (facts, {(d0, d1): first is target})
    rel = {
        "ports of the module itself": ([same, top0, top1] + plain, {("In", "Out"): False, ("Out", "In"): True}),
        "own port and child's port": (["!" + same, top0, "!" + top1, ch1], {("In", "In"): False, ("Out", "Out"): True, ("InOut", "InOut"): True}),
        "child's port and own port": (["!" + same, "!" + top0, top1, ch0], {("In", "In"): True, ("Out", "Out"): False}),
        "ports of two children": (["!" + same, "!" + top0, "!" + top1] + sib, {("In", "Out"): True, ("Out", "In"): False}),
    }
    for n, (facts, table) in rel.items():
        for a in ("In", "Out"):
            for b in ("In", "Out"):
                w = {"throw"} if (a, b) not in table else {"<true, true>"} if table[(a, b)] else {"<false, true>"}
                row(F, r, P, W, w, both + facts + dirs(a, b), sel=sp, key="%s: %s/%s" % (n, a, b), opaque=OPW)
                q = G + "wire_ports"
                if (a, b) not in table:
                    row(F, r, P, q, {"throw"}, facts + dirs(a, b), key="%s: %s/%s" % (n, a, b), opaque=OPW)
                else:
                    want = [("$0", "$1")] if table[(a, b)] else [("$1", "$0")]
                    row(F, r, P, q, lambda o, want=want: None if o.kind != "throw" and wired(o) == want else "wires %s" % (wired(o) if o.kind != "throw" else "nothing"),
                        facts + dirs(a, b), key="%s: %s/%s" % (n, a, b), opaque=OPW)
        for d in ("In", "Out"):
            row(F, r, P, W, {"throw"}, both + facts + dirs(d, "InOut"), sel=sp, key="%s: %s/InOut" % (n, d), opaque=OPW) if n.startswith(("own", "child")) else None
    un = ["!" + same, "!" + top0, "!" + top1, "!" + sib[0], "!" + sib[1], "!" + sib[2], "!" + ch0, "!" + ch1]
    row(F, r, P, G + "wire_ports", {"throw"}, un, key="unrelated modules", opaque=OPW)
    row(F, r, P, W, {"<false, false>"}, both + un, sel=sp, key="unrelated modules", opaque=OPW)
    for kind, (p1, p2) in (("siblings elsewhere", ("x", "x")), ("siblings without a parent", (None, None)), ("a sibling of this module", ("top", "this"))):
        for a in ("In", "Out"):
            g = gv(F, world(F, {"p": {"type": "#VarType::PortIO", "direction": "#PortDirection::" + a, "generator": "m", "is_interface()": False}, "q": {"type": "#VarType::PortIO", "direction": "#PortDirection::" + ("Out" if a == "In" else "In"), "generator": "n", "is_interface()": False},
                            "m": {"parent()": p1, "parent_generator": p1}, "n": {"parent()": p2, "parent_generator": p2}, "this": {"has_child_generator(m)": False, "has_child_generator(n)": kind.startswith("a "), "parent()": "top"}}))
            row(F, r, P, G + "wire_ports", {"throw"}, ["!m == this", "!n == this", "!x == this", "!top == this"], given=g, args={0: ("e", "p"), 1: ("e", "q")}, key="%s: %s" % (kind, a), opaque=OPW)
    for a in ("In", "Out"):
        for own, deep in ((0, 1), (1, 0)):
            d = lambda n, g, x: {"type": "#VarType::PortIO", "direction": "#PortDirection::" + x, "generator": g, "is_interface()": False}
            g = gv(F, world(F, {"p": d("p", "this", a), "q": d("q", "m", a), "m": {"parent()": "x", "parent_generator": "x"}, "x": {"parent()": "this", "parent_generator": "this"},
                                "this": {"has_child_generator(m)": False, "has_child_generator(x)": True, "parent()": None, "parent_generator": None}}))
            row(F, r, P, G + "wire_ports", {"throw"}, ["!m == this", "!x == this"], given=g, args={own: ("e", "p"), deep: ("e", "q")}, key="a port two levels down as %s: %s" % ("second" if deep else "first", a), opaque=OPW)
    # two ports of interfaces the module has: seen from inside, whatever they belong to
    for i in (True, False):
        for j in (True, False):
            for a in ("In", "Out"):
                for b in ("In", "Out"):
                    d = lambda k, x: {"type": "#VarType::PortIO", "direction": "#PortDirection::" + x, "generator": "this", "is_interface()": True, "interface": "i" + k, "interface()": "i" + k}
                    g = gv(F, world(F, {"p": d("p", a), "q": d("q", b), "ip": {"is_port": i, "is_port()": i}, "iq": {"is_port": j, "is_port()": j}}))
                    want = {"throw"} if a == b else (lambda o, a=a: None if o.kind != "throw" and wired(o) == ([("p", "q")] if a == "Out" else [("q", "p")]) else "wires %s" % (wired(o) or "nothing"))
                    row(F, r, P, G + "wire_ports", want, given=g, args={0: ("e", "p"), 1: ("e", "q")}, key="ports of two interfaces %s/%s %s/%s" % ("port" if i else "instance", "port" if j else "instance", a, b), opaque=OPW)
    # an interface instance in the module: its ports are seen from outside
    for n, (i, j) in (("first", (0, 1)), ("second", (1, 0))):
        inst = [same, top0, top1, "true $%d.is_interface()" % i, "!true $%d.is_interface()" % j, "!true $%d.interface_.is_port_" % i]
        for a in ("In", "Out"):
            row(F, r, P, G + "wire_ports", lambda o, a=a: None if o.kind != "throw" and wired(o) == ([("$0", "$1")] if a == "In" else [("$1", "$0")]) else "wires %s" % (wired(o) or "nothing"),
                inst + dirs(a, a), key="interface instance as %s: %s/%s" % (n, a, a), opaque=OPW)
            row(F, r, P, G + "wire_ports", {"throw"}, inst + dirs(a, "Out" if a == "In" else "In"), key="interface instance as %s: %s" % (n, a), opaque=OPW)
        port = [same, top0, top1, "true $%d.is_interface()" % i, "!true $%d.is_interface()" % j, "true $%d.interface_.is_port_" % i]
        row(F, r, P, G + "wire_ports", lambda o: None if o.kind != "throw" and wired(o) == [("$1", "$0")] else "wires %s" % (wired(o) or "nothing"), port + dirs("In", "Out"), key="interface port as %s: In/Out" % n, opaque=OPW)
        row(F, r, P, G + "wire_ports", {"throw"}, port + dirs("In", "In"), key="interface port as %s: In/In" % n, opaque=OPW)
    # ---------------------------------------------------------------- port and variable
    V = "var-direction"
    row(F, r, V, W, {"throw"}, ["null $0"], sel=sp, key="null left")
    row(F, r, V, W, {"throw"}, ["!null $0", "null $1"], sel=sp, key="null right")
    base = ["!null $0", "!null $1", "!$0.type_ == VarType::Slice", "!$1.type_ == VarType::Slice"]
    row(F, r, V, W, {"<true, true>"}, base + ["!$0.type_ == VarType::PortIO", "!$1.type_ == VarType::PortIO"], sel=sp, key="two variables", opaque=OPW)
    for i in (0, 1):
        v = base + ["$%d.type_ == VarType::PortIO" % i, "!$%d.type_ == VarType::PortIO" % (1 - i)]
        me = "$%d.generator_ == this" % i
        ch = "true this.has_child_generator($%d.generator_)" % i
        other = "$%d.generator_ == this" % (1 - i)
        itf = "true $%d.is_interface()" % i
        isp = "true $%d.interface_.is_port_" % i
        for d in ("In", "Out"):
            dd = ["%s$%d.direction_ == PortDirection::%s" % ("" if x == d else "!", i, x) for x in DIR]
            # target is the variable's side for an own input; the port itself for a child's input
            own = (d == "Out") == (i == 0)
            t = lambda b: {"<true, true>"} if b else {"<false, true>"}
            who = "port %s" % ("first" if i == 0 else "second")
            row(F, r, V, W, t(own), v + dd + [me, "!" + itf], sel=sp, key="own %s, %s" % (d, who), opaque=OPW)
            row(F, r, V, W, t(not own), v + dd + ["!" + me, ch], sel=sp, key="child's %s, %s" % (d, who), opaque=OPW)
            row(F, r, V, W, {"throw"}, v + dd + ["!" + me, "!" + ch], sel=sp, key="foreign %s, %s" % (d, who), opaque=OPW)
            row(F, r, V, W, t(own), v + dd + [me, itf, isp, other, other.replace("generator_", "generator()")], sel=sp, key="own interface port %s, %s" % (d, who), opaque=OPW)
            row(F, r, V, W, t(not own), v + dd + [me, itf, "!" + isp], sel=sp, key="interface instance %s, %s" % (d, who), opaque=OPW)

    def sliced(o):
        """a slice counts as its root variable"""
        if o.kind == "throw":
            return None
        for i in (0, 1):
            if any(a[0] == "==" and p and a[1] == "$%d.type_" % i and a[2].endswith("Slice") or a[0] == "==" and p and a[2] == "$%d.type_" % i and a[1].endswith("Slice") for a, p in o.st.trail):
                if any("$%d.generator_" % i in a[1] + a[2] or "$%d.direction_" % i in a[1] + a[2] for a, p in o.st.trail):
                    return "judges a slice instead of the variable it selects from"
                if not any(("$%d.parent_var" % i) in a[1] + a[2] and "VarType::PortIO" in a[1] + a[2] for a, p in o.st.trail):
                    return "does not look at the variable a slice selects from"
    row(F, r, V, W, sliced, sel=sp, key="slices", opaque=OPW)
    # slices of slices, to any depth, on either side
    tp = "#VarType::"
    for depth in (1, 2, 3):
        for side in (0, 1):
            for d in ("In", "Out"):
                for own in (True, False):
                    w = {"p": {"type": tp + "PortIO", "direction": "#PortDirection::" + d, "generator": "this" if own else "kid", "is_interface()": False}, "v": {"type": tp + "Base", "generator": "this"},
                         "kid": {"parent()": "this", "name": '"k'}, "this": {"has_child_generator(kid)": True}}
                    for k in range(depth):
                        w["s%d" % k] = {"type": tp + "Slice", "parent_var": "s%d" % (k - 1) if k else "p", "generator": w["p"]["generator"]}
                    top = ("e", "s%d" % (depth - 1))
                    g = gv(F, world(F, w))
                    t = ((d == "Out") == own) == (side == 0)
                    row(F, r, V, W, {"<%s, true>" % str(t).lower()}, ["!kid == this"], given=g, args={side: top, 1 - side: ("e", "v")}, sel=sp, key="slice nested %d of %s %s port, %s" % (depth, "own" if own else "child's", d, "second" if side else "first"), opaque=OPW, loops=(0, 1, 2, 3, 4))
    # ---------------------------------------------------------------- wire and unwire
    X = "wire"
    row(F, r, X, G + "wire", lambda o: None if wired(o) == [("$0", "$1")] else "wires %s" % wired(o), key="assignment", opaque=("assign", "add_stmt"))
    row(F, r, X, G + "wire_ports", lambda o: None if o.kind == "throw" and not wired(o) or o.kind != "throw" and len(wired(o)) == 1 and text(o.val) == calls(o, "add_stmt")[0][0] else "adds %d statements, yields %s" % (len(wired(o)), outcome(o)), key="one statement", opaque=OPW)

    def unw(o):
        s = "each(this.stmts_)"
        L, R_ = s + ".left_", s + ".right_"
        eq = lambda a, b: any(x[0] == "==" and p and {x[1].lstrip("&*"), x[2].lstrip("&*")} == {a, b} for x, p in o.st.trail)
        match = (eq("$0", L) and eq("$1", R_)) or (eq("$1", L) and eq("$0", R_))
        did = calls(o, "remove_stmt")
        if did and not match:
            return "removes a statement that does not connect the two"
        if match and not assumed(o, "null", s) and not did:
            return "leaves the connecting statement in place"
        if did:
            if did != [[s]]:
                return "removes %s" % did
            if not any(e[0] == "call" and e[1] == L + ".remove_source" for e in o.st.eff) or not any(e[0] == "call" and e[1] == R_ + ".remove_sink" for e in o.st.eff):
                return "leaves the connection recorded at its ends"
    row(F, r, X, G + "unwire", unw, key="unwire", loops=(1,), opaque=("remove_stmt", "remove_source", "remove_sink"))
    # ---------------------------------------------------------------- interfaces
    I = "interface"
    for n, (p, c) in (("first is the parent", ("$0", "$1")), ("second is the parent", ("$1", "$0"))):
        facts = ["true %s.gen_.has_child_generator(%s.gen_)" % (p, c), "!true %s.gen_.has_child_generator(%s.gen_)" % (c, p)]
        el = "each(%s.ports_)" % c
        for d in ("In", "Out"):
            for tab in ("vars_", "ports_"):
                ff = facts + ["%s.gen_ == this" % p, "%s#0 in %s.%s" % (el, p, tab), "true %s.%s[%s#0]" % (p, tab, el)] + (["!%s#0 in %s.vars_" % (el, p)] if tab == "ports_" else [])
                ff += ["%s%s#1.direction_ == PortDirection::%s" % ("" if x == d else "!", el, x) for x in DIR]
                mem = "%s.%s[%s#0]" % (p, tab, el)
                want = [(el + "#1", mem)] if d == "In" else [(mem, el + "#1")]
                row(F, r, I, G + "wire_interface", lambda o, want=want: None if o.kind != "throw" and wired(o) == want else "wires %s" % (wired(o) or "nothing"), ff, key="%s, %s, %s" % (n, d, tab), loops=(1,), opaque=OPW)
        row(F, r, I, G + "wire_interface", {"throw"}, facts + ["%s.gen_ == this" % p, "!%s#0 in %s.vars_" % (el, p), "!%s#0 in %s.ports_" % (el, p)], key="%s, missing member" % n, loops=(1,), opaque=OPW)
        row(F, r, I, G + "wire_interface", {"throw"}, facts + ["!%s.gen_ == this" % p], key="%s, elsewhere" % n, loops=(1,), opaque=OPW)
    row(F, r, I, G + "wire_interface", {"throw"}, ["!true $0.gen_.has_child_generator($1.gen_)", "!true $1.gen_.has_child_generator($0.gen_)"], key="unrelated", loops=(1,), opaque=OPW)
    # the members of an instance are variables of the module; its ports are ports of the module exactly when the instance is one
    for isp in (True, False):
        def inst(o, isp=isp):
            if o.kind == "throw":
                return None
            n = lambda k: 'cat($1, ".", each($0.%s()))' % k
            names = [x[0] for x in calls(o, "add_port_name")] or [k for k, v in puts(o, "this.ports_")]
            if names != ([n("ports")] if isp else []):
                return "makes %s ports of the module" % (names or "none")
            got = [k for k, v in puts(o, "this.vars_")]
            if got != [n("vars"), n("ports")]:
                return "declares %s" % got
            if [text(x) for k, v in puts(o, "this.interfaces_") for x in [k if isinstance(k, tuple) else ("t", k)]] != ["$1"]:
                return "does not keep the instance under its name"
        row(F, r, I, G + "interface", inst, ["!$1 in this.vars_", "!$1 in this.interfaces_"], args={2: ("b", isp)}, sel=lambda f: len(f.params) == 3, key="instance %s" % ("as a port" if isp else "inside"), loops=(1,), opaque=("add_port_name", "is_valid_variable_name", "kratos::InterfaceVar::InterfaceVar", "kratos::InterfacePort::InterfacePort", "kratos::InterfaceRef::InterfaceRef"))
    # and have the width, dimensions, direction and kind of the definition
    for isp in (True, False):
        for w, sz in ((1, (1,)), (8, (2, 3)), (4, (4,))):
            for dr, ty in (("In", "Data"), ("Out", "Data"), ("In", "Clock"), ("InOut", "AsyncReset")):
                def typed(o, w=w, sz=sz, dr=dr, ty=ty):
                    if o.kind == "throw":
                        return "rejects it"
                    n = {last(e[1]): [text(x).replace("kratos::", "").lstrip("&*#") for x in e[2]] for e in o.st.eff if e[0] == "new" and last(e[1]) in ("InterfaceVar", "InterfacePort", "InterfaceRef")}
                    ref = "new InterfaceRef(%s)" % ", ".join(n.get("InterfaceRef", ()))
                    s = "[%s]" % ", ".join(map(str, sz))
                    t = lambda L: [x.replace("false", "0") for x in L]
                    if n.get("InterfaceRef") != ["D", "this", '"i"']:
                        return "makes the instance %s" % n.get("InterfaceRef")
                    if t(n.get("InterfaceVar", ())) != [ref, "this", '"v"', str(w), s, "0"]:
                        return "makes the variable %s" % n.get("InterfaceVar")
                    if t(n.get("InterfacePort", ())) != [ref, "this", "PortDirection::" + dr, '"p"', str(w), s, "PortType::" + ty, "0"]:
                        return "makes the port %s" % n.get("InterfacePort")
                sizes = ("list", tuple(("i", x) for x in sz))
                g = dict(world(F, {"this": {"vars": {}, "ports": [], "interfaces": {}, "instance_name": '"m'}, "D": {"vars()": ['"v'], "ports()": ['"p']}}))
                g['D.var("v")'] = ("tup", (("i", w), sizes))
                g['D.port("p")'] = ("tup", (("i", w), sizes, ("e", "kratos::PortDirection::" + dr), ("e", "kratos::PortType::" + ty)))
                row(F, r, I, G + "interface", typed, given=g, args={0: ("e", "D"), 1: ("s", "i"), 2: ("b", isp)}, sel=lambda f: len(f.params) == 3, key="members of %d bits %s, %s %s%s" % (w, list(sz), dr, ty, " as a port" if isp else ""), loops=(0, 1, 2),
                    stubs={"is_valid_variable_name": lambda vs: ("b", True)}, opaque=("add_port_name", "vars", "ports", "var", "port", "kratos::InterfaceVar::InterfaceVar", "kratos::InterfacePort::InterfacePort", "kratos::InterfaceRef::InterfaceRef"), clue="the declared members")
    # ---------------------------------------------------------------- modports
    M = "modport"
    D = "kratos::InterfaceModPortDefinition::"
    for n, d, o_, tab in (("set_input", "In", "Out", "this.inputs_"), ("set_output", "Out", "In", "this.outputs_")):
        put = lambda o, tab=tab: None if o.kind != "throw" and [k for k, v in puts(o, tab)] == ["$0"] and not puts(o, "this.outputs_" if tab == "this.inputs_" else "this.inputs_") else "yields %s, lists %s" % (outcome(o), puts(o, tab))
        for q in DIR:
            eqs = ["%sthis.def_.ports_[$0] == PortDirection::%s" % ("" if x == q else "!", x) for x in DIR]
            row(F, r, M, D + n, put if q == d else {"throw"}, ["$0 in this.def_.ports_"] + eqs, key="declared %s" % q)
        row(F, r, M, D + n, put, ["!$0 in this.def_.ports_", "$0 in this.def_.vars_"], key="variable")
        row(F, r, M, D + n, {"throw"}, ["!$0 in this.def_.ports_", "!$0 in this.def_.vars_"], key="unknown")
    var = ["!$0 in this.def_.ports_", "$0 in this.def_.vars_"]
    row(F, r, M, D + "port", {"<this.def_.vars_[$0]#0, this.def_.vars_[$0]#1, PortDirection::In, PortType::Data>"}, var + ["$0 in this.inputs_"], key="input variable")
    row(F, r, M, D + "port", {"<this.def_.vars_[$0]#0, this.def_.vars_[$0]#1, PortDirection::Out, PortType::Data>"}, var + ["!$0 in this.inputs_", "$0 in this.outputs_"], key="output variable")
    row(F, r, M, D + "port", {"this.def_.ports_[$0]"}, ["$0 in this.def_.ports_", "$0 in this.inputs_"], key="input port")
    row(F, r, M, D + "port", {"throw"}, ["!$0 in this.inputs_", "!$0 in this.outputs_"], key="unknown")
    row(F, r, M, D + "ports", {"[each(this.inputs_), each(this.outputs_)]", "{each(this.inputs_), each(this.outputs_)}"}, loops=(1,), key="members")
    row(F, r, M, D + "has_port", {"true"}, ["$0 in this.inputs_"], key="input")
    row(F, r, M, D + "has_port", {"true"}, ["!$0 in this.inputs_", "$0 in this.outputs_"], key="output")
    row(F, r, M, D + "has_port", {"false"}, ["!$0 in this.inputs_", "!$0 in this.outputs_"], key="neither")
    row(F, r, M, D + "is_modport", {"true"}, key="is modport")
    ID = "kratos::InterfaceDefinition::"
    for n, tab in (("ports", "this.ports_"), ("vars", "this.vars_")):
        row(F, r, M, ID + n, {"[each(%s)#0]" % tab, "{each(%s)#0}" % tab}, sel=lambda f: not f.params, loops=(1,), key="members")
    R = "kratos::InterfaceRef::"
    df = "this.definition_.mod_ports_[$0]"
    ok = ["!$0 in this.mod_ports_", "!true this.definition_.is_modport()", "true this.definition_", "!null this.definition_", "$0 in this.definition_.mod_ports_"]

    def mref(o):
        if o.kind == "throw":
            return None
        new = text(o.val)
        if not new.startswith("new InterfaceRef(%s, this.gen_, cat(this.name_, \".\", $0))" % df):
            return "yields %s" % new
        if [(k, text(v)) for k, v in puts(o, "this.mod_ports_")] != [("$0", new)]:
            return "the modport reference is not remembered"
        got = {k: text(v) for k, v in puts(o, new + ".ports_")}
        ins, outs = "each(%s.inputs_)" % df, "each(%s.outputs_)" % df
        if set(got) != {ins, outs}:
            return "has members %s" % sorted(got)
        for k, v in got.items():
            isin = k == ins or assumed(o, "in", k, df + ".inputs_")
            want = {"this.ports_[%s]" % k, "&this.ports_[%s]" % k} if assumed(o, "in", k, "this.vars_", False) else \
                {"new ModportPort(%s, %sthis.vars_[%s], PortDirection::%s)" % (new, a, k, "In" if isin else "Out") for a in ("", "&")}
            if v not in want:
                return "member %s is %s" % (k, v)
            if v.startswith("new ") and [x for x, y in puts(o, new + ".modport_ports_") if y is not None and text(y) == v] != [k]:
                return "does not keep the port %s it makes" % k
    row(F, r, M, R + "get_modport_ref", mref, ok, loops=(1,), key="members")
    row(F, r, M, R + "get_modport_ref", {"this.mod_ports_[$0]"}, ["$0 in this.mod_ports_"], key="asked again")
    row(F, r, M, R + "get_modport_ref", {"throw"}, ok[:-1] + ["!" + ok[-1]], key="unknown")
    row(F, r, M, R + "get_modport_ref", {"throw"}, [ok[0], "true this.definition_.is_modport()"], key="modport of a modport")
    row(F, r, M, R + "has_modport", {"true"}, ok[1:], key="known")
    row(F, r, M, "kratos::InterfaceModPortDefinition::def_name", {'cat("I", ".", "m")', '"I.m"', 'cat(D.name_, ".m")', 'cat(D.def_name(), ".m")', 'cat(D.name_, ".", "m")'}, given=world(F, {"this": {"def": "D", "name": '"m'}, "D": {"def_name()": '"I'}}), key="printed name")
    row(F, r, M, R + "has_modport", {"false"}, ok[1:-1] + ["!" + ok[-1]], key="unknown")
    row(F, r, M, R + "has_modport", {"false"}, ["true this.definition_.is_modport()"], key="modport")
    # a modport port stands for the variable behind it
    for n, a in (("sinks", 0), ("sources", 0), ("remove_sink", 1), ("remove_source", 1), ("add_sink", 1), ("add_source", 1), ("clear_sinks", 1), ("clear_sources", 1), ("move_linked_to", 1)):
        def fw(o, n=n, a=a):
            c = [e for e in o.st.eff if e[0] == "call" and e[1] == "this.var_." + n]
            if len(c) == 1 and [text(x) for x in c[0][2]] == ["$0"] * a:
                return None
            if a == 0 and o.val is not None and text(o.val).startswith("this.var_." + n):
                return None
            return "does not act on the variable behind the modport"
        row(F, r, M, "kratos::ModportPort::" + n, fw, key="stands for its variable", opaque=(n,))
    # ---------------------------------------------------------------- bundles
    B = "bundle"
    BD = "kratos::PortBundleDefinition::"
    six = lambda f: len(f.params) == 6
    for d, fl in (("In", "Out"), ("Out", "In")):
        eqs = ["%s$4 == PortDirection::%s" % ("" if x == d else "!", x) for x in DIR]

        def bd(o, d=d, fl=fl):
            a, b = puts(o, "this.definitions_"), puts(o, "this.flipped_definitions_")
            if [(k, text(v)) for k, v in a] not in ([("$0", "<$1, $2, $3, $4, $5>")], [("$0", "<$1, $2, $3, PortDirection::%s, $5>" % d)]):
                return "declares %s" % [(k, text(v)) for k, v in a]
            if [(k, text(v)) for k, v in b] != [("$0", "<$1, $2, $3, PortDirection::%s, $5>" % fl)]:
                return "the flipped bundle has %s" % [(k, text(v)) for k, v in b]
        row(F, r, B, BD + "add_definition", bd, ["!$0 in this.definitions_"] + eqs, sel=six, key=d)
    row(F, r, B, BD + "add_definition", lambda o: "accepted" if o.kind != "throw" else "changes the bundle before it rejects" if puts(o, "this.definitions_") else None,
        ["!$0 in this.definitions_", "!$4 == PortDirection::In", "!$4 == PortDirection::Out"], sel=six, key="InOut")
    row(F, r, B, BD + "add_definition", {"throw"}, ["$0 in this.definitions_"], sel=six, key="taken name")

    def flip(o):
        v = text(o.val)
        for a, b in (("definitions_", "flipped_definitions_"), ("flipped_definitions_", "definitions_"), ("debug_info_", "debug_info_"), ("name_", "name_")):
            x = final(o, "%s.%s" % (v, a))
            if x is None or text(x) != "this." + b:
                return "%s of the flipped bundle is %s" % (a, text(x) if x else "unset")
    row(F, r, B, BD + "flip", flip, key="flip")

    def bassign(o):
        if o.kind == "throw":
            return None
        k = "each(this.definition_.definitions_)#0"
        if not any(a[0] == "==" and p and "definitions_.size()" in a[1] and "definitions_.size()" in a[2] for a, p in o.st.trail) or not assumed(o, "in", k, "$0.definition_.definitions_"):
            return "completes without comparing the declared ports"
        w = calls(o, "wire_ports")
        if w != [["this.generator.get_port(this.name_mappings_[%s])" % k, "$0.generator.get_port($0.name_mappings_[%s])" % k]] and \
           w != [["$0.generator.get_port($0.name_mappings_[%s])" % k, "this.generator.get_port(this.name_mappings_[%s])" % k]]:
            return "wires %s" % w
        if not any(e[0] == "call" and e[1] == "$1.wire_ports" for e in o.st.eff):
            return "wires in another module"
    row(F, r, B, "kratos::PortBundleRef::assign", bassign, loops=(1,), key="assign", opaque=("wire_ports", "get_port"))
    row(F, r, B, "kratos::PortBundleRef::get_port", lambda o: None if o.kind != "throw" and "this.generator.get_port(this.name_mappings_[$0])" in text(o.val) else "yields %s" % outcome(o), ["$0 in this.name_mappings_"], key="member", opaque=("get_port",))
    row(F, r, B, "kratos::PortBundleRef::member_names", {"[each(this.name_mappings_)#0]", "{each(this.name_mappings_)#0}"}, loops=(1,), key="members")

    def ref(o):
        if o.kind == "throw":
            return None
        el = "each($1.definition())" if False else None
        nm = calls(o, "port")
        mp = calls(o, "add_name_mapping")
        if len(nm) != 1 or len(mp) != 1:
            return "declares %d ports and %d names for one member" % (len(nm), len(mp))
        p, m = nm[0], mp[0]
        e = re.match(r"(each\(.*\))#0$", m[0])
        if not e:
            return "the member is known as %s" % m[0]
        e = e.group(1)
        t = lambda i: "%s#1#%d" % (e, i)
        if p != [t(3), m[1], t(0), t(1), t(4), t(2)]:
            return "the member's port is declared as %s" % p
        if "get_unique_variable_name($0, %s#0)" % e not in m[1]:
            return "the member's port is called %s" % m[1]
    row(F, r, B, G + "add_bundle_port_def", ref, ["!$0 in this.port_bundle_mapping_"], sel=lambda f: len(f.params) == 2, loops=(1,), key="member ports", opaque=("port", "get_unique_variable_name", "add_name_mapping"))
    # ---------------------------------------------------------------- port attributes
    T = "port"
    ctors = [f for f in F.need("kratos::Port::Port") if any("Var" in (x.get("q") or "") or x.get("base") for x in f.inits)]
    for f in F.need("kratos::Port::Port"):
        for t in ("Clock", "AsyncReset", "Reset", "ClockEnable"):
            ty = ["%s$5 == PortType::%s" % ("" if x == t else "!", x) for x in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable")]
            for w in ("$3", "this.width", "this.var_width_"):
                pass
            row(F, r, T, f, {"throw"}, ty + ["1 < $3"], key="wide %s" % t, opaque=("kratos::Var::Var",))
            row(F, r, T, f, lambda o: None if o.kind != "throw" else "rejected", ty + ["!1 < $3"], key="one-bit %s" % t, opaque=("kratos::Var::Var",))
        ty = ["%s$5 == PortType::%s" % ("" if x == "Data" else "!", x) for x in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable")]
        row(F, r, T, f, lambda o: None if o.kind != "throw" else "rejected", ty, key="data", opaque=("kratos::Var::Var",))
        row(F, r, T, f, lambda o: None if o.kind == "throw" or (text(final(o, "this.direction_") or ("t", "")), text(final(o, "this.port_type_") or ("t", ""))) == ("$1", "$5") else
            "direction %s, type %s" % (final(o, "this.direction_"), final(o, "this.port_type_")), key="attributes", opaque=("kratos::Var::Var",))
    # a member of a modport is an image of its variable
    def member(o):
        if o.kind == "throw":
            return None
        for k, w in (("var_width_", ("$1.var_width_", "$1.var_width()")), ("size_", ("$1.size_", "$1.size()")), ("is_signed_", ("$1.is_signed()", "$1.is_signed_")), ("explicit_array_", ("$1.explicit_array_", "$1.explicit_array()")),
                     ("direction_", ("$2",)), ("port_type_", ("PortType::Data",)), ("var_", ("$1",)), ("name", ("$1.name",)), ("generator_", ("$1.generator_", "$1.generator()")), ("interface_", ("$0",))):
            v = final(o, "this." + k)
            if v is None or text(v) not in w:
                return "%s of the member is %s" % (k.rstrip("_"), text(v) if v is not None else "unset")
    row(F, r, T, "kratos::ModportPort::ModportPort", member, key="modport member", opaque=("is_signed", "generator"), clue="the member has the width, dimensions and sign of its variable and the direction of the modport")
    for n in range(4):
        pn = ["p%d" % i for i in range(n)]
        for want in ("Clock", "Data"):
            d, ans = {"this": {"get_port_names()": ['"' + x for x in pn]}}, []
            for i, x in enumerate(pn):
                ty = ("Clock", "Data", "Clock", "AsyncReset")[(i + (want == "Data")) % 4]
                d["this"]['get_port("%s")' % x] = "v" + x
                d["v" + x] = {"port_type_": "#PortType::" + ty, "port_type()": "#PortType::" + ty, "direction_": "#PortDirection::" + ("In", "Out", "InOut")[i % 3], "name": '"' + x}
                if ty == want:
                    ans.append(x)
            row(F, r, T, G + "get_ports", lambda o, ans=ans: None if o.val is not None and o.val[0] == "list" and [x[1] for x in o.val[1]] == ans else "answers %s" % outcome(o), given=world(F, d), args={0: ("e", "kratos::PortType::" + want)},
                key="%s ports among %d" % (want, n), opaque=("get_port", "get_port_names"), clue="%s" % ans)
    for t in ("Clock", "AsyncReset", "Reset", "ClockEnable"):
        ty = ["%s$0 == PortType::%s" % ("" if x == t else "!", x) for x in ("Data", "Clock", "AsyncReset", "Reset", "ClockEnable")]
        row(F, r, T, "kratos::Port::set_port_type", {"throw"}, ty + ["1 < this.var_width_"], key="wide %s" % t)
        row(F, r, T, "kratos::Port::set_port_type", lambda o: None if o.kind != "throw" and text(final(o, "this.port_type_") or ("t", "")) in ("$0", "PortType::" + t) else "type is not set", ty + ["!1 < this.var_width_"], key="one-bit %s" % t)
    row(F, r, T, "kratos::PortPackedStruct::set_port_type", {"throw"}, key="struct")
    for w, sz, ok in ((1, 1, True), (1, 4, False), (2, 1, False), (8, 1, False)):
        row(F, r, T, "kratos::Port::set_active_high", (lambda o: None if o.kind != "throw" else "rejects it") if ok else {"throw"}, given=world(F, {"this": {"var_width": w, "size": [sz], "width()": w * sz, "name": '"p'}}), args={0: ("b", True)}, key="%d bits in %d elements" % (w, sz), opaque=("width", "to_string", "handle_name"))
    row(F, r, T, "kratos::Port::assign_", {"throw"}, args={0: ("null",)}, key="nothing")
    row(F, r, T, "kratos::Port::set_active_high", {"throw"}, ["!this.width() == 1"], key="wide", opaque=("width",))
    row(F, r, T, "kratos::Port::set_active_high", lambda o: None if o.kind != "throw" and text(final(o, "this.active_high_") or ("t", "")) in ("$0", "<$0>") else "polarity is not set", ["this.width() == 1"], key="one bit", opaque=("width",))
    CO = "kratos::Port::connected"
    e1, e2 = "empty this.sources_", "empty this.sinks_"
    for d, tt in (("In", [(("", "*"), "false"), (("!", "*"), "true")]), ("Out", [(("*", ""), "false"), (("*", "!"), "true")]), ("InOut", [(("", ""), "false"), (("!", ""), "true"), (("", "!"), "true")])):
        eqs = ["%sthis.direction_ == PortDirection::%s" % ("" if x == d else "!", x) for x in DIR]
        for (a, b), w in tt:
            ff = ([a + e1] if a != "*" else []) + ([b + e2] if b != "*" else [])
            row(F, r, T, CO, {w}, eqs + ff, key="%s %s" % (d, " ".join(ff)), given={}, hook=exact(F, "kratos::Port"))
    for q, d, od, side in (("connected_from", "Out", "Out", "right_"), ("connected_to", "In", "In", "left_")):
        def conn(o, d=d, od=od, side=side):
            ps = [a for a, p in o.st.trail if a[0] == "==" and "PortVisitor" in a[1] + a[2] or "ports" in a[1] + a[2]]
            v = text(o.val)
            if v in ("[]", "{}"):
                return None
            if not any(e[0] == "call" and e[1].endswith("visit_root") and text(e[2][0]).endswith("." + side) for e in o.st.eff):
                return "looks at the wrong side of the connecting statement"
            el = v.strip("[]{}")
            if not any(a[0] == "==" and p and "%s.direction_" % el in (a[1], a[2]) and "PortDirection::" + od in (a[1], a[2]) for a, p in o.st.trail):
                return "counts ports of the wrong direction"
            if not any(a[0] == "==" and not p and "%s.generator_" % el in (a[1], a[2]) and "this.generator_" in (a[1], a[2]) for a, p in o.st.trail):
                return "counts ports of the same module"
        row(F, r, T, "kratos::Port::" + q, conn, loops=(1,), key="ends", opaque=("visit_root",))
        row(F, r, T, "kratos::Port::" + q, {"[]", "{}"}, ["this.direction_ == PortDirection::" + d], loops=(1,), key="other direction", opaque=("visit_root",))
    # upper casts
    A = "kratos::Port::assign_"
    nv = ["!null $0", "!$0.type_ == VarType::PortIO", "!$0.type_ == VarType::ConstValue"]
    row(F, r, T, A, {"throw"}, ["null $0"], key="null")
    row(F, r, T, A, {"throw"}, nv + ["!$0.type_ == VarType::BaseCasted", "!this.port_type_ == PortType::Data"], key="uncast variable to special port", opaque=("kratos::Var::assign_",))
    row(F, r, T, A, lambda o: None if o.kind != "throw" else "rejected", nv + ["this.port_type_ == PortType::Data"], key="variable to data port", opaque=("kratos::Var::assign_",))
    for x in ("PortIO", "ConstValue"):
        row(F, r, T, A, lambda o: None if o.kind != "throw" else "rejected", ["!null $0", "$0.type_ == VarType::" + x], key=x + " to any port", opaque=("kratos::Var::assign_",))
    kinds = ("Clock", "AsyncReset", "Reset", "ClockEnable")
    for t in kinds:
        for c in kinds + ("Signed",):
            ff = nv + ["$0.type_ == VarType::BaseCasted", "!this.port_type_ == PortType::Data"]
            ff += ["%sthis.port_type_ == PortType::%s" % ("" if x == t else "!", x) for x in kinds]
            ff += ["%s$0.cast_type_ == VarCastType::%s" % ("" if x == c else "!", x) for x in kinds + ("Signed", "Unsigned", "Enum", "Resize")]
            row(F, r, T, A, (lambda o: None if o.kind != "throw" else "rejected") if t == c else {"throw"}, ff, key="%s cast to %s port" % (c, t), opaque=("kratos::Var::assign_",))
