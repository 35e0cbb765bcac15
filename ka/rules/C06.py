"""Names are legal and unique in their scope; a name always refers to the object registered under it."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select, nparams, must

KEYWORDS = """accept_on alias always always_comb always_ff always_latch and assert assign assume automatic before begin bind bins binsof bit break buf bufif0 bufif1 byte case casex casez cell chandle checker class clocking cmos config const constraint context continue cover covergroup coverpoint cross deassign default defparam design disable dist do edge else end endcase endchecker endclass endclocking endconfig endfunction endgenerate endgroup endinterface endmodule endpackage endprimitive endprogram endproperty endspecify endsequence endtable endtask enum event eventually expect export extends extern final first_match for force foreach forever fork forkjoin function generate genvar global highz0 highz1 if iff ifnone ignore_bins illegal_bins implements implies import incdir include initial inout input inside instance int integer interconnect interface intersect join join_any join_none large let liblist library local localparam logic longint macromodule matches medium modport module nand negedge nettype new nexttime nmos nor noshowcancelled not notif0 notif1 null or output package packed parameter pmos posedge primitive priority program property protected pull0 pull1 pulldown pullup pulsestyle_ondetect pulsestyle_onevent pure rand randc randcase randsequence rcmos real realtime ref reg reject_on release repeat restrict return rnmos rpmos rtran rtranif0 rtranif1 s_always s_eventually s_nexttime s_until s_until_with scalared sequence shortint shortreal showcancelled signed small soft solve specify specparam static string strong strong0 strong1 struct super supply0 supply1 sync_accept_on sync_reject_on table tagged task this throughout time timeprecision timeunit tran tranif0 tranif1 tri tri0 tri1 triand trior trireg type typedef union unique unique0 unsigned until until_with untyped use uwire var vectored virtual void wait wait_order wand weak weak0 weak1 while wildcard wire with within wor xnor xor""".split()
G = "kratos::Generator::"
V, P, FN = "this.vars_", "this.ports_", "this.funcs_"


def exactly(*alts):
    alts = [a.replace(" ", "") for a in alts]
    return lambda t: None if t is not None and t.replace(" ", "") in alts else "registers %s, expected %s" % (t, alts[0])


def run(F, r, tier):
    r.rule("keywords", "exactly the SystemVerilog keywords are refused as names", 200)
    r.rule("name-checked", "every path that gives a name to a declared object has refused keywords", 5)
    r.rule("unique", "an object is registered under its name only after that name was found free in its scope, exactly once, with the attributes asked for, and is what the caller gets", 20)
    r.rule("lookup", "looking a name up yields the object registered under it, or says there is none", 8)
    r.rule("rename", "removing or renaming keeps every name table in step", 3)
    # ---------------------------------------------------------------- keywords
    for w in KEYWORDS:
        row(F, r, "keywords", "kratos::is_valid_variable_name", {"false"}, args={0: ("s", w)}, key=w)
    for w in ("", "a", "clk", "While", "logics", "my_reg", "data_in"):
        row(F, r, "keywords", "kratos::is_valid_variable_name", {"true"}, args={0: ("s", w)}, key="name '%s'" % w)
    N = "name-checked"
    for q, n in (("kratos::Generator::Generator", "$1"), ("kratos::Enum::Enum", "$0"), (G + "interface", "$1"), (G + "add_named_block", "$0"),
                 ("kratos::FunctionStmtBlock::FunctionStmtBlock", "this.function_name_"), (G + "rename_child_generator", "$1"), ("kratos::Context::change_generator_name", "$1")):
        must(F, r, N, q, ["true is_valid_variable_name(%s)" % x for x in ({n, "$1"} if n.startswith("this") else {n})])
    must(F, r, N, G + "add_child_generator", ["true is_valid_variable_name($0)"], sel=lambda f: len(f.params) == 2 and "shared_ptr" in f.params[1]["t"])
    base = [f for f in F.need("kratos::Var::Var") if f.inits and not any("Var::Var" in (x.get("q") or "") for x in f.inits)]
    for f in F.need("kratos::Var::Var"):
        must(F, r, N, f, ["true is_valid_variable_name($1)", "true is_valid_variable_name(this.name)"], key="Var#%d" % len(f.params))
    row(F, r, N, "kratos::Enum::Enum", lambda o: None if o.kind == "throw" or assumed(o, "truth", "is_valid_variable_name(each($1)#0)") or not puts(o, "this.values") else "an enumerator is created without checking its name",
        loops=(1,), key="enumerators", opaque=("is_valid_variable_name",))
    # ---------------------------------------------------------------- variables and ports
    U = "unique"
    lst = lambda i: "[$%d]" % i
    # variables: reuse is only allowed for the same shape
    for f in F.need(G + "var"):
        ts = [short(strip_type(p["t"])).split("<")[0] for p in f.params]
        if len(f.params) < 2 or "string" not in f.params[0]["t"]:
            continue
        size = "[1]" if len(f.params) < 3 else "$2" if "vector" in f.params[2]["t"] else "[$2]"
        sg = "$3" if len(f.params) > 3 else "false"
        made = "new Var(this, $0, $1, %s, %s)" % (size, sg)

        def want(o, size=size, sg=sg, made=made):
            if o.kind == "throw":
                return None
            p = puts(o, V)
            t = text(o.val) if o.val else ""
            if p:
                if not (assumed(o, "in", "$0", V, False) or assumed(o, "null", V + "[$0]")):
                    return "registers over an existing name"
                if len(p) != 1 or p[0][0] != "$0" or text(p[0][1]) != made:
                    return "registers %s" % [(k, text(v)) for k, v in p]
                return None if t == made else "hands back %s" % t
            if t != V + "[$0]":
                return "hands back %s" % t
            have = {(a[1], a[2]) for a, q in o.st.trail if a[0] == "==" and q} | {(a[2], a[1]) for a, q in o.st.trail if a[0] == "==" and q}
            b = V + "[$0]."
            if not {("$1", b + x) for x in ("var_width()", "var_width_")} & have:
                return "reuses a variable of another width"
            if not {(size, b + x) for x in ("size()", "size_")} & have:
                return "reuses a variable of another shape"
            bools = {a[1] for a, q in o.st.trail if a[0] == "truth" and not q}
            if not {(y, b + x) for x in ("is_signed()", "is_signed_") for y in (sg, "0" if sg == "false" else sg)} & have and not (sg == "false" and bools & {b + "is_signed()", b + "is_signed_"}):
                return "reuses a variable of another sign"
        row(F, r, U, f, want, key="variable", opaque=("is_valid_variable_name", "width", "size"), clue="new, or identical in shape")
    free = [P, V]
    for f in F.need(G + "port"):
        p0 = f.params[0]["t"]
        n = len(f.params)
        if "PortDirection" in p0 and n == 3 and "shared_ptr" in f.params[2]["t"]:
            registers(F, r, U, f, V, "$1", exactly("new EnumPort(this, $0, $1, $2)"), guards=free, tag="enum")
            row(F, r, U, f, lambda o: None if o.kind == "throw" or any(a[0] == "truth" and "local" in a[1] and not q for a, q in o.st.trail) else "accepts an enum local to another module", key="enum port type is not local")
        elif "PortDirection" in p0:
            size = "[1]" if n < 4 or "PortType" in f.params[3]["t"] else "$3" if "vector" in f.params[3]["t"] else "[$3]"
            pt = "PortType::Data"
            if n == 4 and "PortType" in f.params[3]["t"]:
                pt = "$3"
            if n > 4:
                pt = "$4"
            sg = "$5" if n > 5 else "false"
            registers(F, r, U, f, V, "$1", exactly("new Port(this, $0, $1, $2, %s, %s, %s)" % (size, pt, sg)), guards=free)
            row(F, r, U, f, lambda o: None if o.kind == "throw" or [k for k, v in puts(o, P)] == ["$1"] else "the port is not listed as a port", key="listed as port", hook=exact(F, "kratos::Generator"))
        else:
            nm = "$1" if n > 2 or "string" in f.params[1]["t"] else "$0.name"
            kind = pointee(strip_type(p0)) if False else short(strip_type(p0))
            d = "$0.port_direction()", "$0.direction_"
            if "PortPackedStruct" in p0:
                val = exactly(*["new PortPackedStruct(this, %s, %s, %s, %s)" % (a, nm, b, c) for a in d for b in ("$0.packed_struct()", "$0.struct_") for c in ("$0.size()", "$0.size_")])
            elif "EnumPort" in p0:
                val = exactly(*["new EnumPort(this, %s, %s, %s)" % (a, nm, b) for a in d for b in ("$0.enum_type()", "$0.enum_type_")])
            else:
                val = exactly(*["new Port(this, %s, %s, %s, %s, %s, %s)" % (a, nm, b, c, e, g) for a in d for b in ("$0.var_width()", "$0.var_width_") for c in ("$0.size()", "$0.size_")
                                for e in ("$0.port_type()", "$0.port_type_") for g in ("$0.is_signed()", "$0.is_signed_")])

            def meta(o, f=f, nm=nm):
                if not any(e[0] == "call" and "copy_meta_data" in e[1] and e[1].startswith("$0") for e in o.st.eff):
                    return "the parameters of the copied port are not carried over"
                if [k for k, v in puts(o, P)] != [nm]:
                    return "the port is not listed as a port"
            registers(F, r, U, f, V, nm, val, guards=free, also=meta, opaque=("is_valid_variable_name", "width", "copy_meta_data", "size"), tag="copy of " + kind)
    for f in F.need(G + "port_packed"):
        n = len(f.params)
        size = "[1]" if n < 4 else "$3" if "vector" in f.params[3]["t"] else "[$3]"
        registers(F, r, U, f, V, "$1", exactly("new PortPackedStruct(this, $0, $1, $2, %s)" % size), guards=free)
        row(F, r, U, f, lambda o: None if o.kind == "throw" or [k for k, v in puts(o, P)] == ["$1"] else "the port is not listed as a port", key="listed as port", hook=exact(F, "kratos::Generator"))
    for f in F.need(G + "var_packed"):
        n = len(f.params)
        size = "[1]" if n < 3 else "$2" if "vector" in f.params[2]["t"] else "[$2]"
        registers(F, r, U, f, V, "$0", exactly("new VarPackedStruct(this, $0, $1, %s)" % size))
    registers(F, r, U, G + "enum_var", V, "$0", exactly("new EnumVar(this, $0, $1)"))
    for f in F.need(G + "parameter"):
        k = "$1" if "shared_ptr" in f.params[0]["t"] else "$0"
        ps = ["$%d" % i for i in range(len(f.params))]
        if len(ps) == 2 and "unsigned" in f.params[1]["t"]:
            ps.append("false")
        registers(F, r, U, f, "this.params_", k, exactly("new Param(this, %s)" % ", ".join(ps)))
    for f in F.need(G + "fsm"):
        registers(F, r, U, f, "this.fsms_", "$0", exactly("new FSM($0, this%s)" % (", $1, $2" if len(f.params) > 1 else "")))
    registers(F, r, U, G + "property", "this.properties_", "$0", exactly("new Property($0, $1)"))
    idx = lambda o: None if any(k == FN + ".size()" for k, v in puts(o, "this.func_index_")) else "the function has no position among the module's functions"
    order = lambda o, key: None if [text(v) for k, v in puts(o, "this.func_index_")] == [key] else "the position table names %s" % [text(v) for k, v in puts(o, "this.func_index_")]
    for n, c in (("function", "FunctionStmtBlock"), ("task", "TaskStmtBlock"), ("dpi_function", "DPIFunctionStmtBlock"), ("builtin_function", "BuiltInFunctionStmtBlock")):
        registers(F, r, U, G + n, FN, "$0", exactly("new %s(this, $0)" % c), also=lambda o: idx(o) or order(o, "$0"), opaque=("is_valid_variable_name", "kratos::%s::%s" % (c, c)))
    registers(F, r, U, G + "add_named_block", "this.named_blocks_", "$0", exactly("$1"), ret=False)
    row(F, r, U, G + "add_function", lambda o: None if o.kind == "throw" else "registers %s" % puts(o, FN) if [text(v) for k, v in puts(o, FN)] != ["$0"] or not assumed(o, "in", puts(o, FN)[0][0], FN, False) or "function_name" not in puts(o, FN)[0][0] else (idx(o) or order(o, puts(o, FN)[0][0]) or
        (None if calls(o, "set_parent") == [["this"]] or final(o, "$0.parent_") == ("t", "this") else "the function keeps its former module")), key="function")
    # enums
    E = "this.enums_"
    for q, tab in ((G + "enum_", "this.enums_"), ("kratos::Context::enum_", "this.enum_defs_")):
        registers(F, r, U, q, tab, "$0", exactly("new Enum($0, $1, $2)"), guards=[], opaque=("is_valid_variable_name", "verify_naming_conflict", "kratos::Enum::Enum"),
                  also=lambda o, tab=tab: None if any(a[:2] == [tab, "$0"] and a[2] == "$1" for a in calls(o, "verify_naming_conflict")) else "created without the conflict check against the other enums")
    vn = F.one("kratos::Enum::verify_naming_conflict")

    def conflict(o):
        if o.kind == "throw":
            return None
        if not assumed(o, "in", "$1", "$0", False):
            return "accepts an enum name that exists"
        direct = any(a[0] == "in" and not p and "each($2)" in a[1] and a[2].startswith("each($0)") for a, p in o.st.trail)
        meet = [[text(x) for x in e[2]] for e in o.st.eff if e[0] == "call" and e[1].endswith("set_intersection")]
        both = any({1 if "each($2)#0" in x and "$0" not in x else 2 if "each(each($0)#1.values)#0" in x else 0 for x in a[:4]} >= {1, 2} for a in meet)
        if not direct and not (both and any(a[0] == "empty" and p for a, p in o.st.trail)):
            return "accepts an enumerator that exists in another enum"
    row(F, r, U, vn, conflict, loops=(1,), key="enum and enumerator names")
    # bundles and interfaces
    registers(F, r, U, G + "add_bundle_port_def", "this.port_bundle_mapping_", "$0", exactly("new PortBundleRef(this, $1)"), sel=lambda f: len(f.params) == 2, loops=(0,))
    registers(F, r, U, "kratos::PortBundleDefinition::add_definition", "this.definitions_", "$0", exactly("<$1, $2, $3, $4, $5>"), ret=False)
    I = "kratos::InterfaceDefinition::"
    registers(F, r, U, I + "create_modport_def", "this.mod_ports_", "$0", lambda t: None if t and t.startswith("new InterfaceModPortDefinition(this") and t.endswith(", $0)") else "registers %s" % t)
    both = ["this.ports_", "this.vars_"]
    for f in F.need(I + "port"):
        if len(f.params) < 4:
            continue
        size = "$2" if "vector" in f.params[2]["t"] else "[$2]"
        registers(F, r, U, f, "this.ports_", "$0", exactly("<$1, %s, $3, %s>" % (size, "$4" if len(f.params) > 4 else "PortType::Data")), guards=both, ret=False)
    for f in F.need(I + "var"):
        if len(f.params) < 2:
            continue
        size = "[1]" if len(f.params) < 3 else "$2" if "vector" in f.params[2]["t"] else "[$2]"
        registers(F, r, U, f, "this.vars_", "$0", exactly("<$1, %s>" % size), guards=both, ret=False)
    for n, d, t in (("input", "In", "Data"), ("output", "Out", "Data")):
        registers(F, r, U, I + n, "this.ports_", "$0", exactly("<$1, [$2], PortDirection::%s, PortType::%s>" % (d, t)), guards=both, ret=False)
    for n, t in (("clock", "Clock"), ("reset", "AsyncReset")):
        registers(F, r, U, I + n, "this.ports_", "$0", exactly("<1, [1], PortDirection::In, PortType::%s>" % t), guards=both, ret=False)
    registers(F, r, U, G + "interface", "this.interfaces_", "$1", exactly("new InterfaceRef($0, this, $1)"), guards=["this.interfaces_", V], kw_checked=True, loops=(0,), ret=True)
    # fresh names
    def fresh(o):
        if o.kind == "throw":
            return None
        t = text(o.val)
        if not (assumed(o, "in", t, V, False) or assumed(o, "null", "%s[%s]" % (V, t))):
            return "answers %s, which was not found free" % t
        if "$1" not in t:
            return "answers %s, which does not contain the requested name" % t
    row(F, r, U, G + "get_unique_variable_name", fresh, loops=(1, 2), key="fresh name")
    # ---------------------------------------------------------------- lookups
    L = "lookup"
    for n, tab, miss in (("get_var", V, "null"), ("get_param", "this.params_", "null"), ("get_interface", "this.interfaces_", "null"),
                         ("get_named_block", "this.named_blocks_", "null"), ("get_bundle_ref", "this.port_bundle_mapping_", "throw"), ("get_function", FN, "throw")):
        row(F, r, L, G + n, {"%s[$0]" % tab}, ["$0 in " + tab], key="present")
        row(F, r, L, G + n, {miss}, ["!$0 in " + tab], key="absent")
    row(F, r, L, G + "get_port", {V + "[$0]"}, ["$0 in " + P], key="present")
    row(F, r, L, G + "get_port", {"null"}, ["!$0 in " + P], key="absent")
    for q, tab in ((G + "has_var", V), (G + "has_port", P), (G + "has_function", FN), (G + "has_named_block", "this.named_blocks_"), (G + "has_port_bundle", "this.port_bundle_mapping_"),
                   (I + "has_port", P), (I + "has_var", V), ("kratos::InterfaceRef::has_var", V), ("kratos::InterfaceRef::has_port", P), ("kratos::Context::has_enum", "this.enum_defs_")):
        row(F, r, L, q, {"true", "$0 in " + tab, "($0 in %s)" % tab}, ["$0 in " + tab], key="present")
        row(F, r, L, q, {"false"}, ["!$0 in " + tab], key="absent")
    for q, tab in ((I + "port", P), (I + "var", V), ("kratos::InterfaceRef::port", P), ("kratos::InterfaceRef::var", V)):
        one = lambda f: len(f.params) == 1
        row(F, r, L, q, {"%s[$0]" % tab, "&%s[$0]" % tab}, ["$0 in " + tab], sel=one, key="present")
        row(F, r, L, q, {"throw"}, ["!$0 in " + tab], sel=one, key="absent")
    bp = "kratos::PortBundleRef::get_port"
    row(F, r, L, bp, {"throw"}, ["!$0 in this.name_mappings_"], key="absent")
    # ---------------------------------------------------------------- renaming and removal
    R = "rename"

    def ren(o):
        if o.kind == "throw":
            return None
        acts = [e for e in o.st.eff if e[0] == "call" and e[1].startswith((V + ".", P + ".")) and not e[1].endswith((".find", ".end", ".size"))] + [e for e in o.st.eff if e[0] == "store"]
        if not acts:
            if assumed(o, "==", "$0", "$1") or assumed(o, "==", "$1", "$0") or assumed(o, "in", "$0", V, False) or assumed(o, "null", V + "[$0]"):
                return None
            return "does nothing for an existing variable"
        if not assumed(o, "in", "$1", V, False):
            return "replaces a variable that already has the new name"
        if not assumed(o, "truth", "is_valid_variable_name($1)"):
            return "accepts a keyword"
        nm = final(o, V + "[$0].name")
        if nm is None or text(nm) != "$1":
            return "the variable keeps its old name"
        keyed = any(e[0] == "store" and e[1].endswith(".key()") and text(e[2]) == "$1" for e in o.st.eff) and any(e[0] == "call" and e[1] == V + ".insert" for e in o.st.eff)
        if not keyed and not ([k for k, v in puts(o, V)] == ["$1"] and any(e[0] == "call" and e[1] == V + ".erase" and text(e[2][0]) == "$0" for e in o.st.eff)):
            return "the table still lists the old name"
        isport = not assumed(o, "truth", P + ".erase($0)", "", False) and not assumed(o, "in", "$0", P, False)
        if isport and "$1" not in [k for k, v in puts(o, P)]:
            return "a renamed port is no longer listed as a port"
    row(F, r, R, G + "rename_var", ren, key="rename", opaque=("is_valid_variable_name",))
    # the tables after a renaming, with a port and two variables declared
    for a, b, ok in (("p", "x", True), ("v", "x", True), ("p", "p", True), ("p", "v", False), ("v", "p", False), ("v", "w", False), ("none", "x", True)):
        def ren2(o, a=a, b=b, ok=ok):
            if not ok:
                return None if o.kind == "throw" else "replaces a variable that already has the new name"
            if o.kind == "throw":
                return "rejects it"
            nm = lambda x: b if x == a else x
            get = lambda tab: final(o, tab) or wd[tab]
            pt = sorted(text(x).strip("\"'") for x in get(P)[1])
            if pt != [nm("p")]:
                return "lists the ports %s" % pt
            vt = sorted((text(x[1][0]).strip("\"'"), text(x[1][1])) for x in get(V)[1])
            if vt != sorted((nm(x), "v" + x) for x in ("p", "v", "w")):
                return "lists the variables %s" % vt
            for x in ("p", "v", "w"):
                y = final(o, "v%s.name" % x)
                if y is not None and text(y).strip("\"'") != nm(x):
                    return "calls a variable %s" % text(y)
                if y is None and nm(x) != x:
                    return "the variable keeps its old name"
        wd = world(F, {"this": {"vars": {'"p': "vp", '"v': "vv", '"w': "vw"}, "ports": ['"p'], "name": '"m'}, "vp": {"name": '"p', "type": "#VarType::PortIO"}, "vv": {"name": '"v', "type": "#VarType::Base"}, "vw": {"name": '"w', "type": "#VarType::Base"}})
        row(F, r, R, G + "rename_var", ren2, args={0: ("s", a), 1: ("s", b)}, given=wd, key="%s to %s" % (a, b), stubs={"is_valid_variable_name": lambda vs: ("b", True)}, clue="both tables in step")

    def rem(o):
        gone = any(e[0] == "call" and e[1] == V + ".erase" and text(e[2][0]) == "$0" for e in o.st.eff)
        if o.kind == "throw":
            return "removes before it rejects" if gone else None
        if not gone:
            return "does not remove"
        for s in ("sources", "sinks"):
            if not any(a[0] == "empty" and s in a[1] and p for a, p in o.st.trail):
                return "removes a variable that still has %s" % s
    row(F, r, R, G + "remove_var", rem, key="remove", opaque=("sources", "sinks"))

    def remp(o):
        if o.kind == "throw":
            return None
        acted = any(e[0] == "call" and e[1] == P + ".erase" and text(e[2][0]) == "$0" for e in o.st.eff)
        varg = any(e[0] == "call" and e[1] == V + ".erase" and text(e[2][0]) == "$0" for e in o.st.eff)
        if assumed(o, "in", "$0", P, False):
            return "touches a variable that is not a port" if varg else None
        return None if acted and varg else "the port stays listed"
    row(F, r, R, G + "remove_port", remp, key="remove port", opaque=("sources", "sinks"))

    def reidx(o):
        v, p = final(o, V), final(o, P)
        e = "each(this.vars_)#1"
        if v is None or text(v) != "[<%s.name, %s>]" % (e, e):
            return "lists variables as %s" % (text(v) if v else "before")
        port = any(a[0] == "==" and q and "PortIO" in a[1] + a[2] and e + ".type" in a[1] + a[2] for a, q in o.st.trail)
        if p is None or text(p) not in (("[%s.name]" % e, "{%s.name}" % e) if port else ("[]", "{}")):
            return "lists ports as %s" % (text(p) if p else "before")
    row(F, r, R, G + "reindex_vars", reidx, loops=(1,), key="reindex")
    el = "each(this.vars_)#"
    row(F, r, L, G + "get_vars", {"[%s0]" % el}, ["%s1.type() == VarType::Base" % el], loops=(1,), key="plain variables are listed")
    row(F, r, L, G + "get_vars", {"[]"}, ["!%s1.type() == VarType::Base" % el], loops=(1,), key="nothing else is listed")
    row(F, r, L, G + "get_all_var_names", {"[%s0]" % el}, loops=(1,), key="every variable is listed")
    row(F, r, R, G + "remove_bundle_port_ref", lambda o: None if any(e[0] == "call" and e[1] == "this.port_bundle_mapping_.erase" and text(e[2][0]) == "$0" for e in o.st.eff) else "the bundle stays", key="remove bundle")
