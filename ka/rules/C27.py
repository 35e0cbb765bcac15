"""Functions, tasks, DPI imports and system functions are declared and called with matching arguments."""
import json
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select, must, accepts, nparams

G = "kratos::Generator::"
MAX = (1 << 32) - 1
# name -> (return width, synthesizable, fewest arguments, most arguments, signed)
BUILTIN = {
    "clog2": (32, True, 1, 1, False), "countones": (32, True, 1, 1, False), "onehot": (1, True, 1, 1, False), "onehot0": (1, True, 1, 1, False),
    "isunknown": (1, True, 1, 1, False), "display": (0, False, 1, MAX, False), "hgdb_assert_fail": (0, False, 3, 4, False), "finish": (0, False, 0, 1, False),
    "fopen": (32, False, 2, 2, False), "fclose": (0, False, 1, 1, False), "fscanf": (32, False, 2, MAX, False), "urandom": (32, False, 0, 1, False), "random": (32, False, 0, 1, True)}
FIELDS = ("return_width", "synthesizable", "min_num_args", "max_num_args", "signed_")
E0 = ("list", ())


def two(*kv):
    return ("list", tuple(("tup", (("s", k), v)) for k, v in kv))


def run(F, r, tier):
    r.rule("builtin", "every system function has the return width, sign and argument count the standard gives it, and unknown ones are rejected", 13)
    r.rule("register", "a function, task or DPI import is registered once under its own name, in declaration order", 6)
    r.rule("ports", "function arguments are registered once with the direction, width and sign asked for, in order", 8)
    r.rule("arguments", "a call passes every argument the function has, of the same width and sign, and no other", 12)
    r.rule("result", "a call is as wide and signed as the value the function returns", 9)
    r.rule("order", "arguments are passed and declared in the function's argument order", 4)
    r.rule("print", "the printed declaration has the keyword, return type, arguments and terminator of its kind", 8)
    r.rule("dpi", "DPI imports of one name agree in every attribute and are imported with the matching type", 20)
    r.rule("return", "a return statement gives the function its return width and sign; break is only legal inside a loop", 5)
    # ---------------------------------------------------------------- system functions
    T = "kratos::get_builtin_function_info"
    for n, info in BUILTIN.items():
        vals = [("i", x) if not isinstance(x, bool) else ("b", x) for x in info]

        def want(o, vals=vals):
            v = o.val
            if o.kind != "ret" or v is None or v[0] != "list" or list(v[1]) != vals:
                return "yields %s" % outcome(o)
        row(F, r, "builtin", T, want, args={0: ("s", n)}, key=n, clue=str(info))
    for n in ("", "bits", "Display", "displays"):
        row(F, r, "builtin", T, {"std::nullopt", "optional()", "[]", "null"}, args={0: ("s", n)}, key="unknown '%s'" % n)
    row(F, r, "builtin", "kratos::get_builtin_function_names", lambda o: None if o.val is not None and o.val[0] == "list" and {x[1] for x in o.val[1]} == set(BUILTIN) else "yields %s" % outcome(o)[:200], key="names")
    B = "kratos::BuiltInFunctionStmtBlock::"
    inf = "get_builtin_function_info(this.function_name_)"
    op = ("get_builtin_function_info", "is_valid_variable_name", "get_builtin_function_names")
    row(F, r, "builtin", B + "num_args", {"<%s.min_num_args, %s.max_num_args>" % (inf, inf)}, key="argument count", opaque=op)
    row(F, r, "builtin", B + "return_width", {inf + ".return_width"}, key="return width", opaque=op)
    row(F, r, "builtin", B + "is_signed", {inf + ".signed_"}, key="sign", opaque=op)
    for w in (0, 1, 32):
        row(F, r, "builtin", B + "has_return_value", {"true" if w else "false"}, given={inf + ".return_width": ("i", w)}, key="returns %d bits" % w, opaque=op)
    ctor = B + "BuiltInFunctionStmtBlock"
    row(F, r, "builtin", ctor, {"throw"}, ["!true get_builtin_function_info($1)"], key="unknown is rejected", opaque=op)
    row(F, r, "builtin", ctor, lambda o: None if o.kind != "throw" else "rejects", ["true get_builtin_function_info($1)", "true is_valid_variable_name($1)"], key="known is accepted", opaque=op)
    row(F, r, "builtin", "kratos::FunctionStmtBlock::FunctionStmtBlock", {"throw"}, ["!true is_valid_variable_name($1)"], key="keyword", opaque=op)
    flags = {"BuiltInFunctionStmtBlock": (1, 0, 1), "DPIFunctionStmtBlock": (0, 1, 0), "TaskStmtBlock": (0, 0, 1), "FunctionStmtBlock": (0, 0, 0)}
    for c, fl in flags.items():
        for m, v in zip(("is_builtin", "is_dpi", "is_task"), fl):
            root = F.one("kratos::FunctionStmtBlock::" + m)
            g = F.resolve("kratos::" + c, root.fid)
            row(F, r, "builtin", F.funcs[g] if isinstance(g, str) else g, {str(bool(v)).lower()}, key="%s %s" % (c, m))
    # ---------------------------------------------------------------- registration
    for n, c in (("function", "FunctionStmtBlock"), ("task", "TaskStmtBlock"), ("dpi_function", "DPIFunctionStmtBlock"), ("builtin_function", "BuiltInFunctionStmtBlock")):
        idx = lambda o: None if calls(o, "this.func_index_.emplace") == [["this.funcs_.size()", "$0"]] else "records position %s" % calls(o, "this.func_index_.emplace")
        registers(F, r, "register", G + n, "this.funcs_", "$0", value={"new %s(this, $0)" % c}, also=idx, opaque=("is_valid_variable_name", "kratos::%s::%s" % (c, c)))
    nm = "$0.function_name_"

    def moved(o):
        if calls(o, "this.func_index_.emplace") != [["this.funcs_.size()", nm]]:
            return "records position %s" % calls(o, "this.func_index_.emplace")
        if text(final(o, "$0.parent_")) != "this":
            return "leaves the function with its old module"
    registers(F, r, "register", G + "add_function", "this.funcs_", nm, value={"$0"}, also=moved, ret=False)
    # positions count up from zero, whatever was declared before and however it got here
    before = (("task", "a"), ("fn", "b"), ("dpi", "c"))
    for q in ("function", "task", "dpi_function", "builtin_function", "add_function"):
        for k in range(4):
            def nth(o, k=k):
                if o.kind == "throw":
                    return "rejects it"
                e = final(o, "this.func_index_")
                got = [(text(x[1][0]), text(x[1][1]).strip("\"'")) for x in e[1]] if e is not None and e[0] == "list" else "?"
                return None if got == [(str(i), x) for i, (_, x) in enumerate(before[:k])] + [(str(k), "n")] else "records the positions %s" % got
            wd = {"this": {"funcs": {'"' + x: "f" + x for _, x in before[:k]}, "func_index": {i: '"' + x for i, (_, x) in enumerate(before[:k])}, "instance_name": '"m'}, "f": {"function_name": '"n', "function_name()": '"n'}}
            row(F, r, "register", G + q, nth, args={0: ("e", "f") if q == "add_function" else ("s", "n")}, given=world(F, wd), key="after %d others" % k, stubs={"is_valid_variable_name": lambda vs: ("b", True)},
                opaque=("set_parent",) + tuple("kratos::%s::%s" % (c, c) for c in ("FunctionStmtBlock", "TaskStmtBlock", "DPIFunctionStmtBlock", "BuiltInFunctionStmtBlock")), clue="the position after the last")
    row(F, r, "register", G + "get_function", {"this.funcs_[$0]"}, ["$0 in this.funcs_"], key="known")
    row(F, r, "register", G + "get_function", {"throw"}, ["!$0 in this.funcs_"], key="unknown")
    row(F, r, "register", G + "has_function", {"true"}, ["$0 in this.funcs_"], key="has known")
    row(F, r, "register", G + "has_function", {"false"}, ["!$0 in this.funcs_"], key="has unknown")
    # ---------------------------------------------------------------- arguments of the declaration
    S = "kratos::FunctionStmtBlock::"
    D = "kratos::DPIFunctionStmtBlock::"
    po = ("is_valid_variable_name", "kratos::Port::Port")
    for q, d in ((S + "input", "In"), (D + "output", "Out"), (D + "input", "In")):
        also = (lambda o: None if [(k, text(v)) for k, v in puts(o, "this.port_ordering_")] == [("$0", "this.port_ordering_.size()")] else "records position %s" % puts(o, "this.port_ordering_")) if q.startswith(D) else None
        registers(F, r, "ports", q, "this.ports_", "$0", value={"new Port(this.functionstmtblock_parent_, PortDirection::%s, $0, $1, 1, PortType::Data, $2)" % d}, opaque=po, also=also)
    row(F, r, "ports", S + "get_port", {"this.ports_[$0]"}, ["$0 in this.ports_"], key="known")
    row(F, r, "ports", S + "get_port", {"throw"}, ["!$0 in this.ports_"], key="unknown")
    byname = lambda f: f.params[0]["t"].find("basic_string") < (f.params[0]["t"].find("unsigned int") if "unsigned int" in f.params[0]["t"] else 10 ** 6)
    row(F, r, "ports", S + "set_port_ordering", {"throw"}, ["!$0.size() == this.ports_.size()"], sel=byname, key="wrong number")
    row(F, r, "ports", S + "set_port_ordering", {"throw"}, ["$0.size() == this.ports_.size()", "!each($0)#0 in this.ports_"], sel=byname, key="unknown name", loops=(1,))
    row(F, r, "ports", S + "set_port_ordering", lambda o: None if o.kind != "throw" and text(final(o, "this.port_ordering_")) == "$0" else "the order becomes %s" % final(o, "this.port_ordering_"),
        ["$0.size() == this.ports_.size()", "each($0)#0 in this.ports_"], sel=byname, key="accepted", loops=(1,))
    row(F, r, "ports", S + "set_port_ordering", lambda o: None if o.kind != "throw" and text(final(o, "this.port_ordering_")) == '[<"x", 0>, <"y", 1>]' else "%s, order %s" % (outcome(o), final(o, "this.port_ordering_")),
        given=gv(F, {"$0": ("list", (("tup", (("i", 0), ("s", "x"))), ("tup", (("i", 1), ("s", "y"))))), "this.ports_": two(("x", ("t", "p")), ("y", ("t", "q")))}), sel=lambda f: not byname(f), key="by position")
    # ---------------------------------------------------------------- calls
    A = "arguments"
    C = "kratos::FunctionCallVar::FunctionCallVar"
    nb = ["!true $1.is_builtin()"]
    fp = "each($1.ports_)"
    co = ("is_valid_variable_name", "width", "num_args", "return_width", "get_builtin_function_info", "is_signed") + (("kratos::Var::Var",))
    for q, argp, pp, loop in ((C, "$2", fp, "$1.ports_"), ("kratos::FunctionCallStmt::FunctionCallStmt", "$1", "each($0.ports_)", "$0.ports_")):
        s = nparams("FunctionStmtBlock", "map") if argp == "$1" else None
        f = select(F, q, s)[0]
        must(F, r, A, f, ["%s#0 in %s" % (pp, argp), "in %s#0 @ %s" % (pp, argp)], loops=[loop], key="%s|every argument is given" % okey(F, f))
        must(F, r, A, f, ["%s#1.width() == %s[%s#0].width()" % (pp, argp, pp)], loops=[loop], key="%s|equal width" % okey(F, f))
        must(F, r, A, f, ["%s#1.is_signed() == %s[%s#0].is_signed()" % (pp, argp, pp)], loops=[loop], key="%s|equal sign" % okey(F, f))
    f = F.one(C)
    row(F, r, A, f, {"throw"}, nb, given=gv(F, {"$1.ports_": E0}), loops=(1,), key="unknown argument", opaque=co)
    row(F, r, A, f, lambda o: None if o.kind != "throw" else "rejects", nb + ["!null $1.function_handler_", "!true $1.is_dpi()", "each($2)#0 in $1.ports_", "%s#0 in $2" % fp, "%s#1.width() == $2[%s#0].width()" % (fp, fp), "%s#1.is_signed() == $2[%s#0].is_signed()" % (fp, fp)], given=gv(F, {}), loops=(1,), key="known argument", opaque=co)
    b = ["true $1.is_builtin()"]
    lim = ("tup", (("t", "lo"), ("t", "hi")))
    for hr in (True, False):
        gvn = {"$1.ports_": E0, "$1.num_args()": lim}
        for n, facts, ok in (("too few", ["$2.size() < lo"], False), ("too many", ["!$2.size() < lo", "hi < $2.size()"], False), ("legal", ["!$2.size() < lo", "!hi < $2.size()"], True)):
            row(F, r, A, f, (lambda o: None if o.kind != "throw" else "rejects") if ok else {"throw"}, b + facts + ["!true $1.is_dpi()"], given=gv(F, gvn), args={3: ("b", hr)}, loops=(0,), key="system function with %s arguments%s" % (n, "" if hr else ", as a statement"), opaque=co)
    K = G + "call"
    named3 = nparams("basic_string", "map", "bool")
    named = nparams("basic_string", "map")
    pos = nparams("basic_string", "vector")
    for s, k in ((named3, "named"), (named, "named with result"), (pos, "positional")):
        row(F, r, A, K, {"throw"}, ["!$0 in this.funcs_"], sel=s, key="%s, unknown function" % k, opaque=(C,))
    fn = "this.funcs_[$0]"
    made = lambda a: (lambda o: None if o.kind != "throw" and text(o.val) in a and any(t in a for (t,) in [tuple(x) for x in calls(o, "this.calls_.emplace")]) else "yields %s, remembers %s" % (outcome(o), calls(o, "this.calls_.emplace")))
    row(F, r, A, K, made({"new FunctionCallVar(this, %s, $1, $2)" % fn}), ["$0 in this.funcs_"], sel=named3, key="named", opaque=(C,))
    row(F, r, A, K, made({"new FunctionCallVar(this, %s, $1, true)" % fn}), ["$0 in this.funcs_"], sel=named, key="named with result", opaque=(C,))
    for hr in (True, False):
        def res(o, hr=hr):
            n = [e for e in o.st.eff if e[0] == "new" and e[1].endswith("FunctionCallVar")]
            return None if o.kind != "throw" and len(n) == 1 and len(n[0][2]) > 3 and text(n[0][2][3]) in (str(hr).lower(), str(int(hr))) else "yields %s" % outcome(o)
        row(F, r, A, K, res, given=world(F, {"this": {"funcs": {'"f': "fd"}}, "fd": {"is_builtin()": True, "has_return_value()": hr}}), args={0: ("s", "f"), 1: ("list", (("t", "x"),))}, sel=pos, key="positional, returns %s" % hr, opaque=(C,), clue="a result exactly when the function has one")
    row(F, r, A, K, {"throw"}, ["$0 in this.funcs_", "!true %s.is_builtin()" % fn], sel=pos, key="positional, not a system function", opaque=(C,))

    def twelve(o):
        n = [e for e in o.st.eff if e[0] == "new" and e[1].endswith("FunctionCallVar")]
        if o.kind == "throw" or len(n) != 1:
            return "yields %s" % outcome(o)
        a = n[0][2][2]
        if a[0] != "list" or len(a[1]) != 12:
            return "passes %s" % text(a)[:120]
        ks = [(x[1][0], text(x[1][1])) for x in a[1]]
        if any(k[0] != "s" for k, v in ks):
            return "passes arguments under computed names"
        if [v for k, v in sorted((k[1], v) for k, v in ks)] != ["a%d" % i for i in range(12)]:
            return "passes the arguments in the order %s" % [v for k, v in sorted((k[1], v) for k, v in ks)]
    row(F, r, "order", K, twelve, ["$0 in this.funcs_", "true %s.is_builtin()" % fn], given={"$1": ("list", tuple(("t", "a%d" % i) for i in range(12)))}, sel=pos, key="twelve positional arguments", opaque=(C,), clue="the arguments in order")
    st = select(F, "kratos::FunctionCallStmt::FunctionCallStmt", nparams("FunctionStmtBlock", "map"))[0]
    row(F, r, A, st, lambda o: None if o.kind != "throw" and text(final(o, "this.var_")) == "$0.functionstmtblock_parent_.call($0.function_name_, $1, false)" and text(final(o, "this.func_")) == "$0" else "calls %s" % final(o, "this.var_"),
        given=gv(F, {"$0.ports_": E0}), key="statement", opaque=("call",))
    sv = select(F, "kratos::FunctionCallStmt::FunctionCallStmt", nparams("FunctionCallVar"))[0]
    row(F, r, A, sv, lambda o: None if o.kind != "throw" and text(final(o, "this.var_")) == "$0" and text(final(o, "this.func_")) in ("$0.func_def_",) else "calls %s of %s" % (final(o, "this.var_"), final(o, "this.func_")), key="statement of a call")
    for m in ("add_sink", "remove_sink"):
        row(F, r, A, "kratos::FunctionCallVar::" + m, lambda o, m=m: None if ["$0"] in calls(o, "each(this.args_)#1." + m) else "the arguments do not learn about their reader", loops=(1,), key=m + " reaches every argument", opaque=("generator", "const_gen", "has_function"))
    # ---------------------------------------------------------------- the value of a call
    R = "result"
    g0 = {"$1.ports_": E0}
    dim = lambda v: ("is", v)
    shape(F, r, R, f, {"this.var_width_": ("is", {"$1.function_handler_.var_width_"}), "this.size_": ("is", {"$1.function_handler_.size_"}), "this.is_signed_": ("is", {"$1.function_handler_.is_signed_"}), "this.func_def_": ("is", {"$1"}), "this.args_": ("is", {"$2"})},
          nb + ["!true $1.is_dpi()", "!null $1.function_handler_"], given=g0, args={3: ("b", True)}, key="function", loops=(0,))
    shape(F, r, R, f, {"this.var_width_": ("is", {"$1.return_width_"}), "this.size_": ["1"], "this.is_signed_": ("is", {"false"})}, nb + ["true $1.is_dpi()", "null $1.function_handler_", "true $1.return_width_"], given=g0, args={3: ("b", True)}, key="DPI import", loops=(0,))
    shape(F, r, R, f, {"this.var_width_": ("is", {"$1.return_width()"}), "this.size_": ["1"], "this.is_signed_": ("is", {"$1.is_signed()"})}, b + ["!true $1.is_dpi()", "true $1.return_width()", "!$2.size() < lo", "!hi < $2.size()"], given=dict(g0, **{"$1.num_args()": lim}), args={3: ("b", True)}, key="system function", loops=(0,),
          opaque=("is_valid_variable_name", "width", "num_args", "return_width", "is_signed"))
    row(F, r, R, f, {"throw"}, nb + ["null $1.function_handler_", "!true $1.is_dpi()", "!true $1.is_task()"], given=gv(F, g0), args={3: ("b", True)}, loops=(0,), key="no return value", opaque=co)
    ok = lambda o: None if o.kind != "throw" else "rejects"
    row(F, r, R, f, ok, nb + ["null $1.function_handler_", "!true $1.is_dpi()", "true $1.is_task()"], given=gv(F, g0), args={3: ("b", True)}, loops=(0,), key="task", opaque=co)
    row(F, r, R, f, ok, nb + ["null $1.function_handler_", "!true $1.is_dpi()", "!true $1.is_task()"], given=gv(F, g0), args={3: ("b", False)}, loops=(0,), key="void call", opaque=co)
    one = nparams("unsigned int")
    pair = lambda q: select(F, "kratos::FunctionCallVar::" + q)
    for x in F.need("kratos::FunctionCallVar::operator[]"):
        row(F, r, R, x, {"throw"}, key="a call cannot be sliced #%s" % short(strip_type(x.params[0]["t"])).split("<")[0])
    row(F, r, R, "kratos::FunctionCallVar::add_source", {"throw"}, key="a call cannot be assigned")
    # ---------------------------------------------------------------- order and text
    P2 = two(("a", ("t", "p0")), ("b", ("t", "p1")))
    for n, od, want in (("declared order", {"a": 0, "b": 1}, ("p0", "p1")), ("other order", {"a": 1, "b": 0}, ("p1", "p0")), ("no order", {}, ("p0", "p1"))):
        g = gv(F, {"this.args_": P2, "this.func_def_.port_ordering_": two(*[(k, ("i", v)) for k, v in od.items()])})
        for bi in (False, True):
            w = "cat(%sthis.func_def_.function_name_, \" (\", %s.to_string(), \", \", %s.to_string(), \")\")" % ('"$", ' if bi else "", want[0], want[1])
            row(F, r, "order", "kratos::FunctionCallVar::to_string", {w}, ["%strue this.func_def_.is_builtin()" % ("" if bi else "!")], given=g, key="%s%s" % (n, ", system function" if bi else ""))
    cg = "kratos::SystemVerilogCodeGen::stmt_code"
    fs = select(F, cg, nparams("FunctionStmtBlock"))[0]
    O = ("dispatch_node", "get_port_str", "indent", "width")
    base = ["!true $0.is_dpi()", "!true $0.is_builtin()", "!true this.generator_.debug"]
    prints(F, r, "print", fs, "", ["true $0.is_dpi()"], key="a DPI import is not printed in the module", opaque=O)
    prints(F, r, "print", fs, "", ["!true $0.is_dpi()", "true $0.is_builtin()"], key="a system function is not printed", opaque=O)
    body = ["begin\n«node each($0.stmts_)»«this.indent()»end\n"]
    ports = lambda a, c: "(\n«this.indent()»«SystemVerilogCodeGen::get_port_str(%s)»,\n«this.indent()»«SystemVerilogCodeGen::get_port_str(%s)»\n);\n" % (a, c)
    for k, facts, head, end in (("task", ["true $0.is_task()"], "task «$0.function_name_»", "endtask\n"),
                                ("void function", ["!true $0.is_task()", "!true $0.has_return_value()"], "function void «$0.function_name_»", "endfunction\n"),
                                ("function", ["!true $0.is_task()", "true $0.has_return_value()", "!null $0.function_handler_", "!true $0.function_handler_.is_signed()"], "function logic[«($0.function_handler_.width() - 1)»:0] «$0.function_name_»", "endfunction\n"),
                                ("signed function", ["!true $0.is_task()", "true $0.has_return_value()", "!null $0.function_handler_", "true $0.function_handler_.is_signed()"], "function logic signed[«($0.function_handler_.width() - 1)»:0] «$0.function_name_»", "endfunction\n")):
        prints(F, r, "print", fs, head + ";\n" + body[0] + end, base + facts, given=gv(F, {"$0.ports_": E0, "$0.port_ordering_": E0}), key=k + " without arguments", opaque=O, loops=(1,))
        prints(F, r, "print", fs, head + ports("p0", "p1") + body[0] + end, base + facts, given=gv(F, {"$0.ports_": P2, "$0.port_ordering_": E0}), key=k, opaque=O, loops=(1,))
        prints(F, r, "order", fs, head + ports("p1", "p0") + body[0] + end, base + facts, given=gv(F, {"$0.ports_": P2, "$0.port_ordering_": two(("a", ("i", 1)), ("b", ("i", 0)))}), key=k + " declaration", opaque=O, loops=(1,))
    rs = select(F, cg, nparams("ReturnStmt"))[0]
    prints(F, r, "print", rs, "«this.indent()»return «$0.value_.to_string()»;\n", ["!true this.generator_.debug", "$0.value_.generator() == this.stream_.generator_"], key="return", opaque=O)
    cs = select(F, cg, nparams("FunctionCallStmt"))[0]
    prints(F, r, "print", cs, "«this.indent()»«$0.var_.to_string()»;\n", ["!true this.generator_.debug", "$0.var_.generator() == this.stream_.generator_", "$0.parent_.ast_node_type_ == StmtKind"], key="call statement", opaque=O)
    row(F, r, "print", cs, {"throw"}, ["!$0.parent_.ast_node_type_ == StmtKind"], key="call outside a block", opaque=O)
    # ---------------------------------------------------------------- return and break
    Rt = "kratos::ReturnStmt::set_parent"
    h = "this.func_def_.function_handler_"
    asn = h + ".assign(this.value_, AssignmentType::Blocking)"

    def ret(o, new):
        if o.kind == "throw":
            return "rejects"
        if text(final(o, "this.func_def_.has_return_value_")) != "true":
            return "the function does not know it returns a value"
        made = calls(o, "create_function_handler")
        if made != ([["this.value_.width()", "this.value_.is_signed_"]] if new else []):
            return "creates the return value %s" % made
        if text(final(o, "this.parent_")) != "$0" or text(final(o, asn + ".parent_")) != "this":
            return "the returned value is not assigned in this statement"
    for new in (True, False):
        row(F, r, "return", Rt, lambda o, new=new: ret(o, new), ["%snull %s" % ("" if new else "!", h)], key="first return" if new else "later return", opaque=("create_function_handler", "assign"))
    H = S + "create_function_handler"
    row(F, r, "return", H, {"throw"}, ["!null this.function_handler_"], key="second return value", opaque=po)
    row(F, r, "return", H, lambda o: None if text(final(o, "this.function_handler_")) == 'new Port(this.functionstmtblock_parent_, PortDirection::In, cat(this.function_name_, "_return"), $0, 1, PortType::Data, $1)' else "becomes %s" % final(o, "this.function_handler_"), ["null this.function_handler_"], key="return value", opaque=po)
    row(F, r, "return", S + "return_stmt", {"new ReturnStmt(this, $0)"}, key="return statement", opaque=("kratos::ReturnStmt::ReturnStmt",))
    Bk = "kratos::BreakStmt::set_parent"
    row(F, r, "return", Bk, {"throw"}, ["null $0"], key="break outside", loops=(0,))
    row(F, r, "return", Bk, {"throw"}, ["!null $0", "!$0.ast_node_type_ == StmtKind"], key="break in a module")
    row(F, r, "return", Bk, {"throw"}, ["!null $0", "$0.ast_node_type_ == StmtKind", "!$0.type_ == StatementType::For"], key="break in another statement")
    row(F, r, "return", Bk, lambda o: None if o.kind != "throw" and text(final(o, "this.parent_")) == "$0" else "rejects", ["!null $0", "$0.ast_node_type_ == StmtKind", "$0.type_ == StatementType::For"], key="break in a loop", loops=(1,))
    # ---------------------------------------------------------------- DPI
    for m, a, c in (("set_is_context", "is_context_", "is_pure_"), ("set_is_pure", "is_pure_", "is_context_")):
        for v in (True, False):
            shape(F, r, "dpi", D + m, {"this." + a: ("is", {str(v).lower()}), "this." + c: ("is", {str(not v).lower()})}, args={0: ("b", v)}, key="%s %s" % (m, v))
    vs = [f for f in F.overriders("kratos::IRVisitor::visit") if f.params and "FunctionStmtBlock" in f.params[0]["t"] and f.file == "src/analysis.cc"] if hasattr(F, "overriders") and False else [f for f in F.all if f.name == "visit" and f.params and strip_type(f.params[0]["t"]).rstrip(" *").endswith("FunctionStmtBlock") and "DPI" in f.cls]
    if not vs:
        raise AnalysisError("anchor vanished: the visitor that collects DPI imports")
    v = vs[0]
    T2 = "this.dpi_funcs_"
    nm = "$0.function_name_"
    row(F, r, "dpi", v, lambda o: None if o.kind != "throw" and not puts(o, T2) else "collects %s" % puts(o, T2), ["!true $0.is_dpi()"], key="other functions are not imported")
    row(F, r, "dpi", v, lambda o: None if o.kind != "throw" and [(k, text(x)) for k, x in puts(o, T2)] == [(nm, "$0")] else "collects %s" % puts(o, T2), ["true $0.is_dpi()", "!%s in %s" % (nm, T2)], key="first import")
    ref = "%s[%s]" % (T2, nm)
    rp = "each(%s.ports_)" % ref
    dp = "$0.ports_[%s#0]" % rp
    same = ["true $0.is_dpi()", "%s in %s" % (nm, T2)]
    agree = [("number of arguments", "%s.ports_.size() == $0.ports_.size()" % ref), ("return width", "$0.return_width_ == %s.return_width_" % ref), ("argument names", "%s#0 in $0.ports_" % rp),
             ("argument width", "%s.width() == %s#1.width()" % (dp, rp)), ("argument size", "%s.size_ == %s#1.size_" % (dp, rp)), ("argument sign", "%s.is_signed_ == %s#1.is_signed_" % (dp, rp)),
             ("argument direction", "%s.direction_ == %s#1.direction_" % (dp, rp)), ("context", "$0.is_context_ == %s.is_context_" % ref), ("purity", "$0.is_pure_ == %s.is_pure_" % ref)]
    for n, fact in agree:
        row(F, r, "dpi", v, {"throw"}, same + [x for m, x in agree if m != n] + ["!" + fact], key="different " + n, loops=(1,), opaque=("width",))
    row(F, r, "dpi", v, lambda o: None if o.kind != "throw" else "rejects", same + [x for m, x in agree], key="the same import again", loops=(1,), opaque=("width",))
    # the text of an import
    ex = "kratos::extract_dpi_function"
    ctype = lambda w: "byte" if w <= 8 else "shortint" if w <= 16 else "int" if w <= 32 else "longint"
    eo = ("visit_root", "dpi_funcs", "width")

    def imported(w, kind, order, pw, out_, signed, intf=True):
        g = {"DPIVisitor().dpi_funcs()": two(("n", ("t", "a"))), "a.ports_": two(("x", ("t", "p0")), ("y", ("t", "p1"))), "a.return_width_": ("i", w), "a.port_ordering_": two(*[(k, ("i", i)) for i, k in enumerate(order)]),
             "a.is_pure_": ("b", kind == "pure"), "a.is_context_": ("b", kind == "context"), "p0.width()": ("i", pw), "p1.width()": ("i", 8), "p0.direction_": ("e", "kratos::PortDirection::" + ("Out" if out_ else "In")), "p0.is_signed_": ("b", signed), "p1.is_signed_": ("b", False),
             "p1.direction_": ("e", "kratos::PortDirection::In")}
        pt = {"x": "%s %s%s x" % ("output" if out_ else "input", ctype(pw), " signed" if signed else ""), "y": "input byte y"}
        if not intf:
            pt = {"x": "«SystemVerilogCodeGen::get_port_str(p0)»", "y": "«SystemVerilogCodeGen::get_port_str(p1)»"}
        rt = "void" if w == 0 else "bit" if w == 1 else ctype(w)
        txt = 'import "DPI-C"%s function %s «a.function_name_»(%s);' % (" " + kind if kind else "", rt, ", ".join(pt[k] for k in order))

        def want(o):
            v = o.val
            if o.kind != "ret" or v[0] != "list" or len(v[1]) != 1:
                return "yields %s" % outcome(o)[:200]
            k, t = v[1][0][1]
            got = "".join(x[1] if x[0] == "s" else "«%s»" % text(x) for x in (t[1] if t[0] == "cat" else (t,)))
            if k != ("s", "n") or got != txt:
                return "imports %s as %s" % (text(k), json.dumps(got, ensure_ascii=False))
        row(F, r, "dpi", ex, want, given=gv(F, g), args={1: ("b", intf)}, key="import: %s, order %s, returns %d bits, argument %d bits%s%s%s" % (kind or "plain", "".join(order), w, pw, " signed" if signed else "", " output" if out_ else "", "" if intf else ", logic interface"), opaque=eo + ("get_port_str",), clue=txt)
    for kind in ("pure", "context", ""):
        imported(8, kind, "xy", 8, False, False)
    imported(8, "", "yx", 8, False, False)
    imported(8, "", "yx", 8, True, True, False)
    for w in (0, 1, 2, 8, 9, 16, 17, 32, 33, 64):
        imported(w, "", "xy", 8, False, False)
    for w in (1, 8, 9, 16, 17, 32, 33, 64):
        for od in (False, True):
            for sg in (False, True):
                imported(32, "", "xy", w, od, sg)


def variant(F):
    return F
