"""A copied declaration is of the same type, shape and direction as the one it was copied from."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select, nparams
from .C11 import after, plain, reject, does, world_val1

K = "kratos::"
SRC = {"width_param": None, "size_param": {}, "raw_type_param": None}
OPQ = ("set_active_high", "is_valid_variable_name", "copy_meta_data", "add_port_name", "to_string", "handle_name")


def fields(o, v):
    """what the new object v was built from and what was set on it afterwards"""
    if v is None:
        return None
    n = text(v).lstrip("&*")
    m = None
    for e in o.st.eff:
        if e[0] == "call" and text(("call", "new " + last(e[1]), e[2])) == n:
            m = (last(e[1]), list(e[2]))
    if not m:
        mm = re.match(r"new (\w+)\(", n)
        if not mm:
            return None
        x = v
        while x[0] in ("addr", "deref") and len(x) > 1:
            x = x[1]
        if x[0] != "call":
            return None
        m = (mm.group(1), list(x[2]))
    cls, a = m
    names = {"Var": ["generator", "name", "var_width", "size", "is_signed"], "Port": ["generator", "direction", "name", "var_width", "size", "type", "is_signed"],
             "PortPackedStruct": ["generator", "direction", "name", "struct", "size"], "EnumPort": ["generator", "direction", "name", "enum"]}.get(cls)
    if not names:
        return None
    d = dict(zip(names, [plain(x) for x in a]))
    d["class"] = cls
    for f in ("explicit_array", "is_packed", "active_high"):
        x = final(o, "%s.%s_" % (n, f))
        if x is not None:
            d[f] = plain(x)
        for recv, args in does(o, "set_" + f):
            if recv.lstrip("&*") == n:
                d[f] = {"true": 1, "false": 0}.get(args[0], args[0])
    d["meta"] = [[r.lstrip("&*")] + [x.lstrip("&*") for x in a] for r, a in does(o, "copy_meta_data")]
    d["self"] = n
    return d


def run(F, r, tier):
    r.rule("copy", "the copy of a variable or port has the width, dimensions, sign, packing, direction, kind and type of the original and is declared under the given name in the copying module", 40)
    copies(F, r)
    r.rule("clone", "the ports of a cloned or completed module are those of its definition, of the same type", 20)
    clones(F, r)
    r.rule("made", "a struct port or variable and a parameter are built with exactly the type, dimensions, width and sign asked for", 15)
    made(F, r)
    r.rule("import", "a module read from a source file lists that file and every library file, and has exactly the ports found in it", 4)
    imports(F, r)


def registered(o, n, name):
    e = final(o, "this.vars_")
    tab = plain(e) if e is not None else []
    if isinstance(tab, list) and ['"%s"' % name, n] in [[x[0], x[1].lstrip("&*")] for x in tab if isinstance(x, list) and len(x) == 2]:
        return True
    return any(k.strip('"') == name and v.lstrip("&*") == n for k, v in puts(o, "this.vars_"))


def copies(F, r):
    R = "copy"
    G = K + "Generator::"
    vs = [f for f in F.need(G + "var") if f.params and re.search(r"const (kratos::)?Var &", f.params[0]["t"])]
    ps = [f for f in F.need(G + "port") if f.params and re.search(r"const (kratos::)?(Port|PortPackedStruct|EnumPort) &", f.params[0]["t"])]
    if not vs or len(ps) < 6:
        raise AnalysisError("copying declarations vanished")
    for f in vs:
        for w, size, sg, pk, ex in ((1, [1], False, True, False), (8, [1], True, True, False), (4, [2, 3], True, False, True), (4, [2], False, True, True), (16, [1], False, False, True)):
            def check(o, w=w, size=size, sg=sg, pk=pk, ex=ex):
                if o.kind == "throw":
                    return "rejects it"
                d = fields(o, o.val)
                if not d or d["class"] != "Var":
                    return "makes %s" % text(o.val)
                got = [d.get(x) for x in ("generator", "name", "var_width", "size", "is_signed")]
                if got != ["this", '"x"', w, size, int(sg)]:
                    return "declares %s" % got
                if d.get("explicit_array", 0) != int(ex) or d.get("is_packed", 1) != int(pk):
                    return "makes it an array %s, packed %s" % (d.get("explicit_array"), d.get("is_packed"))
                if [x[:2] for x in d["meta"]] != [["v", d["self"]]]:
                    return "does not copy the parametrisation"
                if not registered(o, d["self"], "x"):
                    return "is not declared in the module"
            wd = {"this": {"vars": {}}, "v": dict(SRC, type="#VarType::Base", var_width=w, size=size, width=w * product(size), is_signed=sg, is_packed=pk, explicit_array=ex)}
            row(F, r, R, f, check, given=world(F, wd), args={0: ("e", "v"), 1: ("s", "x")}, key="variable of %d bits x %s signed %s" % (w, size, sg), opaque=OPQ, recur=4, clue="a variable of the same type")
    for f in ps:
        kind = re.search(r"(Port|PortPackedStruct|EnumPort) &", f.params[0]["t"]).group(1)
        named = len(f.params) == 3
        for dr in ("In", "Out", "InOut"):
            for w, size, sg, pk, ex, ty, ah in ((1, [1], False, True, False, "AsyncReset", False), (1, [1], False, True, False, "Reset", True), (1, [1], False, True, False, "Clock", None), (8, [1], True, True, False, "Data", None), (4, [2, 3], False, False, True, "Data", None)):
                if kind != "Port" and (ty != "Data" or kind == "EnumPort" and size != [1]):
                    continue

                def check(o, kind=kind, dr=dr, w=w, size=size, sg=sg, pk=pk, ex=ex, ty=ty, ah=ah, name='x' if named else 'nm'):
                    if o.kind == "throw":
                        return "rejects it"
                    d = fields(o, o.val)
                    if not d or d["class"] != kind:
                        return "makes %s" % text(o.val)
                    want = {"generator": "this", "direction": "PortDirection::" + dr, "name": '"%s"' % name}
                    if kind == "Port":
                        want.update(var_width=w, size=size, is_signed=int(sg), type="PortType::" + ty)
                        if d.get("explicit_array", 0) != int(ex) or d.get("is_packed", 1) != int(pk):
                            return "makes it an array %s, packed %s" % (d.get("explicit_array"), d.get("is_packed"))
                        if ah is not None and d.get("active_high") != int(ah):
                            return "is active high: %s" % d.get("active_high")
                    elif kind == "EnumPort":
                        want["enum"] = ("E", "E.shared_from_this()")
                    else:
                        want.update(struct="S", size=size)
                    for k, x in want.items():
                        y = d.get(k)
                        y = y.replace("kratos::", "").lstrip("#&*") if isinstance(y, str) else y
                        if y != x and not (isinstance(x, tuple) and y in x):
                            return "has the %s %s" % (k, y)
                    if [x[:2] for x in d["meta"]] != [["v", d["self"]]] or d["meta"][0][2] != ("$2" if named else "$1"):
                        return "does not copy the parametrisation"
                    if not registered(o, d["self"], name):
                        return "is not declared in the module"
                    if [x for x in does(o, "add_port_name")] != [["this", ['"%s"' % name]]] and [list(x) for x in does(o, "add_port_name")] != [["this", ['"%s"' % name]]]:
                        return "is not listed as a port"
                wd = {"this": {"vars": {}, "ports": []}, "E": {}, "S": {},
                      "v": dict(SRC, name='"nm', type="#VarType::PortIO", var_width=w, size=size, width=w * product(size), is_signed=sg, is_packed=pk, explicit_array=ex, active_high=ah, enum_type="E", packed_struct="S", struct="S")}
                given = dict(world(F, wd))
                for k in ("v.direction_", "v.port_direction()", "v.port_direction"):
                    given[k] = ("e", K + "PortDirection::" + dr)
                for k in ("v.port_type()", "v.port_type_", "v.port_type"):
                    given[k] = ("e", K + "PortType::" + ty)
                if ah is not None:
                    for k in ("active_high_", "active_high()"):
                        given["v." + k] = ("opt", ("b", ah))
                a = {0: ("e", "v")}
                if named:
                    a[1] = ("s", "x")
                row(F, r, R, f, check, given=given, args=a, key="%s port, %s %d bits x %s %s" % (dr, ty, w, size, "renamed" if named else ""), opaque=OPQ + ("width",), recur=4, clue="a port of the same type")


def product(s):
    n = 1
    for x in s:
        n *= x
    return n


def clones(F, r):
    R = "clone"
    G = K + "Generator::"
    prt = {
        "a": ("Port", dict(SRC, type="#VarType::PortIO", var_width=1, size=[1], is_signed=False, is_packed=True, explicit_array=False, active_high=False), "In", "AsyncReset"),
        "b": ("Port", dict(SRC, type="#VarType::PortIO", var_width=4, size=[2, 3], is_signed=True, is_packed=False, explicit_array=True, active_high=None), "Out", "Data"),
        "e": ("Port", dict(SRC, type="#VarType::PortIO", var_width=8, size=[1], is_signed=False, is_packed=False, explicit_array=True, active_high=None), "In", "Data"),
        "f": ("Port", dict(SRC, type="#VarType::PortIO", var_width=1, size=[1], is_signed=False, is_packed=True, explicit_array=False, active_high=True), "In", "Reset"),
        "g": ("Port", dict(SRC, type="#VarType::PortIO", var_width=1, size=[4], is_signed=False, is_packed=True, explicit_array=True, active_high=None), "InOut", "Data"),
        "c": ("EnumPort", dict(SRC, type="#VarType::PortIO", var_width=2, size=[1], is_signed=False, is_packed=True, explicit_array=False, active_high=None, enum_type="E"), "Out", "Data"),
        "d": ("PortPackedStruct", dict(SRC, type="#VarType::PortIO", var_width=9, size=[1], is_signed=False, is_packed=True, explicit_array=False, active_high=None, packed_struct="S", struct="S"), "In", "Data"),
    }
    for q, new, src in (("clone", None, "this"), ("copy_over_missing_ports", "this", "g")):
        f = F.need(G + q)[0]
        for names in ((), ("a",), ("b",), ("c",), ("d",), ("e",), ("f",), ("g",), ("a", "b"), ("c", "d"), ("b", "c", "a"), ("e", "f", "g")):
            for have in ((),) if q == "clone" else ((), names[:1], names[1:]):
                def check(o, names=names, have=have, new=new):
                    if o.kind == "throw":
                        return "rejects it"
                    n = new or (text(o.val).lstrip("&*") if o.val else "?")
                    e = final(o, n + ".vars_")
                    got = {}
                    for x in (e[1] if e is not None and e[0] == "list" else ()):
                        if x[0] in ("tup", "list") and len(x[1]) == 2:
                            got[plain(x[1][0]).strip('"')] = x[1][1]
                    for k, v in puts(o, n + ".vars_"):
                        got[k.strip('"')] = v
                    todo = [x for x in names if x not in have]
                    if sorted(x for x in got if x not in have) != sorted(todo):
                        return "declares the ports %s" % sorted(got)
                    for x in todo:
                        cls, w, dr, ty = prt[x]
                        d = fields(o, got[x])
                        if not d or d["class"] != cls:
                            return "makes %s of the %s %s" % (text(got[x])[:60], cls, x)
                        want = {"direction": "PortDirection::" + dr, "name": '"%s"' % x}
                        if cls == "Port":
                            want.update(var_width=w["var_width"], size=w["size"], is_signed=int(w["is_signed"]), type="PortType::" + ty)
                            if d.get("explicit_array", 0) != int(w["explicit_array"]) or d.get("is_packed", 1) != int(w["is_packed"]):
                                return "makes %s an array %s, packed %s" % (x, d.get("explicit_array"), d.get("is_packed"))
                            if w["active_high"] is not None and d.get("active_high") != int(w["active_high"]):
                                return "makes %s active high: %s" % (x, d.get("active_high"))
                        elif cls == "EnumPort":
                            want["enum"] = ("E", "E.shared_from_this()")
                        else:
                            want.update(struct="S")
                        for k, y in want.items():
                            z = d.get(k)
                            z = z.replace("kratos::", "").lstrip("#&*") if isinstance(z, str) else z
                            if z != y and not (isinstance(y, tuple) and z in y):
                                return "gives %s the %s %s" % (x, k, z)
                given = {}
                wd = {"this": {"fn_name_ln": [], "context": "C", "params": {}}, "E": {}, "S": {}, "g": {}}
                wd[src].update({"ports": ['"' + x for x in names], "vars": {'"' + x: "p" + x for x in names}})
                if src != "this":
                    wd["this"].update({"ports": ['"' + x for x in have], "vars": {'"' + x: "q" + x for x in have}})
                for x in names:
                    wd["p" + x] = dict(prt[x][1], name='"' + x)
                    wd["q" + x] = {}
                given.update(world(F, wd))
                for x in names:
                    if prt[x][1]["active_high"] is not None:
                        for k in ("active_high_", "active_high()"):
                            given["p%s.%s" % (x, k)] = ("opt", ("b", prt[x][1]["active_high"]))
                    for k in ("direction_", "port_direction()"):
                        given["p%s.%s" % (x, k)] = ("e", K + "PortDirection::" + prt[x][2])
                    for k in ("port_type_", "port_type()"):
                        given["p%s.%s" % (x, k)] = ("e", K + "PortType::" + prt[x][3])
                row(F, r, R, f, check, given=given, args={0: ("e", "g")} if src != "this" else {}, key="ports %s" % " ".join("%s:%s" % (x, prt[x][0]) for x in names) + (" without " + " ".join(have) if have else ""),
                    opaque=("set_active_high", "is_valid_variable_name", "copy_meta_data", "to_string", "handle_name", "width", "set_external"), recur=4, depth=10, types={"p" + x: K + prt[x][0] for x in prt}, clue="the ports of the definition")


def made(F, r):
    """what the declaring functions build from their arguments"""
    R = "made"
    G = K + "Generator::"
    for q, cls, base in (("port_packed", "PortPackedStruct", ["#In", "n", "S"]), ("var_packed", "VarPackedStruct", ["n", "S"])):
        for f in F.need(G + q):
            pt = [p["t"] for p in f.params]
            arr = "vector" in pt[-1]
            num = not arr and "int" in pt[-1]
            for sz in ([[1], [4], [2, 3]] if arr else [[1], [4]] if num else [None]):
                args = [("e", K + "PortDirection::In") if x == "#In" else ("s", "n") if x == "n" else ("e", x) for x in base]
                args += [("list", tuple(("i", x) for x in sz))] if arr else [("i", sz[0])] if num else []

                def check(o, sz=sz, cls=cls):
                    n = [e for e in o.st.eff if e[0] == "new" and last(e[1]) == cls]
                    if o.kind == "throw" or len(n) != 1:
                        return "yields %s" % outcome(o)
                    a = [plain(x) for x in n[0][2]]
                    want = ["this"] + (["PortDirection::In"] if cls.startswith("Port") else []) + ['"n"', "S", sz or [1]]
                    a = [x.replace("kratos::", "").lstrip("#&*") if isinstance(x, str) else x for x in a]
                    if a[:len(want) - 1] != want[:-1] or a[len(want) - 1:] not in ([want[-1]], [want[-1][0]] if len(want[-1]) == 1 else None):
                        return "builds %s" % a
                    if not registered(o, text(o.val).lstrip("&*"), "n"):
                        return "does not declare it"
                    if cls.startswith("Port") and [list(x) for x in does(o, "add_port_name")] != [["this", ['"n"']]]:
                        return "is not listed as a port"
                row(F, r, R, f, check, given=world(F, {"this": {"vars": {}, "ports": []}, "S": {}}), args=dict(enumerate(args)), key="%s %s" % (cls, sz), opaque=OPQ + (K + cls + "::" + cls,), recur=4, clue="the shape asked for")
    for f in F.need(G + "parameter"):
        pt = [p["t"] for p in f.params]
        if len(pt) < 2 or not all("int" in x or x == "bool" for x in pt[1:]):
            continue
        for w in (1, 8, 32, 64):
            for sg in ((False, True) if len(pt) == 3 else (None,)):
                def par(o, w=w, sg=sg):
                    n = [e for e in o.st.eff if e[0] == "new" and last(e[1]) == "Param"]
                    if o.kind == "throw" or len(n) != 1:
                        return "yields %s" % outcome(o)
                    a = [plain(x) for x in n[0][2]]
                    return None if a == ["this", '"n"', w, int(bool(sg))] else "builds %s" % a
                row(F, r, R, f, par, given=world(F, {"this": {"params": {}}}), args=dict(enumerate([("s", "n"), ("i", w)] + ([("b", sg)] if sg is not None else []))), key="parameter of %d bits%s" % (w, "" if sg is None else " signed %s" % sg),
                    opaque=OPQ + ("check_param_name_conflict", K + "Param::Param"), recur=4, clue="the width and sign asked for")


DECL = [
    ("input a", {"a": ("In", 1, 0)}),
    ("input a, b, c, output f", {"a": ("In", 1, 0), "b": ("In", 1, 0), "c": ("In", 1, 0), "f": ("Out", 1, 0)}),
    ("output [3:0] f", {"f": ("Out", 4, 0)}),
    ("output [3: 0] g", {"g": ("Out", 4, 0)}),
    ("output [ 12 : 4 ] g, h", {"g": ("Out", 9, 0), "h": ("Out", 9, 0)}),
    ("input [7:0] a, input b", {"a": ("In", 8, 0), "b": ("In", 1, 0)}),
    ("input [7:0] a, output b, output [1:0] c, inout d", {"a": ("In", 8, 0), "b": ("Out", 1, 0), "c": ("Out", 2, 0), "d": ("InOut", 1, 0)}),
    ("input logic clk, input wire [7:0] a, output reg b", {"clk": ("In", 1, 0), "a": ("In", 8, 0), "b": ("Out", 1, 0)}),
    ("input a,\n    output [2:0] b,\n\toutput c\n", {"a": ("In", 1, 0), "b": ("Out", 3, 0), "c": ("Out", 1, 0)}),
    ("inout a, input b", {"a": ("InOut", 1, 0), "b": ("In", 1, 0)}),
    ("input signed [7:0] a, input b", {"a": ("In", 8, 1), "b": ("In", 1, 0)}),
    ("input [0:3] a", None),
    ("input [3] a", None),
    ("input [3:0", None),
    ("input", None),
]


def tokens(text_, delim):
    return ("list", tuple(("s", x) for x in re.split("[" + re.escape(delim) + "]+", text_) if x))


def imports(F, r):
    R = "import"
    f = F.need(K + "get_port_from_mod_def")[0]
    for decl, want in DECL:
        def tok(vs, decl=decl):
            if len(vs) != 2 or vs[1][0] != "s":
                return None
            return tokens(vs[0][1] if vs[0][0] == "s" else decl, vs[1][1])

        def num(vs):
            try:
                return ("i", int(vs[0][1])) if vs[0][0] == "s" else None
            except ValueError:
                return THROW

        def check(o, want=want):
            if want is None:
                return reject(o)
            if any(not p for a, p in o.st.trail):
                return None  # nothing that looks like a declaration was found
            if o.kind == "throw":
                return "rejects it"
            if o.val is None or o.val[0] != "list":
                return "answers %s" % outcome(o)
            got = {}
            for x in o.val[1]:
                d = fields(o, x[1][1]) if x[0] in ("tup", "list") and len(x[1]) == 2 else None
                if not d or d["class"] != "Port":
                    return "finds %s" % text(x)
                n = plain(x[1][0]).strip('"')
                if d["generator"] != "g" or d["name"] != '"%s"' % n or d["type"].replace("kratos::", "").lstrip("#") != "PortType::Data" or d["size"] not in (1, [1]):
                    return "finds %s" % text(x)
                got[n] = (d["direction"].replace("kratos::", "").lstrip("#").replace("PortDirection::", ""), d["var_width"], d["is_signed"])
            return None if got == want else "finds %s" % sorted(got.items())

        def check2(o, want=want):
            return None if want is None and not any(p for a, p in o.st.trail) else check(o)
        row(F, r, R, f, check if want is not None else lambda o: None if any(not p for a, p in o.st.trail) else reject(o), args={0: ("e", "g")}, key=decl.replace("\n", " ").replace("\t", " "), stubs={"get_tokens": tok, "stoi": num}, recur=4, depth=10, loops=(1,),
            clue=str(sorted(want.items())) if want else "an error")
    f = next((g for g in F.all if g.name == "get_tokens" and len(g.params) == 2), None)
    if f is None:
        raise AnalysisError("get_tokens vanished")
    for t, d in (("a, b,,c", ", "), ("", ","), ("abc", ","), (",,", ","), ("[3:0]", "[:] "), (" x  y ", " "), ("x,y", ";")):
        want = [x for x in re.split("[" + re.escape(d) + "]+", t) if x]
        row(F, r, R, f, lambda o, want=want: None if o.val is not None and o.val[0] == "list" and [plain(x).strip('"') for x in o.val[1]] == want else "answers %s" % outcome(o), args={0: ("s", t), 1: ("s", d)}, key='split "%s" at "%s"' % (t, d), clue=str(want))
    f = F.need(K + "Generator::from_verilog")[0]
    for missing in (None, "src.v", "l1", "l2"):
        for libs in ((), ("l1",), ("l1", "l2")):
            for types in ((), (("p", "Clock"),), (("q", "AsyncReset"), ("p", "Clock")), (("z", "Clock"),)):
                if missing and (types or missing.startswith("l") and missing not in libs):
                    continue

                def check(o, missing=missing, libs=libs, types=types):
                    if missing or any(t[0] == "z" for t in types):
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    if text(o.val).lstrip("&*") != "M":
                        return "answers %s" % outcome(o)
                    lf = final(o, "M.lib_files_")
                    lf = plain(lf) if lf is not None else []
                    if lf != ['"src.v"'] + ['"%s"' % x for x in libs]:
                        return "lists the files %s" % lf
                    ps = plain(final(o, "M.ports_") or ("list", ()))
                    vs = plain(final(o, "M.vars_") or ("list", ()))
                    if sorted(ps) != ['"p"', '"q"'] or sorted(vs) != [['"p"', "pp"], ['"q"', "pq"]]:
                        return "has the ports %s and variables %s" % (ps, vs)
                    got = sorted((a, x[0].replace("kratos::", "")) for a, x in does(o, "set_port_type"))
                    if got != sorted(("p" + n, "PortType::" + t) for n, t in types):
                        return "sets the port types %s" % got
                wd = {"C": {}, "M": {"lib_files": [], "ports": [], "vars": {}}, "pp": {}, "pq": {}}
                given = dict(world(F, wd))
                given['C.generator("top")'] = ("e", "M")
                prt = ("list", (("tup", (("s", "p"), ("e", "pp"))), ("tup", (("s", "q"), ("e", "pq")))))
                row(F, r, R, f, check, given=given, args={0: ("e", "C"), 1: ("s", "src.v"), 2: ("s", "top"), 3: ("list", tuple(("s", x) for x in libs)), 4: ("list", tuple(("tup", (("s", n), ("e", K + "PortType::" + t))) for n, t in types))},
                    key="libraries %s types %s missing %s" % (" ".join(libs), " ".join("%s:%s" % t for t in types), missing), stubs={"get_port_from_verilog": lambda vs: prt, "exists": lambda vs, missing=missing: ("b", vs[0] != ("s", missing))},
                    opaque=("generator", "set_port_type"), recur=4, depth=8, clue="the ports and files of the source")
