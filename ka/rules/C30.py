"""Enum and struct variables have the shape of their type, take only its values and give access to its members."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select, nparams
from .C11 import scen, after, plain, reject, does, world_val1

K = "kratos::"
T = "#VarType::"


def run(F, r, tier):
    r.rule("shape", "a variable or port of an enum or struct type has the width of the type, no extra dimension unless asked for, and is unsigned and packed", 10)
    shapes(F, r)
    r.rule("typed", "an enum target takes exactly values of its own enumeration", 12)
    typed(F, r)
    r.rule("members", "the members of a struct are exactly those listed, each found under its own name", 20)
    members(F, r)
    r.rule("same", "two struct definitions agree exactly when they have the same members in the same order", 10)
    sames(F, r)
    r.rule("values", "an enumeration holds exactly the listed values, each once, under names no other enumeration in scope uses", 12)
    values(F, r)


def shapes(F, r):
    R = "shape"

    def ck(width, size, port, dirn=None):
        def check(o):
            if o.kind == "throw":
                return None
            w, s, g, n, t, pt, sg = (final(o, "this." + x) for x in ("var_width_", "size_", "generator_", "name", "type_", "type_", "is_signed_"))
            if w is None or text(w) not in width:
                return "has the width %s" % (text(w) if w is not None else None)
            if s is None or (plain(s) if s[0] == "list" else text(s)) not in size:
                return "has the dimensions %s" % (text(s) if s is not None else None)
            if sg is not None and sg != ("b", False):
                return "is %s signed" % text(sg)
            if text(g or ("t", "?")) != "$0":
                return "belongs to %s" % text(g or ("t", "?"))
            if port:
                d = final(o, "this.direction_")
                if text(d or ("t", "?")) != "$1":
                    return "has the direction %s" % text(d or ("t", "?"))
            if text(n or ("t", "?")) != ("$2" if port else "$1"):
                return "is named %s" % text(n or ("t", "?"))
        return check
    for c, port in (("EnumPort", 1), ("EnumVar", 0), ("PortPackedStruct", 1), ("VarPackedStruct", 0)):
        for f in F.need(K + c + "::" + c):
            if f.deleted or len(f.params) < 3:
                continue
            p = 3 if port else 2
            t = "$%d" % p
            if c.startswith("Enum"):
                width = (t + ".width()", t + ".width_", "this.enum_type_.width_")
                size = ([1],)
            else:
                width = (t + ".bitwidth()", "this.struct_.bitwidth()")
                size = ([1],) if len(f.params) == p + 1 else (["$%d" % (p + 1)], "$%d" % (p + 1))
            row(F, r, R, f, ck(width, size, port), key="%d arguments" % len(f.params) + (" list" if "vector" in f.params[-1]["t"] else ""), opaque=("is_valid_variable_name", "bitwidth", "width", "std::find"), clue="the shape of its type")
    for c in ("PortPackedStruct", "VarPackedStruct"):
        row(F, r, R, K + c + "::set_is_packed", {"throw"}, args={0: ("b", False)}, key="unpacked struct")
        row(F, r, R, K + c + "::set_is_packed", {"void"}, args={0: ("b", True)}, key="packed struct")
    for c in ("PortPackedStruct", "VarPackedStruct"):
        for q in ("is_packed", "is_struct"):
            row(F, r, R, K + c + "::" + q, {"true"}, key="packed struct")
    for c in ("EnumPort", "EnumVar", "EnumConst"):
        row(F, r, R, K + c + "::is_enum", {"true"}, key="enum")


def typed(F, r):
    R = "typed"
    ends = lambda o: None if o.kind != "throw" and (calls(o, "assign_") or any(e[0] == "call" and "assign" in e[1] for e in o.st.eff)) or o.kind == "ret" else ("rejects it" if o.kind == "throw" else "does nothing")
    for c in ("EnumVar", "EnumPort"):
        for f in F.need(K + c + "::assign_"):
            base = {"this": {"enum_type": "E", "type": T + ("Base" if c == "EnumVar" else "PortIO"), "port_type": "#PortType::Data", "generator": "gen"}, "E": {"name": '"states"'[:-1]}, "G": {"name": '"other'}, "E2": {"name": '"states'}}

            def go(v, want, key, cast=None, **kw):
                w = dict(base, v=v)
                g = world(F, w)
                if cast is not None:
                    g.update(cast)
                row(F, r, R, f, want, args={0: ("e", "v")}, given=g, key=key, opaque=("assign_", "to_string", "handle_name"), clue="as stated")
            for t in ("ConstValue", "Base", "PortIO", "BaseCasted", "Slice", "Expression"):
                go({"is_enum": False, "type": T + t}, lambda o: reject(o), "a %s that is no enum" % t)
            go({"is_enum": True, "type": T + "ConstValue", "enum_def": "E", "parent": "E"}, ends, "constant of the enumeration")
            go({"is_enum": True, "type": T + "ConstValue", "enum_def": "E2", "parent": "E2"}, ends, "constant of the same enumeration defined again")
            go({"is_enum": True, "type": T + "ConstValue", "enum_def": "G", "parent": "G"}, reject, "constant of another enumeration")
            for t in ("Base", "PortIO", "BaseCasted"):
                go({"is_enum": True, "type": T + t, "enum_type": "E"}, ends, "%s of the enumeration" % t)
                go({"is_enum": True, "type": T + t, "enum_type": "G"}, reject, "%s of another enumeration" % t)
                go({"is_enum": True, "type": T + t, "enum_type": None}, reject, "%s of no known enumeration" % t)


def members(F, r):
    R = "members"
    mem = lambda n: [("m%d" % i) for i in range(n)]
    for n in range(4):
        w = {"this": {"struct": "S"}, "S": {"attributes": mem(n)}}
        for i in range(n):
            w["m%d" % i] = {"name": '"f%d' % i}
        for c in ("PortPackedStruct", "VarPackedStruct"):
            def names(o, n=n):
                got = sorted(text(x).strip('"') for x in o.val[1]) if o.val is not None and o.val[0] in ("set", "list") else outcome(o)
                return None if got == ["f%d" % i for i in range(n)] else "lists %s" % got
            scen(F, r, R, c + "::member_names", w, names, "%d members" % n)
            for i in range(n + 1):
                def one(o, i=i, n=n):
                    t = outcome(o)
                    return None if t == ("null" if i == n else "m%d" % i) or t == "&m%d" % i and i < n else "finds %s" % t
                scen(F, r, R, c + "::get_definition", w, one, "member %d of %d" % (i, n), ['"f%d' % i])
    for f in F.need(K + "PackedStruct::PackedStruct"):
        if f.deleted or len(f.params) != 2:
            continue
        signed = "bool" in f.params[1]["t"]
        fields = [("a", 4, True), ("b", 1, False), ("c", 8, True)]
        lst = ("list", tuple(("tup", (("s", n), ("i", w)) + ((("b", s),) if signed else ())) for n, w, s in fields))

        def built(o, signed=signed):
            v = final(o, "this.attributes")
            if v is None or v[0] != "list" or len(v[1]) != 3:
                return "holds %s" % (text(v) if v is not None else "nothing")
            recs = []
            for e in o.st.eff:
                if e[0] == "new" and e[1].endswith("PackedStructFieldDef"):
                    recs.append({})
                elif e[0] == "store" and recs and re.search(r"PackedStructFieldDef\(\)\.(name|width|signed_?)$", e[1]):
                    recs[-1][e[1].rpartition(".")[2].rstrip("_")] = e[2]
            if len(recs) == 3 and any(recs):
                for (n, w, s), d in zip(fields, recs):
                    if d != {"name": ("s", n), "width": ("i", w), "signed": ("b", s if signed else False)}:
                        return "member %s becomes %s" % (n, {k: text(x) for k, x in d.items()})
            return None
        row(F, r, R, f, built, args={1: lst}, key="three members", clue="every member in order")
    # picking a member of a struct member: the struct of the innermost selection decides
    for f in F.need(K + "PackedSlice::slice_member"):
        def pick(want):
            def check(o):
                c = calls(o, "set_up")
                if [x[:2] for x in c] != [[want, '"f"']]:
                    return "selects from %s" % c
                p = puts(o, "this.slices_")
                if len(p) != 1 or text(o.val).lstrip("*&") != p[0][0].lstrip("*&"):
                    return "hands back %s but keeps %s" % (text(o.val), p)
            return check
        at = {"root": {}, "d": {"struct": "inner", "struct_": "inner"}, "d0": {"struct_": None, "struct": None}}
        for objs, want, key in (({"this": {"original_struct": "orig", "def": "d"}}, "orig", "element of an array of structs"),
                                ({"this": {"original_struct": None, "def": "d", "struct": True}}, "inner", "struct member of a struct"),):
            w = dict(at)
            w.update(objs)
            g = world(F, w)
            g.update({"this.is_struct()": ("b", True), "d.struct_": ("e", "inner"), "this.original_struct_": ("e", "orig") if want == "orig" else ("null",)})
            row(F, r, R, f, pick(want), args={0: ("s", "f")}, given=g, key=key, opaque=("set_up", "is_struct", "get_var_root_parent", "kratos::PackedSlice::PackedSlice"), clue="a new member slice of that struct")
    # a member of a selection: below a struct member it belongs to the inner struct, otherwise to the variable's struct
    for f in [x for x in F.need(K + "VarSlice::operator[]") if "basic_string" in x.params[0]["t"]]:
        for deep in (True, False):
            def reach(o, deep=deep):
                t = text(o.val) if o.val is not None else ""
                if o.kind == "throw":
                    return None if not deep else "is rejected"
                if (".slice_member(" in t) != deep:
                    return "looks it up in %s" % ("the variable's struct" if deep else t)
            g = {"this.is_struct()": ("b", deep), "this.width()": ("i", 8), "this.var_width()": ("i", 8), "this.var_width_": ("i", 8), "this.parent_var": ("e", "pv"), "pv.is_packed()": ("b", True), "pv.is_packed_": ("b", True),
                 "this.get_var_root_parent()": ("e", "root"), "root.is_struct()": ("b", True)}
            row(F, r, R, f, reach, given=g, key="member of a %s" % ("struct member" if deep else "plain selection"), opaque=("is_struct", "width", "get_var_root_parent", "slice_member", "get_definition", "kratos::PackedSlice::PackedSlice"), clue="the innermost struct decides")


def sames(F, r):
    R = "same"
    for f in F.need(K + "PackedStructFieldDef::same"):
        for nest in ("none", "left", "right", "both"):
            for nm in (True, False):
                for w in (True, False):
                    for s in (True, False):
                        for inner in ((True, False) if nest == "both" else (None,)):
                            a = {"name": '"a', "width": 4, "signed_": True, "struct_": "SA" if nest in ("left", "both") else None}
                            b = {"name": '"a' if nm else '"b', "width": 4 if w else 5, "signed_": s, "struct_": "SB" if nest in ("right", "both") else None}
                            g = world(F, {"this": a, "$0": b})
                            if inner is not None:
                                g["SA.same(SB)"] = g["SA.same(*SB)"] = ("b", inner)
                            if nest == "none":
                                for wid in (1, 64):
                                    a1, b1 = dict(a, width=wid), dict(b, width=wid if w else wid + 1)
                                    row(F, r, R, f, {"true" if nm and w and s else "false"}, given=world(F, {"this": a1, "$0": b1}), key="%d bit(s); name %s width %s sign %s" % (wid, nm, w, s), opaque=("kratos::PackedStruct::same",))
                            want = False if nest in ("left", "right") else nm and (inner if nest == "both" else w and s)
                            row(F, r, R, f, {"true" if want else "false"}, given=g, key="nested %s; name %s width %s sign %s inner %s" % (nest, nm, w, s, inner), opaque=("kratos::PackedStruct::same",))
    for f in F.need(K + "PackedStruct::same"):
        for n in range(3):
            for m in range(3):
                for bad in range(-1, min(n, m)):
                    w = {"this": {"attributes": ["a%d" % i for i in range(n)]}, "$0": {"attributes": ["b%d" % i for i in range(m)]}}
                    g = world(F, w)
                    for i in range(n):
                        for j in range(m):
                            g["a%d.same(b%d)" % (i, j)] = ("b", i == j and i != bad)
                    row(F, r, R, f, {"true" if n == m and bad < 0 else "false"}, given=g, key="%d and %d members, difference at %s" % (n, m, bad), opaque=("kratos::PackedStructFieldDef::same",))


def values(F, r):
    R = "values"
    for f in F.need(K + "Enum::Enum"):
        if f.deleted or len(f.params) != 3:
            continue
        for d in ({}, {"A": 0}, {"A": 0, "B": 1, "C": 5}):
            m = ("list", tuple(("tup", (("s", k), ("i", v))) for k, v in d.items()))
            okn = {'is_valid_variable_name("%s")' % k: ("b", True) for k in list(d) + ["E"]}

            def holds(o, d=d):
                if o.kind == "throw":
                    return "rejects it"
                v = final(o, "this.values")
                got = plain(v) if v is not None and v[0] == "list" else [[k, text(x)] for k, x in puts(o, "this.values")]
                if len(got) != len(d):
                    return "holds %s" % got
                for k, x in got:
                    k = k.strip('"')
                    if not re.fullmatch(r'&?new EnumConst\(.*, %s, \$2, this, "%s"\)' % (d.get(k, "none"), k), x):
                        return "holds %s as %s" % (k, x)
                if text(final(o, "this.width_") or ("t", "?")) != "$2":
                    return "has the width %s" % text(final(o, "this.width_") or ("t", "?"))
            row(F, r, R, f, holds, args={0: ("s", "E"), 1: m}, given=okn, key="values %s" % sorted(d), opaque=("is_valid_variable_name", "const_gen", "kratos::EnumConst::EnumConst"), clue="every listed value")
            for bad in d:
                g = dict(okn)
                g['is_valid_variable_name("%s")' % bad] = ("b", False)
                row(F, r, R, f, {"throw"}, args={0: ("s", "E"), 1: m}, given=g, key="values %s, %s is a keyword" % (sorted(d), bad), opaque=("is_valid_variable_name", "const_gen", "kratos::EnumConst::EnumConst"))
    for f in F.need(K + "Enum::get_enum"):
        for k, want in (("A", "cA"), ("B", "cB"), ("Z", "throw")):
            row(F, r, R, f, {want}, args={0: ("s", k)}, given=world(F, {"this": {"values": {'"A': "cA", '"B': "cB"}}}), key="value " + k)
    for f in F.need(K + "Enum::verify_naming_conflict"):
        enums = {'"E1': "E1", '"E2': "E2"}
        g = world(F, {"E1": {"values": {'"A': "cA", '"B': "cB"}, "name": '"E1'}, "E2": {"values": {'"C': "cC"}, "name": '"E2'}})
        for nm, vals, want in (("E3", ["D", "F"], "void"), ("E3", ["D", "A"], "throw"), ("E3", ["B"], "throw"), ("E3", ["C", "D"], "throw"), ("E1", ["D"], "throw"), ("E2", ["D"], "throw"), ("E3", [], "void"), ("A", ["D"], None)):
            if want is None:
                continue
            m = ("list", tuple(("tup", (("s", v), ("i", i))) for i, v in enumerate(vals)))
            row(F, r, R, f, {want}, args={0: ("list", tuple(("tup", (("s", k[1:]), ("e", v))) for k, v in enums.items())), 1: ("s", nm), 2: m}, given=g, key="%s with %s" % (nm, vals))
    # an enumeration of the design is visible everywhere, one of a module only there
    def scope(want):
        def check(o):
            if o.kind == "throw":
                return None
            v = [e[2] for e in o.st.eff if e[0] == "store" and e[1].endswith(".local_")]
            return None if (v or [("b", True)])[-1] == ("b", want) else "is %slocal" % ("" if (v or [("b", True)])[-1] == ("b", True) else "not ")
        return check
    row(F, r, R, K + "Context::enum_", scope(False), key="enumeration of the design", opaque=("is_valid_variable_name", "verify_naming_conflict"), clue="not local")
    for f in [f for f in F.need(K + "Generator::port") if len(f.params) == 3 and "Enum" in f.params[2]["t"]]:
        for d in ("In", "Out", "InOut"):
            row(F, r, R, f, {"throw"}, given=world(F, {"d": {"local": True, "name": '"e'}}), args={0: ("e", K + "PortDirection::" + d), 2: ("e", "d")}, key="%s port of a local enumeration" % d, opaque=("add_port_name", "is_valid_variable_name"))
    row(F, r, R, K + "Generator::enum_", scope(True), key="enumeration of a module", opaque=("is_valid_variable_name", "verify_naming_conflict"), clue="local")
    for f in F.need(K + "EnumConst::to_string"):
        for have, want in ((True, '"A"'), (False, "throw")):
            row(F, r, R, f, {want}, given=world(F, {"this": {"parent": "E", "name": '"A', "name_": '"A'}, "E": {"values": {'"A': "c", '"B': "d"} if have else {'"B': "d"}, "name": '"E'}}), key="name " + ("known" if have else "unknown"))
