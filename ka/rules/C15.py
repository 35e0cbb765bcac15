"""The module hierarchy and the design context stay consistent under every edit."""
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import Fact, select, must

G = "kratos::Generator::"
X = "kratos::Context::"
CH, CN, CC, CD = "this.children_", "this.children_names_", "this.children_comments_", "this.children_debug_"
M = "this.modules_"


def erased(o, table):
    return [text(e[2][0]) for e in o.st.eff if e[0] == "call" and e[1] == table + ".erase" and e[2]]


def touched(o):
    """anything this path changes"""
    return [e for e in o.st.eff if e[0] == "store" and not e[1].startswith(("[", "$ret"))] + \
        [e for e in o.st.eff if e[0] == "call" and e[1].rsplit(".", 1)[-1] in PUT + ("erase", "extract", "clear") and "this." in e[1]]


def rekeyed(o, table, old, new):
    """the entry of `old` in a map is now the entry of `new`"""
    h = "%s.extract(%s)" % (table, old)
    via = any(e[0] == "store" and e[1] == h + ".key()" and text(e[2]) == new for e in o.st.eff) and \
        any(e[0] == "call" and e[1] == table + ".insert" and text(e[2][0]) == h for e in o.st.eff)
    direct = [k for k, v in puts(o, table)] == [new] and old in erased(o, table)
    return via or direct


def run(F, r, tier):
    r.rule("child-add", "adding a child makes it findable under its instance name, last in order, with its parent set; a taken name is rejected", 5)
    r.rule("child-remove", "removing a child removes it from every table and disconnects exactly its inputs' drivers and its outputs' readers", 2)
    r.rule("child-rename", "renaming a child rekeys every table and keeps its position; an illegal rename changes nothing", 2)
    r.rule("child-replace", "replacing a child requires equal ports and moves each connection to the port of the same name", 6)
    r.rule("child-query", "hierarchy queries answer from the tables, in declaration order", 8)
    r.rule("context", "the design context lists every module under its current name only", 8)
    r.rule("path", "the hierarchical name of a module is the instance names from the top down to it", 8)
    paths(F, r)
    r.rule("contents", "statements and variables belong to the module they were added or moved to", 8)
    # ------------------------------------------------------------------ adding
    A = "child-add"
    for f in F.need(G + "add_child_generator"):
        val = "$1"

        def add(o, f=f):
            if o.kind == "throw":
                return "changes the hierarchy before it rejects" if touched(o) else None
            if not assumed(o, "in", "$0", CH, False):
                return "completes without establishing that the instance name is free"
            if [(k, text(v)) for k, v in puts(o, CH)] != [("$0", "$1")]:
                return "lists %s as child" % [(k, text(v)) for k, v in puts(o, CH) if v]
            if puts(o, CN) not in ([("$0", None)],):
                return "orders %s" % puts(o, CN)
            nm, pa = final(o, "$1.instance_name"), final(o, "$1.parent_generator_")
            if nm is None or text(nm) != "$0":
                return "the instance is named %s" % (text(nm) if nm else "as before")
            if pa is None or text(pa) != "this":
                return "the child's parent is %s" % (text(pa) if pa else "unchanged")
            if len(f.params) == 3 and assumed(o, "truth", "this.debug") and [(k, text(v)) for k, v in puts(o, CD)] != [("$0", "$2")]:
                return "the source location of the instance is recorded as %s" % puts(o, CD)
        row(F, r, A, f, add, key="add", opaque=("is_valid_variable_name",))
        row(F, r, A, f, {"throw"}, ["$0 in " + CH], key="taken name", opaque=("is_valid_variable_name",))
        row(F, r, A, f, lambda o: None if o.kind != "throw" else "rejects a legal free name", ["!$0 in " + CH, "true is_valid_variable_name($0)"], key="free name", opaque=("is_valid_variable_name",))
    # ------------------------------------------------------------------ removing
    R = "child-remove"
    OP = ("unassign", "remove_stmt_from_parent", "get_port", "get_port_names", "sources", "sinks")
    mine = ("$0.instance_name in " + CH, "$0.instance_name in " + CN)

    def gone(o):
        known = [assumed(o, "in", "$0.instance_name", t) for t in (CH, CN)]
        if o.kind == "throw":
            return "changes the hierarchy before it rejects" if touched(o) else None
        miss = [t for t in (CH, CC, CD) if "$0.instance_name" not in erased(o, t)]
        acted = touched(o)
        if any(assumed(o, "in", "$0.instance_name", t, False) for t in (CH, CN)) or not is_child(o):
            if acted:
                return "changes the hierarchy although the module is not its child"
            return None
        if miss:
            return "%s still lists the removed child" % ", ".join(m.replace("this.", "") for m in miss)
        if erased(o, CN) not in (["find(%s, $0.instance_name)" % CN], ["$0.instance_name"]):
            return "the order list still names the removed child"
        pa = final(o, "$0.parent_generator_")
        if pa is None or text(pa) != "null":
            return "the removed child keeps its parent"
        d = [(a, p) for a, p in o.st.trail if a[0] in ("==", "!=") and "PortDirection::" in a[1] + a[2]]
        nots, dirn = set(), None
        for a, p in d:
            w = (a[1] if "PortDirection::" in a[1] else a[2]).rsplit("::", 1)[1]
            if p == (a[0] == "=="):
                dirn = w
            else:
                nots.add(w)
        if dirn is None and len(nots) < 2 and d:
            return "leaves connections of some port direction undecided"
        dirn = dirn or "InOut"
        port = [e for e in o.st.eff if e[0] == "call" and e[1].endswith("unassign")]
        got = {"sources" if ".sources()" in text(e[2][0]) else "sinks" if ".sinks()" in text(e[2][0]) else "?" for e in port}
        want = {"In": {"sources"}, "Out": {"sinks"}, "InOut": {"sources", "sinks"}}[dirn]
        if got != want:
            return "an %s port loses the connections of its %s instead of %s" % (dirn, sorted(got) or "none", sorted(want))
        for e in port:
            t, s = e[1], text(e[2][0])
            side = ".right_.unassign" if ".sources()" in s else ".unassign"
            if ".sources()" in s and not t.endswith(".right_.unassign"):
                return "disconnects %s on the wrong side" % s
            if [s] not in calls(o, "remove_stmt_from_parent"):
                return "the connecting statement stays in the module"

    def is_child(o):
        return any(a[0] == "==" and p and "$0" in (a[1], a[2]) and "this.children_" in a[1] + a[2] for a, p in o.st.trail)
    row(F, r, R, G + "remove_child_generator", gone, key="remove", loops=(1,), opaque=OP)
    row(F, r, R, G + "remove_child_generator", lambda o: None if o.kind == "throw" or "$0.instance_name" in erased(o, CH) else "an existing child stays", list(mine) + ["$0 == find(this.children_, $0.instance_name)#1"], key="existing child", loops=(0,), opaque=OP)
    sf = F.find("kratos::remove_stmt_from_parent")
    if sf:
        def rsp(o):
            if o.kind == "throw":
                return None
            return None if assumed(o, "truth", "$0.parent_", "", False) or assumed(o, "null", "$0.parent_") or any(e[0] == "call" and e[1].endswith(".remove_stmt") and text(e[2][0]) == "$0" for e in o.st.eff) else "the statement stays in its parent"
        row(F, r, R, "kratos::remove_stmt_from_parent", rsp, key="statement", opaque=("remove_stmt",))
    # ------------------------------------------------------------------ renaming
    N = "child-rename"

    def ren(o):
        old, new = "$0.instance_name", "$1"
        if o.kind == "throw":
            return None if not touched(o) or assumed(o, "in", old, CN, False) else "changes the hierarchy before it rejects"
        if not assumed(o, "in", new, CH, False):
            return "completes without establishing that the new instance name is free"
        if not rekeyed(o, CH, old, new):
            return "the children table does not list the child under its new name only"
        for t, w in ((CC, "comment"), (CD, "source location")):
            if assumed(o, "in", old, t, False):
                continue
            if not rekeyed(o, t, old, new):
                return "the %s of the child is not carried over" % w
        if not any(e[0] == "store" and CN in e[1] and e[1] not in (CN,) and text(e[2]) == new for e in o.st.eff):
            return "the child's position does not carry its new name"
        if erased(o, CN) or puts(o, CN) and not any(k.startswith("find(") or "begin" in k for k, v in puts(o, CN)):
            return "the child loses its position"
        nm = final(o, "$0.instance_name")
        if nm is None or text(nm) != new:
            return "the child keeps its old instance name"
    row(F, r, N, G + "rename_child_generator", ren, key="rename", opaque=("is_valid_variable_name",))
    row(F, r, N, G + "rename_child_generator", {"throw"}, ["$1 in " + CH], key="taken name", opaque=("is_valid_variable_name",))
    row(F, r, N, G + "rename_child_generator", {"throw"}, ["!$0.instance_name in " + CH], key="not a child", opaque=("is_valid_variable_name",))
    # the tables after a renaming among three children
    for who in ("a", "b", "c"):
        for extra in ((), ("a",), ("b", "c"), ("a", "b", "c")):
            for to, ok in (("x", True), ("b" if who != "b" else "c", False)):
                def ren3(o, who=who, extra=extra, to=to, ok=ok):
                    if not ok:
                        return None if o.kind == "throw" else "accepts a taken name"
                    if o.kind == "throw":
                        return "rejects it"
                    nm = lambda x: to if x == who else x
                    txt = lambda x: text(x).strip("\"'").lstrip("&*")
                    get = lambda tab: final(o, "this." + tab) or wd["this." + tab]
                    got = [txt(x) for x in get("children_names_")[1]]
                    if got != [nm(x) for x in "abc"]:
                        return "orders the children %s" % got
                    for tab, ks, v in (("children_", "abc", "g"), ("children_comments_", extra, "t"), ("children_debug_", extra, "d")):
                        got = sorted((txt(x[1][0]), txt(x[1][1])) for x in get(tab)[1])
                        if got != sorted((nm(x), v + x) for x in ks):
                            return "leaves %s in the table %s" % (got, tab)
                    got = final(o, "g%s.instance_name" % who)
                    if got is None or txt(got) != to:
                        return "the child keeps its old instance name"
                wd = world(F, {"this": {"children": {'"' + x: "g" + x for x in "abc"}, "children_names": ['"' + x for x in "abc"], "children_comments": {'"' + x: '"t' + x for x in extra}, "children_debug": {'"' + x: "d" + x for x in extra}, "instance_name": '"top'},
                               "ga": {"instance_name": '"a', "name": '"m'}, "gb": {"instance_name": '"b', "name": '"b'}, "gc": {"instance_name": '"c', "name": '"m'}})
                row(F, r, N, G + "rename_child_generator", ren3, args={0: ("e", "g" + who), 1: ("s", to)}, given=wd, key="%s to %s, comments %s" % (who, to, "".join(extra)), stubs={"is_valid_variable_name": lambda vs: ("b", True)}, loops=(0, 1, 2, 3, 4), clue="every table in step")
    # ------------------------------------------------------------------ replacing
    P = "child-replace"
    ROP = OP + ("move_src_to", "move_sink_to", "remove_child_generator", "add_child_generator", "size", "width", "is_signed", "port_type", "port_direction")

    def repl(o):
        acts = [e for e in o.st.eff if e[0] == "call" and e[1].endswith(("move_src_to", "move_sink_to", "remove_child_generator", "add_child_generator"))]
        if o.kind == "throw":
            return "changes the hierarchy before it rejects" if acts else None
        old = "this.children_[$0]"
        if not assumed(o, "in", "$0", CH):
            return "completes without establishing that the child exists"
        if not any(a[0] == "==" and p and "get_port_names()" in a[1] and "get_port_names()" in a[2] for a, p in o.st.trail):
            return "completes without comparing the sets of ports"
        for w in ("size()", "width()", "is_signed()", "port_type()", "port_direction()"):
            if not any(a[0] == "==" and p and a[1].endswith(")." + w) and a[2].endswith(")." + w) and {a[1].split(".get_port(")[0], a[2].split(".get_port(")[0]} == {old, "$1"} for a, p in o.st.trail):
                return "completes without comparing the %s of the ports" % w[:-2].replace("is_", "").replace("_", " ")
        dirn, nots = None, set()
        for a, p in o.st.trail:
            if a[0] == "==" and "PortDirection::" in a[1] + a[2] and "port_direction()" in a[1] + a[2]:
                w = (a[1] if a[1].startswith("PortDirection::") else a[2]).rsplit("::", 1)[1]
                if p:
                    dirn = w
                else:
                    nots.add(w)
        dirn = dirn or ("InOut" if len(nots) > 1 else None)
        want = {"In": {"move_src_to"}, "Out": {"move_sink_to"}, "InOut": {"move_src_to", "move_sink_to"}}.get(dirn)
        if want is None:
            return "moves connections without regard to the direction"
        mv = [e for e in acts if "move_s" in e[1]]
        if {e[1].rsplit("::", 1)[-1] for e in mv} != want:
            return "an %s port moves %s" % (dirn, sorted(e[1] for e in mv) or "nothing")
        for e in mv:
            a, b = text(e[2][0]), text(e[2][1])
            if not a.startswith(old + ".get_port(") or not b.startswith("$1.get_port(") or a[len(old):] != b[2:]:
                return "moves connections from %s to %s" % (a, b)
            if text(e[2][2]) != "this":
                return "moves connections in the scope of %s" % text(e[2][2])
        k = [e for e in acts if "child_generator" in e[1]]
        if [(e[1].rsplit(".", 1)[-1], [text(x) for x in e[2]]) for e in k] != [("remove_child_generator", [old]), ("add_child_generator", ["$0", "$1"])]:
            return "the instance is not exchanged: %s" % [(e[1], [text(x) for x in e[2]]) for e in k]
        if acts.index(k[0]) < max(acts.index(e) for e in mv):
            return "removes the old child before its connections have moved"
    two = lambda f: len(f.params) == 2
    row(F, r, P, G + "replace", repl, key="replace", loops=(1,), opaque=ROP)
    row(F, r, P, G + "replace", {"throw"}, ["!$0 in " + CH], key="no such child", loops=(1,), opaque=ROP)
    for n, k, w in (("size", "array shape", "size()"), ("width", "width", "width()"), ("sign", "sign", "is_signed()"), ("type", "type", "port_type()"), ("direction", "direction", "port_direction()")):
        def dif(o, w=w):
            neq = any(a[0] == "==" and not p and a[1].endswith(")." + w) and a[2].endswith(")." + w) for a, p in o.st.trail)
            return "accepts ports that differ" if neq and o.kind != "throw" else None
        row(F, r, P, G + "replace", dif, key="differing " + k, loops=(1,), opaque=ROP)
    def shaped(a, b, typ="PortType::Data", typ2="PortType::Data"):
        d = {"this": {"children": {'"c': "o"}, "instance_name": '"top', "name": '"top'}, "o": {"name": '"o', "get_port_names()": ['"p'], 'get_port("p")': "op", "instance_name": '"c'}, "n": {"name": '"n', "get_port_names()": ['"p'], 'get_port("p")': "np"}}
        for v, (w, sz), t in (("op", a, typ), ("np", b, typ2)):
            tot = w
            for x in sz:
                tot *= x
            d[v] = {"var_width": w, "size": list(sz), "width": tot, "is_signed": False, "port_type_": t, "port_type()": t, "port_direction()": "PortDirection::In", "name": '"p'}
        return world(F, d)
    for a, b, ok in (((8, (2, 3)), (8, (3, 2)), False), ((8, (2, 3)), (8, (6, 1)), False), ((8, (6,)), (8, (6,)), True), ((8, (2, 3)), (8, (2, 3)), True), ((8, (2,)), (16, (1,)), False), ((8, (1,)), (9, (1,)), False), ((8, (6,)), (8, (2, 3)), False), ((4, (2,)), (8, (2,)), False)):
        row(F, r, P, G + "replace", (lambda o: None if o.kind != "throw" else "rejects an equal port") if ok else {"throw"}, sel=two, args={0: ("s", "c"), 1: ("t", "n")}, given=shaped(a, b),
            key="port of %d bits %s by one of %d bits %s" % (a[0], list(a[1]), b[0], list(b[1])), opaque=("unassign", "remove_stmt_from_parent", "sources", "sinks", "get_port", "get_port_names", "width", "port_type", "port_direction", "is_signed", "move_src_to", "move_sink_to", "remove_child_generator", "add_child_generator"))
    for old, new in ((("p",), ("p", "q")), (("p", "q"), ("p",)), (("p", "q"), ("p", "r")), ((), ("p",)), (("p",), ()), (("p", "q"), ("r", "s"))):
        d = {"this": {"children": {'"c': "o"}, "instance_name": '"top', "name": '"top'}, "o": {"name": '"o', "get_port_names()": ['"' + x for x in old], "instance_name": '"c'}, "n": {"name": '"n', "get_port_names()": ['"' + x for x in new]}}
        for g, ps in (("o", old), ("n", new)):
            for x in ps:
                d[g]['get_port("%s")' % x] = g + x
                d[g + x] = {"var_width": 4, "size": [1], "width": 4, "is_signed": False, "port_type_": "PortType::Data", "port_type()": "PortType::Data", "port_direction()": "PortDirection::In", "name": '"' + x}
        row(F, r, P, G + "replace", {"throw"}, sel=two, args={0: ("s", "c"), 1: ("t", "n")}, given=world(F, d), key="ports %s by %s" % (" ".join(old), " ".join(new)), loops=(0, 1, 2, 3),
            opaque=("unassign", "remove_stmt_from_parent", "sources", "sinks", "get_port", "get_port_names", "width", "port_type", "port_direction", "is_signed", "size", "move_src_to", "move_sink_to", "remove_child_generator", "add_child_generator"))
    row(F, r, P, G + "replace", lambda o: None if o.kind == "throw" or [(k, text(v)) for k, v in puts(o, CD)] == [("$0", "$2")] else "the source location is not recorded", sel=lambda f: len(f.params) == 3, key="location", loops=(1,), opaque=ROP)
    # ------------------------------------------------------------------ queries
    Q = "child-query"
    row(F, r, Q, G + "get_child_generator", {CH + "[$0]"}, ["$0 in " + CH], key="present")
    row(F, r, Q, G + "get_child_generator", {"null"}, ["!$0 in " + CH], key="absent")
    s = lambda f: "string" in f.params[0]["t"]
    row(F, r, Q, G + "has_child_generator", {"true"}, ["$0 in " + CH], sel=s, key="present")
    row(F, r, Q, G + "has_child_generator", {"false"}, ["!$0 in " + CH], sel=s, key="absent")
    h = lambda f: "shared_ptr" in f.params[0]["t"]

    def hasc(o):
        t = text(o.val) if o.val is not None else "throw"
        if assumed(o, "in", "$0.instance_name", CH, False):
            return None if t == "false" else "claims a child of an unknown name"
        same = [p for a, p in o.st.trail if a[0] == "==" and "$0" in (a[1], a[2]) and CH in a[1] + a[2]]
        if same:
            return None if t == ("true" if same[0] else "false") else "answers %s" % t
        return None if "==" in t and "$0" in t and CH in t else "answers %s without comparing the instances" % t
    row(F, r, Q, G + "has_child_generator", hasc, sel=h, key="identity")
    row(F, r, Q, G + "get_child_generators", {"[%s[each(%s)]]" % (CH, CN)}, ["!true this.is_external_", "empty this.lib_files_"], loops=(1,), key="declaration order")
    row(F, r, Q, G + "get_child_generators", {"[]"}, ["true this.is_external_"], loops=(1,), key="external")
    row(F, r, Q, G + "get_child_generator_size", {"this.children_.size()", "this.children_names_.size()"}, ["!true this.is_external_"], key="count")
    row(F, r, Q, G + "get_child_comment", {CC + "[$0]"}, ["$0 in " + CC], key="present")
    row(F, r, Q, G + "get_child_comment", lambda o: None if o.kind == "ret" and text(o.val) in ("''", '""', "", "[]") else "yields %s" % outcome(o), ["!$0 in " + CC], key="absent")
    row(F, r, Q, G + "set_child_comment", lambda o: None if [(k, text(v)) for k, v in puts(o, CC)] == [("$0", "$1")] else "records %s" % puts(o, CC), key="comment")
    row(F, r, Q, G + "set_child_comment", lambda o: None if text(final(o, CC)).replace('"', "").replace("'", "") in ("[[c, new]]", "[(c, new)]", "{c: new}", "[<c, new>]") or
        any(e[0] == "store" and e[1] in (CC + "[$0]", CC + '["c"]') and text(e[2]).strip("\"'") == "new" for e in o.st.eff) else "leaves %s" % text(final(o, CC)), args={0: ("s", "c"), 1: ("s", "new")}, given=world(F, {"this": {"children_comments": {'"c': '"old'}}}), key="new comment")
    row(F, r, Q, G + "parent", {"this.parent_generator_"}, key="parent")
    row(F, r, Q, G + "parent_generator", {"this.parent_generator_"}, key="parent")
    # ------------------------------------------------------------------ context
    C = "context"
    for n, cls in (("generator", "Generator"), ("testbench", "TestBench")):
        row(F, r, C, X + n, lambda o, cls=cls: None if [(k, text(v)) for k, v in puts(o, M + "[$0]")] in ([("new %s(this, $0)" % cls, None)], [("new %s(this, $0)" % cls, "")]) or [k for k, v in puts(o, M + "[$0]")] == ["new %s(this, $0)" % cls] and
            text(o.val).lstrip("*") == "new %s(this, $0)" % cls else "registers %s and yields %s" % (puts(o, M + "[$0]"), outcome(o)), key="new module")
        row(F, r, C, X + n, lambda o, cls=cls: None if o.val is not None and text(o.val).lstrip("*") == "new %s(this, $0)" % cls else "yields %s" % outcome(o), key="result")
    row(F, r, C, X + "add", lambda o: None if [k for k, v in puts(o, M + "[$0.name]")] == ["$0"] else "does not list the module under its name", key="add")

    def crem(o):
        if assumed(o, "in", "$0.name", M, False) or assumed(o, "in", "$0", M + "[$0.name]", False):
            return "changes the registry" if erased(o, M + "[$0.name]") or erased(o, M) and not assumed(o, "empty", M + "[$0.name]") else None
        if not {"$0", "find(%s[$0.name], $0)" % M} & set(erased(o, M + "[$0.name]")):
            return "the module stays listed"
        if assumed(o, "empty", M + "[$0.name]") and "$0.name" not in erased(o, M):
            return "a name without modules stays known"
        if assumed(o, "empty", M + "[$0.name]", pol=False) and erased(o, M):
            return "drops other modules of the same name"
    row(F, r, C, X + "remove", crem, key="remove")

    def cren(o):
        if o.kind == "throw":
            return "changes the registry before it rejects" if touched(o) else None
        nm = final(o, "$0.name")
        if nm is None or text(nm) != "$1":
            return "the module keeps its old name"
        if assumed(o, "empty", "$1") or assumed(o, "empty", "$0.name"):
            return None
        if not assumed(o, "==", "$0.context_", "this") and not assumed(o, "==", "this", "$0.context_"):
            return "renames a module of another context"
        L = M + "[$0.name]"
        if not {"$0", "find(%s, $0)" % L} & set(erased(o, L)):
            return "the module stays listed under its old name"
        if "$0" not in [k for k, v in puts(o, M + "[$1]")]:
            return "the module is not listed under its new name"
        if assumed(o, "empty", L) and "$0.name" not in erased(o, M):
            return "a name without modules stays known"
        if assumed(o, "empty", L, pol=False) and "$0.name" in erased(o, M):
            return "drops other modules of the same name"
        c = "each($0.clones_)"
        v = final(o, c + ".name")
        if v is None or text(v) != "$1":
            return "clones keep the old name"
        if assumed(o, "in", c, "%s[%s.name]" % (M, c)):
            if c not in [k for k, v in puts(o, M + "[$1]")]:
                return "a registered clone is not listed under the new name"
            if c not in erased(o, "%s[%s.name]" % (M, c)) and "find(%s[%s.name], %s)" % (M, c, c) not in erased(o, "%s[%s.name]" % (M, c)):
                return "a registered clone stays listed under the old name"
    registry(F, r, C)
    row(F, r, C, X + "change_generator_name", cren, key="rename", loops=(1,), opaque=("is_valid_variable_name",))
    row(F, r, C, X + "generator_name_exists", {"true"}, ["$0 in " + M], key="present")
    row(F, r, C, X + "generator_name_exists", {"false"}, ["!$0 in " + M], key="absent")
    row(F, r, C, X + "get_generators_by_name", {M + "[$0]"}, ["$0 in " + M], key="present")
    row(F, r, C, X + "get_generators_by_name", {"[]", "{}"}, ["!$0 in " + M], key="absent")
    row(F, r, C, X + "get_generator_names", {"[each(%s)#0]" % M, "{each(%s)#0}" % M}, loops=(1,), key="names")
    el = "each(%s[$0.name])" % M
    known = ["!null $0", "$0.name in " + M]
    U = X + "is_unique"
    row(F, r, C, U, {"true"}, known + ["!true %s.is_external_" % el, "empty %s.lib_files_" % el, "!true %s.is_cloned_" % el], loops=(1,), key="one definition")
    row(F, r, C, U, {"false"}, known + ["!true %s.%s" % (m, x) for m in ("m0", "m1") for x in ("is_external_", "is_cloned_")] + ["empty %s.lib_files_" % m for m in ("m0", "m1")],
        given={M + "[$0.name]": ("list", (("t", "m0"), ("t", "m1")))}, key="two definitions")
    row(F, r, C, U, {"false"}, known, loops=(0,), key="none")
    row(F, r, C, U, {"false"}, known + ["true %s.is_external_" % el], loops=(1,), key="external")
    row(F, r, C, U, {"false"}, known + ["!true %s.is_external_" % el, "true %s.is_cloned_" % el], loops=(1,), key="clone")
    row(F, r, C, U, {"false"}, ["null $0"], key="null")
    row(F, r, C, U, {"false"}, ["!null $0", "!$0.name in " + M], key="unknown name")
    H = "this.generator_hash_"
    for h in (0, 5, 1 << 32, (1 << 63) + 7):
        row(F, r, C, X + "add_hash", lambda o, h=h: None if o.kind != "throw" and text(final(o, H) or ("t", str(puts(o, H)))) == "[<g, %d>]" % h else "records %s" % final(o, H), given=world(F, {"this": {"generator_hash": {}}, "g": {"name": '"m'}}), args={0: ("e", "g"), 1: ("i", h)}, key="hash %d" % h)
    row(F, r, C, X + "add_hash", {"throw"}, ["$0 in " + H], key="hashed before")
    row(F, r, C, X + "add_hash", lambda o: None if o.kind != "throw" and [(k, text(v)) for k, v in puts(o, H)] == [("$0", "$1")] else "records %s" % puts(o, H), ["!$0 in " + H], key="new hash")
    row(F, r, C, X + "get_hash", {H + "[$0]"}, ["$0 in " + H], key="present")
    row(F, r, C, X + "get_hash", {"throw"}, ["!$0 in " + H], key="absent")
    row(F, r, C, X + "has_hash", {"true"}, ["$0 in " + H], key="present")
    row(F, r, C, X + "has_hash", {"false"}, ["!$0 in " + H], key="absent")
    T = "this.tracked_generators_"
    row(F, r, C, X + "is_generated_tracked", {"true"}, ["$0 in " + T], key="present")
    row(F, r, C, X + "is_generated_tracked", {"false"}, ["!$0 in " + T], key="absent")
    row(F, r, C, X + "add_tracked_generator", lambda o: None if [k for k, v in puts(o, T)] == ["$0"] else "does not record the module", key="track")
    def cleared(o):
        bad = [t for t in (M, H, "this.enum_defs_", T) if not any(e[0] == "call" and e[1] == t + ".clear" for e in o.st.eff)]
        if bad:
            return "%s survives" % bad[0].replace("this.", "")
        for k in ("this.max_stmt_id_", "this.max_instance_id_"):
            v = final(o, k)
            if v is None or text(v) != "0":
                return "%s is not reset" % k
        v = final(o, "this.track_generated_")
        return None if v is not None and text(v) == "false" else "tracking survives"
    row(F, r, C, X + "clear", cleared, key="clear")
    # clones
    row(F, r, C, G + "set_clone_ref", lambda o: None if [text(final(o, "this." + x)) if final(o, "this." + x) else "" for x in ("is_cloned_", "def_instance_", "is_external_")] == ["true", "$0", "true"] and
        [k for k, v in puts(o, "$0.clones_")] == ["this"] else "the clone is not linked to its definition", key="clone")
    new = "new Generator(this.context_, this.name)"
    row(F, r, C, G + "clone", lambda o: None if o.kind == "throw" else None if [text(final(o, "%s.%s" % (new, x))) if final(o, "%s.%s" % (new, x)) else "" for x in ("is_cloned_", "def_instance_", "is_external_")] == ["true", "this", "true"] and
        [k for k, v in puts(o, "this.clones_")] == [new] and text(o.val) == new else "the clone is not linked to its definition", key="clone", loops=(0,), opaque=("get_port_names",))
    # ------------------------------------------------------------------ contents
    D = "contents"
    row(F, r, D, G + "add_stmt", lambda o: None if calls(o, "set_parent") == [["this"]] and [k for k, v in puts(o, "this.stmts_")] == ["$0"] and any(e[0] == "call" and e[1] == "$0.set_parent" for e in o.st.eff) else "the statement is not appended with its parent set", key="add", opaque=("set_parent",))
    for n, cls in (("sequential", "SequentialStmtBlock"), ("combinational", "CombinationalStmtBlock"), ("initial", "InitialStmtBlock"), ("final", "FinalStmtBlock"), ("latch", "LatchStmtBlock")):
        nb = "new %s()" % cls
        row(F, r, D, G + n, lambda o, nb=nb: None if text(o.val) == nb and [k for k, v in puts(o, "this.stmts_")] == [nb] and any(e[0] == "call" and e[1] == nb + ".set_parent" and text(e[2][0]) == "this" for e in o.st.eff) else
            "yields %s and appends %s" % (outcome(o), puts(o, "this.stmts_")), key="new block", opaque=("set_parent",))
    S, SC = "this.stmts_", "this.stmts_remove_cache_"

    def rst(o):
        if assumed(o, "truth", "this.use_stmts_remove_cache_"):
            return None if [k for k, v in puts(o, SC)] == ["$0"] and not erased(o, S) else "the removal is not deferred"
        if assumed(o, "in", "$0", S):
            return None if {"find(%s, $0)" % S, "$0"} & set(erased(o, S)) else "the statement stays"
        return None if not [x for x in erased(o, S) if "$0" not in x] else "removes another statement"
    row(F, r, D, G + "remove_stmt", rst, key="remove")
    row(F, r, D, G + "clear_remove_stmt_cache", lambda o: None if erased(o, S) and any(e[0] == "call" and e[1] == SC + ".clear" for e in o.st.eff) and [e for e in o.st.eff if e[0] == "call"][-1][1] == SC + ".clear" else "the deferred removals are not carried out", key="deferred removal")
    row(F, r, D, G + "set_use_stmt_remove_cache", lambda o: None if text(final(o, "this.use_stmts_remove_cache_")) == "$0" else "does not switch", key="switch")

    def moved(o):
        V = "this.vars_"
        el, k = "each(this.vars_)#1", "each(this.vars_)#0"
        if o.kind == "throw":
            return None
        if not any(e[0] == "call" and e[1] in ("$0.add_stmt", "&$0.add_stmt") and text(e[2][0]) == "each(this.stmts_)" for e in o.st.eff):
            return "statements are not moved"
        if not any(e[0] == "call" and e[1].endswith("set_parent_generator") and text(e[2][0]) in ("&$0", "$0") for e in o.st.eff) or "each(this.exprs_)" not in [x for x, v in puts(o, "$0.exprs_")]:
            return "expressions are not moved"
        nm = final(o, el + ".name")
        nm = text(nm) if nm is not None else None
        free = "$0.get_unique_variable_name($1, %s)" % k
        if nm not in (k, free) and not (nm is None and assumed(o, "truth", "$0.has_var(%s)" % k, "", False)):
            return "a variable is named %s" % nm
        if nm == k and not assumed(o, "truth", "$0.has_var(%s)" % k, "", False):
            return "a variable takes a name that may be taken"
        nm = nm or k
        if not any(e[0] == "call" and e[1] == el + ".set_generator" for e in o.st.eff):
            return "a variable keeps its former module"
        port = [p for a, p in o.st.trail if a[0] == "==" and "VarType::PortIO" in (a[1], a[2])]
        if not port:
            return "ports and variables are not told apart"
        if port[0]:
            nv = "$0.var(%s, %s)" % (el, nm)
            need = [("move_linked_to", [nv]), ("move_sink_to", [el, nv, "&$0", "false"]), ("move_src_to", [el, nv, "&$0", "false"])]
            for n, a in need:
                if a not in [[x.lstrip("*") for x in c] for c in calls(o, n)]:
                    return "the connections of a port are not moved (%s)" % n
        else:
            if [(a, text(v)) for a, v in puts(o, "$0.vars_")] != [(nm, el)]:
                return "a variable is registered as %s" % puts(o, "$0.vars_")
    row(F, r, D, G + "transfer_content", moved, key="merge", loops=(1,), opaque=("add_stmt", "set_parent_generator", "set_generator", "has_var", "get_unique_variable_name", "move_linked_to", "move_sink_to", "move_src_to", "set_width_param", "set_size_param", "set_var_params", G + "var", "type"))


def registry(F, r, C):
    """the registry of modules on concrete contents"""
    def world_(mods, names, ctx="this", clones=()):
        d = {"this": {"modules": {'"' + k: list(v) for k, v in mods.items()}}}
        for g, n in names.items():
            d[g] = {"name": '"' + n, "context": ctx, "clones": list(clones) if g == "g" else [], "get_clones()": list(clones) if g == "g" else [], "shared_from_this()": g}
        w = world(F, d)
        if ctx == "this":
            for g in names:
                w[g + ".context_"] = w[g + ".context()"] = ("t", "this")
        for n in ("a", "b", "c"):
            w['is_valid_variable_name("%s")' % n] = ("b", True)
        return w

    def holds(mods, names):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            v = final(o, "this.modules_")
            if v is None:
                got = None
            else:
                got = {x[1][0][1]: sorted(text(y) for y in x[1][1][1]) for x in v[1]} if v[0] == "list" else text(v)
            if (got if got is not None else start) != {k: sorted(v) for k, v in mods.items()}:
                return "lists %s" % got
            for g, n in names.items():
                v = final(o, g + ".name")
                if v is not None and v != ("s", n) or v is None and first[g] != n:
                    return "names %s %s" % (g, text(v) if v is not None else first[g])
        return check
    q = X + "change_generator_name"
    op = ("is_valid_variable_name",)
    first = start = None
    for mods, names, clones, new, want, wn in (
            ({"a": ["g", "h"], "b": ["k"]}, {"g": "a", "h": "a", "k": "b"}, (), "b", {"a": ["h"], "b": ["k", "g"]}, {"g": "b", "h": "a", "k": "b"}),
            ({"a": ["h", "g"], "b": ["k"]}, {"g": "a", "h": "a", "k": "b"}, (), "c", {"a": ["h"], "b": ["k"], "c": ["g"]}, {"g": "c", "h": "a"}),
            ({"a": ["g"], "b": ["k"]}, {"g": "a", "k": "b"}, (), "b", {"b": ["k", "g"]}, {"g": "b", "k": "b"}),
            ({"a": ["g"]}, {"g": "a"}, (), "c", {"c": ["g"]}, {"g": "c"}),
            ({"a": ["g"]}, {"g": "a"}, (), "a", {"a": ["g"]}, {"g": "a"}),
            ({"a": ["g", "h", "i"]}, {"g": "a", "h": "a", "i": "a"}, (), "c", {"a": ["h", "i"], "c": ["g"]}, {"g": "c", "i": "a"}),
            ({"a": ["g", "h"], "b": ["k"]}, {"g": "a", "h": "a", "k": "b"}, ("h",), "c", {"b": ["k"], "c": ["g", "h"]}, {"g": "c", "h": "c", "k": "b"}),
            ({"a": ["g"], "b": ["k", "h"]}, {"g": "a", "h": "b", "k": "b"}, ("h",), "c", {"b": ["k"], "c": ["g", "h"]}, {"g": "c", "h": "c", "k": "b"}),
            ({"a": ["g"], "b": ["k"]}, {"g": "a", "h": "a", "k": "b"}, ("h",), "c", {"b": ["k"], "c": ["g"]}, {"g": "c", "h": "c", "k": "b"})):
        first, start = names, {k: sorted(v) for k, v in mods.items()}
        row(F, r, C, q, holds(want, wn), args={0: ("e", "g"), 1: ("s", new)}, given=world_(mods, names, clones=clones), key="%s renamed in %s%s to %s" % (names["g"], mods, " with a clone" if clones else "", new), opaque=op, clue="%s" % want, depth=6)
    for mods, ctx, key in (({"b": ["k"]}, "this", "unknown name"), ({"a": ["h"], "b": ["k"]}, "this", "module that is not listed"), ({"a": ["g"]}, "other", "module of another context")):
        row(F, r, C, q, {"throw"}, args={0: ("e", "g"), 1: ("s", "c")}, when=["!other == this"] if ctx == "other" else [], given=world_(mods, {"g": "a"}, ctx), key=key, opaque=op, depth=6)
    for mods, want in (({"a": ["g", "h"], "b": ["k"]}, {"a": ["h"], "b": ["k"]}), ({"a": ["g"], "b": ["k"]}, {"b": ["k"]}), ({"a": ["h"], "b": ["k"]}, {"a": ["h"], "b": ["k"]}), ({"b": ["k"]}, {"b": ["k"]})):
        first, start = {"g": "a"}, {k: sorted(v) for k, v in mods.items()}
        row(F, r, C, X + "remove", holds(want, {"g": "a"}), args={0: ("e", "g")}, given=world_(mods, {"g": "a"}), key="removed from %s" % mods, clue="%s" % want, depth=6)
    for mods, want in (({}, {"a": ["g"]}), ({"a": ["h"]}, {"a": ["h", "g"]}), ({"b": ["k"]}, {"a": ["g"], "b": ["k"]}), ({"a": ["g"]}, {"a": ["g"]})):
        first, start = {"g": "a"}, {k: sorted(v) for k, v in mods.items()}
        row(F, r, C, X + "add", holds(want, {"g": "a"}), args={0: ("e", "g")}, given=world_(mods, {"g": "a"}), key="added to %s" % mods, clue="%s" % want, depth=6)


def paths(F, r):
    """the hierarchical name, for every depth, with and without the top"""
    from ..valid import select, nparams
    f = select(F, "kratos::Generator::handle_name", nparams("bool"))[0]
    for n in range(1, 5):
        names = ["top", "a", "b", "top"][:n]
        for skip in (False, True):
            w = {}
            for i in range(n):
                o = "this" if i == 0 else "g%d" % i
                w[o] = {"instance_name": '"' + names[n - 1 - i], "parent_generator": "g%d" % (i + 1) if i + 1 < n else None, "parent_generator()": "g%d" % (i + 1) if i + 1 < n else None,
                        "instantiation_stmt": None, "name": '"m%d' % i, "is_cloned": False}
            want = ".".join(names[1 if skip else 0:])
            row(F, r, "path", f, lambda o, want=want: None if o.val is not None and o.val == ("s", want) else "answers %s" % outcome(o), given=world(F, w), args={0: ("b", skip)},
                key="depth %d%s" % (n, " without the top" if skip else ""), opaque=(), recur=6, depth=8, clue='"%s"' % want)
    # instances of a generate loop carry the label of the loop and their index
    for n in range(3):
        for tail in (False, True):
            insts, labels = ["i0", "i1", "i2"], "blk"
            w = {"this": {"instance_name": '"inst', "parent_generator": "p", "parent_generator()": "p", "instantiation_stmt": "i%d" % n, "name": '"m', "is_cloned": False},
                 "p": {"instance_name": '"top', "parent_generator": None, "parent_generator()": None, "instantiation_stmt": None, "name": '"t', "named_blocks": {'"other': "bx", '"blk': "b"}},
                 "loop": {"loop_body": "b", "get_loop_body()": "b", "gen_var_stmts": insts, "ir_node_kind()": "#StmtKind", "ast_node_type": "#StmtKind"}, "b": {}, "bx": {}}
            for i in insts:
                w[i] = {"parent()": "loop", "parent_": "loop", "shared_from_this()": i}
            if tail:
                w["k"] = {"instance_name": '"leaf', "parent_generator": "this", "parent_generator()": "this", "instantiation_stmt": None, "name": '"l', "is_cloned": False}
                w["k"], w["this"] = w["this"], w["k"]
                w["this"]["parent_generator"] = w["this"]["parent_generator()"] = "k"
            ok = [x + (".leaf" if tail else "") for x in ("top.blk.inst[%d]" % n, "top.blk[%d].inst" % n)]
            row(F, r, "path", f, lambda o, ok=ok: None if o.val is not None and o.val[0] == "s" and o.val[1] in ok else "answers %s" % outcome(o), given=world(F, w), args={0: ("b", False)},
                key="instance %d of a generate loop%s" % (n, " and its child" if tail else ""), opaque=(), recur=6, depth=8, clue='"%s"' % ok[0])
