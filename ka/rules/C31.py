"""A width, dimension or type given by a parameter follows that parameter."""
import itertools
from ..core import *
from ..cprop import *
from ..tables import *
from ..valid import select, nparams
from .C11 import after, plain, reject, does

K = "kratos::"
T = "#VarType::"
REG = ("add_param_width_var", "remove_param_width_var", "add_param_size_var", "remove_param_size_var", "static_evaluate_expr", "visit_root", "visit_root_s", "visit_root_tp")


def run(F, r, tier):
    r.rule("linked", "a variable is as wide as its parameter expression, is registered with every parameter of it and with none of a previous one, and so are its slices", 12)
    linked(F, r)
    r.rule("follows", "setting a parameter updates every variable, dimension and parameter that depends on it, and rejects values no width can have", 12)
    follows(F, r)
    r.rule("kinds", "a parameter has the kind, width and initial value it was created with and prints as its value, its parent or its text", 10)
    kinds(F, r)
    r.rule("copies", "copying a variable or module keeps its parametrisation, translated to the parameters of the new owner", 12)
    copies(F, r)
    r.rule("moves", "content moved to another module follows the parameters there or none", 8)
    moves(F, r)


def go(F, r, rule, q, objs, want, key, args=(), sel=None, extra=None, **kw):
    from .C11 import world_val1
    objs = dict(objs)
    objs.setdefault("this", {})
    kw = dict(dict(opaque=REG, recur=3, depth=8, loops=(0, 1)), **kw)
    for f in (select(F, K + q, sel) if isinstance(q, str) else [q]):
        row(F, r, rule, f, want, given=dict(world(F, objs), **(extra or {})), key=key, args={i: world_val1(x) for i, x in enumerate(args) if x != "?"}, clue="as stated", **kw)


def events(o, names=("add_param_width_var", "remove_param_width_var", "add_param_size_var", "remove_param_size_var", "visit_root", "visit_root_s", "visit_root_tp")):
    """registrations in order: (add/remove, the expression whose parameters it went through, arguments)"""
    out, root = [], None
    for e in o.st.eff:
        if e[0] != "call":
            continue
        n = e[1].rpartition(".")[2].rpartition("::")[2]
        if n.startswith("visit_root"):
            root = text(e[2][0]).lstrip("&*")
        elif n in names:
            rec = e[1].rpartition(".")[0]
            out.append((n.split("_")[0], root if rec.startswith("each(") else rec, [text(x) for x in e[2]]))
    return out


def state(ev, who):
    """which expressions' parameters hold a registration at the end"""
    on = {}
    for kind, root, args in ev:
        if args[0] != who:
            continue
        on[(root,) + tuple(args[1:])] = kind
    return on


def linked(F, r):
    R = "linked"
    swp = [f for f in F.need(K + "Var::set_width_param") if "shared_ptr" not in f.params[0]["t"]][0]

    def width(old, new):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            got = after(o, {"this": {"width_param": old}}, "this.width_param")
            if got != new:
                return "leaves the parameter %s" % got
            on = state(events(o), "this")
            if old and old != new and on.get((old,)) != "remove":
                return "stays registered with %s" % old
            if new and on.get((new,)) != "add":
                return "is not registered with %s" % new
            if any(k == "add" and x != (new,) for x, k in on.items()):
                return "is registered with %s" % on
            w = final(o, "this.var_width_")
            if new and (w is None or not re.search(r"static_evaluate_expr\(%s\)$" % new, text(w))):
                return "is %s wide" % (text(w) if w is not None else "not newly")
            if not new and w is not None:
                return "changes its width"
        return check
    for old in (None, "P"):
        for new in (None, "P", "Q"):
            if old is None and new == "Q":
                continue
            go(F, r, R, swp, {"this": {"width_param": old, "slices": []}}, width(old, new), "parameter %s after %s" % (new, old), [new], loops=(1,))
    for q in ("Var::set_width_param", "VarSlice::set_width_param"):
        f = [f for f in F.need(K + q) if "shared_ptr" not in f.params[0]["t"]][0]

        def sl(o):
            got = sorted(set((x, tuple(a)) for x, a in does(o, "set_width_param") if x in ("s0", "s1")))
            return None if o.kind != "throw" and got == [("s0", ("Q",))] else "updates the slices %s" % got
        op = REG + ("kratos::VarSlice::VarSlice",) + (("kratos::Var::set_width_param",) if q.startswith("VarSlice") else ())
        go(F, r, R, f, {"this": {"width_param": None, "slices": ["s0", "s1"]}, "s0": {"width_param": "P", "parametrized": True}, "s1": {"width_param": None, "parametrized": False}}, sl, "slices follow", ["Q"], opaque=op, loops=(1,), recur=1)
    ssp = "Var::set_size_param"

    def size(old, new, t="Base", idx=1):
        def check(o):
            if t not in ("Base", "PortIO") or idx > 1:
                return reject(o)
            if o.kind == "throw":
                return "rejects it"
            m = after(o, {"this": {"size_param": {1: old} if old else {}}}, "this.size_param")
            have = {str(k): v for k, v in (m if isinstance(m, list) else [])}
            for k, v in puts(o, "this.size_param_"):
                have[k] = plain(v)
            if have.get("1") != new or set(have) - {"1"}:
                return "records the dimensions %s" % have
            on = state(events(o), "this")
            if old and old != new and on.get((old, "1", old)) != "remove":
                return "stays registered with %s (%s)" % (old, on)
            if new and on.get((new, "1", new)) != "add":
                return "is not registered with %s (%s)" % (new, on)
            if any(k == "add" and x[0] != new for x, k in on.items()):
                return "is registered with %s" % on
            s = final(o, "this.size_")
            got = [text(x) for x in s[1]] if s is not None and s[0] == "list" else None
            el = final(o, "this.size_[1]")
            if new:
                v = got[1] if got else text(el) if el is not None else None
                if v is None or not re.search(r"static_evaluate_expr\(%s\)$" % new, v) or got and got[0] != "4":
                    return "has the dimensions %s" % (got or v)
            elif got not in (None, ["4", "8"]):
                return "has the dimensions %s" % got
        return check
    for old in (None, "P"):
        for new in (None, "P", "Q"):
            if old is None and new == "Q":
                continue
            go(F, r, R, ssp, {"this": {"type": T + "Base", "size": [4, 8], "size_param": {1: old} if old else {}, "slices": []}}, size(old, new), "dimension 1: parameter %s after %s" % (new, old), [1, new], loops=(1,))
    for t in ("Base", "PortIO", "Slice", "Expression", "ConstValue", "Parameter", "Iter", "BaseCasted"):
        for i in (1, 2):
            go(F, r, R, ssp, {"this": {"type": T + t, "size": [4, 8], "size_param": {}, "slices": []}}, size(None, "P", t, i), "dimension %d of a %s" % (i, t), [i, "P"], loops=(1,))
    # a dimension never shrinks below what is selected from it
    for hi, lo, n in ((0, 0, 1), (3, 3, 4), (3, 3, 3), (3, 0, 4), (3, 2, 3), (3, 0, 1), (2, 1, 3), (2, 1, 2), (5, 0, 5), (5, 0, 6)):
        for who in (0, 1):
            w = world(F, {"this": {"type": T + "Base", "size": [8], "size_param": {}, "slices": ["s0", "s1"]}, "s0": {}, "s1": {}, "P": {}})
            for x in ("s0", "s1"):
                h, l = (hi, lo) if x == "s%d" % who else (0, 0)
                w.update({x + ".sliced_by_var()": ("b", False), x + ".get_slice_index()": ("list", (("tup", (("i", h), ("i", l))),)), x + ".high": ("i", h), x + ".low": ("i", l), x + ".to_string()": ("s", x)})
            row(F, r, R, "kratos::Var::set_size_param", reject if hi >= n else lambda o: None if o.kind != "throw" else "rejects it", args={0: ("i", 0), 1: ("e", "P")}, given=w, stubs={"static_evaluate_expr": lambda vs, n=n: ("i", n)},
                key="dimension of %d with elements %d:%d in use (%d)" % (n, hi, lo, who), opaque=("get_slice_index", "sliced_by_var", "to_string") + REG, loops=(1,), clue="accepted exactly when what is selected still exists")
    for q, at, f0 in (("Param::add_param_size_var", "add", None), ("Param::remove_param_size_var", "remove", None), ("Param::has_param_size_var", "has", None)):
        for have in (False, True):
            tup = ("tup", (("e", "v"), ("i", 1), ("e", "x")))
            other = ("tup", (("e", "v"), ("i", 0), ("e", "x")))
            lst = ("list", (other,) + ((tup,) if have else ()))
            if at == "has":
                want = {"true" if have else "false"}
            else:
                def want(o, at=at, have=have):
                    v = final(o, "this.param_vars_size_")
                    p = [e for e in o.st.eff if e[0] == "call"]
                    ok = (at == "add" and any(e[1].endswith(("emplace", "insert")) and tup in e[2] for e in p)) or (at == "remove" and any(e[1].endswith("erase") and tup in e[2] for e in p))
                    if v is not None and v[0] == "list":
                        ok = ok or set(v[1]) == ({other, tup} if at == "add" else {other})
                    return None if ok or at == "add" and have else "leaves %s (%s)" % (text(v) if v is not None else "it", [e[1:] for e in p])
            if at == "has":
                continue
            for f in F.need(K + q):
                row(F, r, R, f, want, args={0: ("e", "v"), 1: ("i", 1), 2: ("e", "x")}, given={"this.param_vars_size_": lst}, key="dimension %s" % ("known" if have else "new"), clue="exactly that dimension")


def follows(F, r):
    R = "follows"
    sv = [f for f in F.need(K + "Param::set_value") if "long" in f.params[0]["t"] or "int64" in f.params[0]["t"]][0]
    op = REG + ("kratos::Const::set_value", "set_width_param", "set_size_param", "to_string")
    vw = ["b0", "s0", "p0"]
    typ = {"b0": {"type": T + "Base", "width_param": "P"}, "s0": {"type": T + "Slice", "width_param": "P"}, "p0": {"type": T + "PortIO", "width_param": "X"}}
    dim = ("list", (("tup", (("e", "b1"), ("i", 0), ("e", "P"))), ("tup", (("e", "b1"), ("i", 1), ("e", "Y")))))
    for width in (False, True):
        for sz in (False, True):
            for v in (-1, 0, 1, 7):
                def check(o, width=width, sz=sz, v=v):
                    if v <= 0 and (width or sz):
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    if [a for x, a in does(o, "set_value") if x in ("this", "Const", "kratos::Const", "this.Const", "")] != [[str(v)]]:
                        return "sets %s" % does(o, "set_value")
                    if final(o, "this.has_value_") != ("b", True):
                        return "does not record that it has a value"
                    w = sorted((x, a) for x, a in does(o, "set_width_param") if x != "s0")
                    if w != ([("b0", ["P"]), ("p0", ["X"])] if width else []):
                        return "updates the widths %s" % w
                    s = sorted((x, a) for x, a in does(o, "set_size_param"))
                    if s != ([("b1", ["0", "P"]), ("b1", ["1", "Y"])] if sz else []):
                        return "updates the dimensions %s" % s
                    d = sorted((x, a) for x, a in does(o, "set_value") if x in ("q0", "q1"))
                    if d != [("q0", [str(v)]), ("q1", [str(v)])]:
                        return "updates the parameters %s" % d
                w = {"this": {"param_vars_width": vw if width else [], "param_vars_size": dim if sz else [], "param_params": ["q0", "q1"]}}
                w.update(typ)
                go(F, r, R, sv, w, check, "%d, widths %s, dimensions %s" % (v, width, sz), [v], opaque=op, recur=1)
    # through any number of parameters set to one another
    for n in (1, 2, 3):
        def chained(o, n=n):
            if o.kind == "throw":
                return "rejects it"
            got = sorted((x, a) for x, a in does(o, "set_width_param"))
            want = sorted(("b%d" % i, ["X%d" % i]) for i in range(n + 1))
            if got != want:
                return "updates the widths %s instead of %s" % (got, want)
            bad = [i for i in range(1, n + 1) if final(o, "q%d.has_value_" % i) != ("b", True)]
            return "q%d does not record its value" % bad[0] if bad else None
        w = {}
        for i in range(n + 1):
            w["q%d" % i if i else "this"] = {"param_vars_width": ["b%d" % i], "param_vars_size": [], "param_params": ["q%d" % (i + 1)] if i < n else []}
            w["b%d" % i] = {"type": T + "Base", "width_param": "X%d" % i}
        row(F, r, R, sv, chained, args={0: ("i", 5)}, given=world(F, w), key="chain of %d parameters" % n, opaque=op, recur=8, depth=12, hook=classes(F, {x: "kratos::Param" for x in w if x[0] in "qt"}), clue="everything along the chain is updated")
    pv = [f for f in F.need(K + "Param::set_value") if "shared_ptr" in f.params[0]["t"]][0]
    for old in (None, "O", "P"):
        for kind in ("Integral", "Parameter", "Enum", "RawType"):
            def check(o, old=old, kind=kind):
                if o.kind == "throw":
                    return "rejects it"
                if after(o, {"this": {"parent_param": old}}, "this.parent_param") != "P":
                    return "follows %s" % after(o, {}, "this.parent_param")
                on = {}
                for e in o.st.eff:
                    if e[0] == "call" and e[1].endswith((".param_params_.erase", ".param_params_.emplace", ".param_params_.insert")) and e[2] and text(e[2][0]).lstrip("&*") == "this":
                        on[e[1].split(".")[0]] = not e[1].endswith("erase")
                want = {"P": True}
                if old == "O":
                    want["O"] = False
                if on != want:
                    return "is listed by %s" % on
                if [a for x, a in does(o, "set_value")] != [["P.value()"]] and [a for x, a in does(o, "set_value")] != [["P.value_"]]:
                    return "takes the value %s" % does(o, "set_value")
                t = final(o, "this.param_type_")
                if kind == "RawType":
                    return None if t is None else "becomes %s" % text(t)
                return None if t is not None and text(t) == "ParamType::Parameter" else "becomes %s" % (text(t) if t is not None else "nothing new")
            go(F, r, R, pv, {"this": {"parent_param": old}, "P": {"param_type": "#ParamType::" + kind}, "O": {"param_type": "#ParamType::" + kind}}, check, "from a %s parameter, before %s" % (kind, old), ["P"], opaque=("set_value",))


def kinds(F, r):
    R = "kinds"
    for f in F.need(K + "Param::Param"):
        if f.deleted or len(f.params) < 2:
            continue
        ts = [p["t"] for p in f.params]
        if len(ts) == 4:
            kind, width, sign, en, key = "ParamType::Integral", "$2", "$3", None, "integer"
        elif len(ts) == 2:
            kind, width, sign, en, key = "ParamType::RawType", "1", "false", None, "type"
        elif "Enum" in ts[2]:
            kind, width, sign, en, key = "ParamType::Enum", ("$2.width()", "$2.width_"), "false", ("$2", "&$2"), "enum"
        else:
            kind, width, sign, en, key = ("$1.param_type_", "$1.param_type()"), None, None, ("$1.enum_def_", "$1.enum_def()"), "parameter"

        def made(o, kind=kind, width=width, sign=sign, en=en):
            if o.kind == "throw":
                return "rejects it"
            for n, want in (("param_type_", kind), ("type_", "VarType::Parameter"), ("enum_def_", en), ("var_width_", width), ("is_signed_", sign)):
                v = final(o, "this." + n)
                if want is None and n != "enum_def_":
                    continue
                t = text(v) if v is not None else None
                if n == "enum_def_" and want is None:
                    if t not in (None, "null"):
                        return "has the enumeration %s" % t
                    continue
                if t not in ((want,) if isinstance(want, str) else want):
                    return "has %s %s" % (n, t)
        row(F, r, R, f, made, key=key, clue="a parameter of that kind", opaque=("is_valid_variable_name", "is_legal", "width", "kratos::Const::is_legal"), args={2: ("t", "$2")} if len(ts) > 2 else None)
    vs = F.need(K + "Param::value_str")[0]
    for kind in ("Integral", "Parameter", "Enum", "RawType"):
        for par in (None, "P"):
            for raw in (None, '"raw'):
                for ini in (None, '"ini'):
                    if kind == "Integral":
                        want = {"Const::to_string()", "this.Const::to_string()", "kratos::Const::to_string()", "this.to_string()"}
                    elif par:
                        want = {"P.to_string()"}
                    elif kind == "RawType":
                        want = {'"raw"' if raw else '"ini"' if ini else '"nm"'}
                    else:
                        want = {'"nm"'}
                    go(F, r, R, vs, {"this": {"param_type": "#ParamType::" + kind, "parent_param": par, "raw_str_value": raw and ("opt", ("s", "raw")), "initial_raw_str_value": ini and ("opt", ("s", "ini")), "name": '"nm'}}, want,
                       "%s, parent %s, text %s, initial %s" % (kind, par, raw, ini), opaque=("to_string",))


def copies(F, r):
    R = "copies"
    cp = F.need(K + "check_parent_param")[0]
    for gen, want in (("G", True), ("H", False)):
        for chk in (True, False):
            go(F, r, R, cp, {"p": {"generator": gen}, "G": {}}, {"true"} if want else {"throw"} if chk else {"false"}, "parameter of %s module, %s" % ("that" if want else "another", "checked" if chk else "unchecked"), ["p", "G", chk])
    for chk in (True, False):
        go(F, r, R, cp, {"G": {}}, {"throw"} if chk else {"false"}, "no parameter, %s" % ("checked" if chk else "unchecked"), [None, "G", chk])
    cc = F.need(K + "copy_var_const_parm")[0]
    cop = ("constant", "set_generator", "expr", "check_parent_param", "width", "is_signed") + REG

    def res(want, gen=None):
        def check(o):
            if o.kind == "throw":
                return "rejects it"
            t = text(o.val).lstrip("*&")
            if not re.fullmatch(want, t):
                return "yields %s" % t
            if gen is not None and (t, [gen]) not in does(o, "set_generator"):
                return "does not give it to the new module"
        return check
    leaf = {"p": {"is_param()": True, "type": T + "Parameter", "parent_param": "pp", "value": 5, "width": 8, "is_signed": True, "param_type": "#ParamType::Integral"},
            "c": {"is_param()": False, "type": T + "ConstValue", "value": 3, "width": 4, "is_signed": False}, "pp": {"generator": "G"}, "G": {}}
    cst = lambda v, w, s: r"(?:kratos::)?(?:Const::)?constant\(%s, %s, %s\)" % (v, w, s)
    go(F, r, R, cc, leaf, res("pp"), "parameter that follows one of the new module", ["p", "G", True], opaque=cop, extra={"check_parent_param(pp, G, true)": ("b", True)})
    go(F, r, R, cc, leaf, res(cst(5, 8, "true"), "G"), "parameter of another module", ["p", "G", False], opaque=cop, extra={"check_parent_param(pp, G, false)": ("b", False)})
    go(F, r, R, cc, leaf, res(cst(3, 4, "false"), "G"), "constant", ["c", "G", False], opaque=cop)
    for t in ("Base", "PortIO", "Slice"):
        go(F, r, R, cc, {"v": {"is_param()": False, "type": T + t}, "G": {}}, reject, "a %s" % t, ["v", "G", False], opaque=cop)
    w = dict(leaf, x={"is_param()": False, "type": T + "Expression", "op": "#ExprOp::Add", "left": "p", "right": "c"}, u={"is_param()": False, "type": T + "Expression", "op": "#ExprOp::UMinus", "left": "p", "right": None})
    go(F, r, R, cc, w, res(r"G\.expr\(ExprOp::Add, &?pp, &?%s\)" % cst(3, 4, "false")), "expression of two operands", ["x", "G", True], opaque=cop, extra={"check_parent_param(pp, G, true)": ("b", True)}, recur=4)
    go(F, r, R, cc, w, res(r"G\.expr\(ExprOp::UMinus, &?pp, null\)"), "expression of one operand", ["u", "G", True], opaque=cop, extra={"check_parent_param(pp, G, true)": ("b", True)}, recur=4)
    cm = F.need(K + "Var::copy_meta_data")[0]
    for wp in (None, "P"):
        for sp in ({}, {0: "A"}, {0: "A", 1: "B"}):
            for raw in (None, "same", "other", "none"):
                def check(o, wp=wp, sp=sp, raw=raw):
                    if raw in ("other", "none"):
                        return reject(o)
                    if o.kind == "throw":
                        return "rejects it"
                    c = lambda x: "copy_var_const_parm(%s, G, $1)" % x
                    got = [a[0].lstrip("&*").replace("kratos::", "") for x, a in does(o, "set_width_param") if x == "n"]
                    if got != ([c("P")] if wp else []):
                        return "gives it the width %s" % got
                    got = sorted([a[0], a[1].lstrip("&*").replace("kratos::", "")] for x, a in does(o, "set_size_param") if x == "n")
                    if got != [[str(i), c(x)] for i, x in sp.items()]:
                        return "gives it the dimensions %s" % got
                    v = [a for x, a in does(o, "set_raw_type_parameter")] or [[text(final(o, "n.raw_type_param_"))]] if final(o, "n.raw_type_param_") is not None else [a for x, a in does(o, "set_raw_type_parameter")]
                    if bool(v) != (raw == "same") or v and "par" not in v[0][0]:
                        return "gives it the type %s" % v
                w = {"this": {"width_param": wp, "size_param": sp, "raw_type_param": "rp" if raw else None, "raw_type_parametrized()": bool(raw)}, "n": {"generator": "G"}, "G": {}, "rp": {"parent_param": "par" if raw in ("same", "other") else None}, "par": {"generator": "G" if raw == "same" else "H"}}
                go(F, r, R, cm, w, check, "width %s, dimensions %s, type %s" % (wp, sorted(sp), raw), ["n"], opaque=("copy_var_const_parm", "set_width_param", "set_size_param", "to_string", "set_raw_type_parameter"))
    # a clone of a module declares the same parameters with the same values, and its ports depend on them
    for f in F.need(K + "Generator::clone"):
        for kind in ("Integral", "RawType", "Enum", "Parameter"):
            for has in (False, True):
                def check(o, kind=kind, has=has):
                    if o.kind == "throw":
                        return "rejects it"
                    par = [a for x, a in does(o, "parameter")]
                    want = {"RawType": ['"a"'], "Enum": ['"a"', "E"]}.get(kind, ['"a"', "pa.width()", "pa.is_signed()"])
                    norm = lambda L: [x.replace("width_", "width()").replace("is_signed_", "is_signed()").replace("E.shared_from_this()", "E").replace("var_width()", "width()") for x in L]
                    if [norm(x) for x in par] != [want]:
                        return "declares the parameters %s" % par
                    q = [e for e in o.st.eff if e[0] == "call" and e[1].endswith(".set_width_param")]
                    if len(q) != 1 or not re.search(r'get_param\("a"\)', text(q[0][2][0])) or '"x"' not in q[0][1]:
                        return "parametrises %s" % [(e[1], [text(x) for x in e[2]]) for e in q]
                    iv = [a for x, a in does(o, "set_value") if x.endswith(")")]
                    if iv != ([["9"]] if has else []):
                        return "gives the values %s" % iv
                w = {"this": {"params": {'"a': "pa"}, "get_port_names()": ['"x', '"y'], "fn_name_ln": [], "context": "C"},
                     "pa": {"param_type": "#ParamType::" + kind, "enum_def": "E", "get_initial_value()": None, "initial_value": None, "has_value": has, "value": 9, "get_raw_str_initial_value()": None, "get_raw_str_value()": None, "raw_str_value": None, "initial_raw_str_value": None, "is_param()": True, "to_string()": '"a', "parameter_name": '"a'},
                     "px": {"width_param": "pa", "active_high": None}, "py": {"width_param": None, "active_high": None}, "E": {}}
                go(F, r, R, f, w, check, "%s parameter%s" % (kind, " with a value" if has else ""), types={"px": K + "Port", "py": K + "Port"}, extra={'this.get_port("x")': ("e", "px"), 'this.get_port("y")': ("e", "py"), "E.shared_from_this()": ("e", "E")},
                   opaque=("width", "is_signed", "size", "parameter", "port", "get_port", "get_param", "set_width_param", "set_value", "set_explicit_array", "set_is_packed", "get_port_names", "set_external", "shared_from_this", "kratos::Generator::Generator"))


    # ports added to complete a module follow the module's own parameter of that name, when it has one
    for wp in ("param", "expression", None):
        for own in (True, False):
            def comp(o, wp=wp, own=own):
                if o.kind == "throw":
                    return "rejects it"
                q = [e for e in o.st.eff if e[0] == "call" and e[1].endswith(".set_width_param") and [text(x) for x in e[2]] != ["null"]]
                got = [text(e[2][0]).lstrip("&*") for e in q]
                return None if got == (["tp"] if wp == "param" and own else []) else "parametrises it by %s" % got
            w = {"this": {"params": {'"W': "tp"} if own else {}, "ports": [], "vars": {}, "has_port(\"x\")": False}, "g": {"get_port_names()": ['"x']}, "tp": {"value": 1, "value()": 1, "has_value()": True},
                 "px": {"width_param": "pa" if wp else None, "active_high": None}, "pa": {"is_param()": wp == "param", "to_string()": '"W'}}
            go(F, r, R, "Generator::copy_over_missing_ports", w, comp, "width by %s, parameter %s" % (wp, "present" if own else "missing"), ["g"], types={"px": K + "Port"}, extra={'g.get_port("x")': ("e", "px")},
               opaque=("width", "is_signed", "size", "port", "get_port", "set_width_param", "set_explicit_array", "set_is_packed", "get_port_names", "to_string", "has_port"))


def moves(F, r):
    R = "moves"
    sp = F.need(K + "set_var_params")[0]
    for wp, wfollow in (("none", None), ("follows", "T"), ("follows second", "U"), ("other", None), ("expression", None)):
        par = {"follows": "T", "follows second": "U", "other": "Z", "expression": None}.get(wp)
        def check(o, wp=wp, want=wfollow):
            if o.kind == "throw":
                return "rejects it"
            got = [a for x, a in does(o, "set_width_param") if x == "v"]
            if wp == "none":
                return None if got in ([], [["null"]]) else "gets the width parameter %s" % got
            return None if got == [[want or "null"]] else "gets the width parameter %s" % got
        w = {"v": {"width_param": None if wp == "none" else "wp", "size": [4], "get_size_param(0)": None, "size_param": {}}, "wp": {"is_param()": wp != "expression", "parent_param": par}, "T": {}, "U": {}, "Z": {}}
        prm = ("list", (("tup", (("s", "a"), ("e", "T"))), ("tup", (("s", "b"), ("e", "U")))))
        row(F, r, R, sp, check, args={0: ("e", "v"), 1: prm}, given=world(F, w), key="width: " + wp, opaque=REG + ("set_width_param", "set_size_param", "get_size_param"), clue="the parameter it followed, or none")

        def check2(o, wp=wp, want=wfollow):
            if o.kind == "throw":
                return "rejects it"
            got = [a for x, a in does(o, "set_size_param") if x == "v"]
            return None if sorted(got) == [["0", "null"], ["1", "null" if wp == "none" or not want else want]] else "gets the dimension parameters %s" % got
        w = {"v": {"width_param": None, "size": [4, 8], "get_size_param(0)": None, "get_size_param(1)": None if wp == "none" else "wp"}, "wp": {"is_param()": wp != "expression", "parent_param": par}, "T": {}, "U": {}, "Z": {}}
        row(F, r, R, sp, check2, args={0: ("e", "v"), 1: prm}, given=world(F, w), key="dimension: " + wp, opaque=REG + ("set_width_param", "set_size_param", "get_size_param"), clue="the parameter it followed, or none")
    # a module dissolved into another: into its own parent the parameters are followed, elsewhere they are dropped
    for up in (True, False):
        for ty in ("Base", "PortIO"):
            for wp in (True, False):
                def trans(o, up=up, wp=wp):
                    if o.kind == "throw":
                        return "rejects it"
                    sv = [a for x, a in does(o, "set_var_params")]
                    if bool(sv) != up or up and [sv[0][0].lstrip("&*")] != ["v"]:
                        return "looks for parameters of %s" % sv
                    if up:
                        return None
                    got = [a for x, a in does(o, "set_width_param") if x == "v"]
                    if got != [["null"]] and (wp or got):
                        return "leaves the width parameter %s" % got
                    got = sorted(a for x, a in does(o, "set_size_param") if x == "v")
                    if got != [["0", "null"], ["1", "null"]]:
                        return "leaves the dimension parameters %s" % got
                w = {"this": {"vars": {'"v': "v"}, "stmts": [], "exprs": [], "parent_generator": "g" if up else "h"}, "v": {"type": T + ty, "width_param": "wp" if wp else None, "size": [4, 8], "name": '"v'}, "g": {"has_var(\"v\")": False, "params": {}, "stmts": [], "exprs": [], "vars": {}}, "h": {}, "wp": {}}
                go(F, r, R, "Generator::transfer_content", w, trans, "%s into %s, parametrised %s" % (ty, "its parent" if up else "another module", wp), ["g", ("s", "")], opaque=REG + ("set_var_params", "set_width_param", "set_size_param", "set_generator", "var", "move_linked_to", "move_sink_to", "move_src_to", "get_unique_variable_name", "add_stmt"))
    # a variable that takes over another one's connections also takes over the width parameter
    for q, tab, side in (("Var::move_src_to", "sources", "right"), ("Var::move_sink_to", "sinks", "left")):
        for vp in (True, False):
            for np_ in (True, False):
                for gen in ("G", "H"):
                    def check(o, vp=vp, np_=np_, gen=gen):
                        if o.kind == "throw":
                            return "rejects it"
                        got = [a for x, a in does(o, "set_width_param") if x == "n"]
                        want = [["P"]] if vp and not np_ and gen == "G" else []
                        return None if got == want else "sets the width parameter %s" % got
                    w = {"v": {"type": T + "Base", tab: ["a0"]}, "n": {"generator": "G", "width_param": "N" if np_ else None, "parametrized()": np_, "type": T + "Base"}, "a0": {side: "o", "generator_parent()": "G"}, "G": {"debug": False},
                         "o": {"width_param": "P" if vp else None, "parametrized()": vp}, "P": {"generator": gen}}
                    go(F, r, R, q, w, check, "%s parametrised %s, target parametrised %s, module %s" % (side, vp, np_, gen), ["v", "n", "G", False], opaque=("stmt_set_left", "stmt_set_right", "add_source", "add_sink", "clear_sources", "clear_sinks", "set_width_param", "generator_parent", "add_stmt", "assign"))
