"""Slices, indices, extensions and member accesses stay inside the variable they select from."""
from ..core import *
from ..valid import *
from ..cprop import *
from ..tables import *


def log_of(L, x):
    return any("log2(%s)" % x in t for t in L)


def run(F, r, tier):
    r.rule("in-range", "every path that hands out a slice / index / extension / member has established that it lies inside the variable", 24)
    r.rule("legal-accepted", "a selection inside the variable is never rejected", 3)
    r.rule("nonzero", "every path that finishes constructing a variable has established non-zero width, dimensions and repeat count", 6)
    r.rule("index-width", "the index-width limit is the number of bits needed to address the selected dimension", 2)
    A = "in-range"
    ix = "kratos::Var::operator[]"
    pr = nparams("pair")
    must(F, r, A, ix, ["!$0#0 < $0#1"], sel=pr)
    flat = ["this.size().size() == 1", "this.size().front() == 1"]
    must(F, r, A, ix, ["$0#0 < this.width()"], when=flat, sel=pr)
    must(F, r, A, ix, ["$0#0 < this.size().front()"], when=["!this.size().size() == 1"], sel=pr)
    must(F, r, A, ix, ["$0#0 < this.size().front()"], when=["!this.size().front() == 1"], sel=pr)
    accepts(F, r, "legal-accepted", ix, flat + ["!$0#0 < $0#1", "$0#0 < this.width()"], sel=pr)
    accepts(F, r, "legal-accepted", ix, ["!this.size().front() == 1", "!$0#0 < $0#1", "$0#0 < this.size().front()"], sel=pr)
    one = lambda f: len(f.params) == 1 and strip_type(f.params[0]["t"]) == "unsigned int"
    must(F, r, A, ix, ["$0 < this.width()"], when=flat, sel=one, key="bit index|width")
    must(F, r, A, ix, ["$0 < this.size().front()"], when=["!this.size().front() == 1"], sel=one, key="bit index|size")
    # overrides that replace the range-checked version must delegate to it
    for f in F.need(ix):
        if not (pr(f) or one(f) or nparams("shared_ptr")(f)):
            continue
        for x in F.overriders(f.fid):
            g = F.funcs.get(x)
            if g is None or x == f.fid:
                continue
            must(F, r, A, g, [], key="%s(%s) delegates" % (short(g.q), short(strip_type(g.params[0]["t"])).split("<")[0]),
                 stops=[lambda view, c: (c.get("f") or "").endswith("operator[]") and (c.get("f") or "").startswith("kratos::")])
    # index by variable
    vv = "kratos::VarVarSlice::VarVarSlice"
    must(F, r, A, ix, ["!* < $0.width()", "$0.width() == *"], sel=nparams("shared_ptr"), when=["!true each(this.slices_).sliced_by_var()"])
    must(F, r, A, vv, ["!* < $1.width()", "$1.width() == *"])
    for f in F.need(vv):
        v = F.view(f)
        L, O = set(), set()
        for n in cfg(f).nodes:
            if n.kind == "cond":
                at, pol, e = atoms_norm(v, n.ast)
                if at[0] == "<" and at[2] == "$1.width()":
                    while e.get("k") != "op":
                        e = e["e"]
                    for x in e["a"]:
                        l, o = deps(v, x)
                        L |= l
                        O |= o
        r.saw(f)
        r.ob("index-width", "bit select", log_of(L, "$0.width()"), f.loc(), "index limit for bit selection is computed from %s, not the bits needed for the width" % sorted(L))
        r.ob("index-width", "array select", log_of(L, "$0.size_.front()"), f.loc(), "index limit for array selection is computed from %s, not the bits needed for the first dimension" % sorted(L))
        plain = [x for x in L if "width_param_" in x or "size_param_" in x]
        for x in plain:
            r.ob("index-width", "parametrized|" + ("width" if "width_param_" in x else "size"), "log2(" in x, f.loc(), "a parametrized dimension admits an index as wide as its size: %s" % x)
    # explicit one-element arrays
    sl = "kratos::VarSlice::VarSlice"
    ex = ["$0.size().size() == 1", "$0.size().front() == 1", "true $0.explicit_array()"]
    must(F, r, A, sl, ["$1 == 0"], when=ex)
    must(F, r, A, sl, ["$2 == 0"], when=ex)
    # extension
    e = "kratos::VarExtend::VarExtend"
    must(F, r, A, e, ["!$1 < $0.width()"])
    must(F, r, A, e, ["!1 < $0.size().size()"])
    must(F, r, A, e, ["!1 < $0.size().front()"])
    must(F, r, A, e, ["!true $0.explicit_array()", "$0.type() == VarType::ConstValue"])
    accepts(F, r, "legal-accepted", e, ["!$1 < $0.width()", "!1 < $0.size().size()", "!1 < $0.size().front()", "!true $0.explicit_array()"])
    must(F, r, A, "kratos::VarCasted::set_target_width", ["!1 < this.parent_var_.size().size()", "this.parent_var_.size().size() == 1"])
    must(F, r, A, "kratos::VarCasted::set_target_width", ["this.parent_var_.size().front() == 1"])
    # members
    At = ("list", (("t", "m0"), ("t", "m1")))
    row(F, r, A, "kratos::PackedSlice::set_up", {"throw"}, ["!$1 == m0.name", "!$1 == m1.name"], given=gv(F, {"$0.attributes": At}), key="unknown member", opaque=("bitwidth", "var_low"))
    row(F, r, A, "kratos::PackedSlice::set_up", {"throw"}, given=gv(F, {"$0.attributes": ("list", ())}), key="no members", opaque=("bitwidth", "var_low"))
    setup = lambda view, c: last(c.get("f") or "") == "set_up"
    m = nparams("basic_string")
    vs = "kratos::VarSlice::operator[]"
    for n in ("true this.parent_var.is_packed()", "this.width() == this.var_width()", "true this.get_var_root_parent().is_struct()"):
        must(F, r, A, vs, [n], sel=m)
    must(F, r, A, vs, ["!null *.get_definition($0)", "true this.is_struct()", "*.name == $0"], sel=m, stops=(setup,))
    for q in ("kratos::VarPackedStruct::operator[]", "kratos::PortPackedStruct::operator[]"):
        must(F, r, A, q, ["this.width() == this.var_width()"], sel=m)
        must(F, r, A, q, ["*.name == $0"], sel=m, stops=(setup,))
    must(F, r, A, "kratos::Enum::get_enum", ["in $0 @ this.values"])
    # a dimension is only re-sized if existing constant slices still fit
    sp = "kratos::Var::set_size_param"
    must(F, r, A, sp, ["$0 < this.size().size()"])
    must(F, r, A, sp, ["this.type() == VarType::Base", "this.type() == VarType::PortIO"])
    w = ["!null $1", "!true each(this.slices_).sliced_by_var()", "$0 < each(this.slices_).get_slice_index().size()"]
    must(F, r, A, sp, ["*get_slice_index()[$0]#0 < *static_evaluate_expr($1)*"], when=w, loops=["this.slices_"])
    # zero sizes
    V = "kratos::Var::Var"
    for f in F.need(V):
        if f.deleted:
            continue
        must(F, r, "nonzero", f, ["!$2 == 0"], key="width#%s" % ",".join(strip_type(p["t"]) for p in f.params)[-60:])
        must(F, r, "nonzero", f, ["std::find(*, *, 0) == *.end()", "!in 0 @ *"], key="dimension#%s" % ",".join(strip_type(p["t"]) for p in f.params)[-60:])
    for f in F.need("kratos::VarDuplicated::VarDuplicated"):
        must(F, r, "nonzero", f, ["!$1 == 0", "0 < $1.value()", "0 < $1"], key="repeat count#" + strip_type(f.params[1]["t"])[:12])
    must(F, r, "nonzero", "kratos::Param::set_value", ["0 < $0"], when=["!empty this.param_vars_width_"], sel=nparams("long"))
