"""Constants fit the width and sign they are declared with."""
from ..core import *
from ..valid import *
from ..cprop import *


def run(F, r, tier):
    r.rule("fits", "every path that stores a value or a width into a constant has established that the value is representable", 14)
    r.rule("legal-accepted", "a representable value is never rejected", 3)
    r.rule("limits", "the representable range is computed from the declared width: sign bit excluded for signed, every bit for unsigned, no oversized shift", 5)
    A = "fits"
    L = "Const::ConstantLegal::"
    ct = "kratos::Const::Const"
    base = nparams("Generator *", "long", "unsigned int", "bool")
    is_ = "Const::is_legal($1, $2, $3)"
    must(F, r, A, ct, ["!%sSmall == %s" % (L, is_)], sel=base)
    must(F, r, A, ct, ["!%sBig == %s" % (L, is_), "64 < $2"], sel=base)
    accepts(F, r, "legal-accepted", ct, ["%sLegal == %s" % (L, is_)], sel=base)
    # every other constructor of the hierarchy goes through that one
    for c in F.subclasses("kratos::Const"):
        for f in F.find(c + "::" + last(c)):
            if base(f) and c == "kratos::Const" or f.deleted or f.body is None:
                continue
            must(F, r, A, f, ["!%sSmall == Const::is_legal(*)" % L], key="%s#%s|not too small" % (short(f.q), ",".join(strip_type(p["t"]).split("<")[0] for p in f.params)))
            must(F, r, A, f, ["!%sBig == Const::is_legal(*)" % L, "64 < *"], key="%s#%s|not too big" % (short(f.q), ",".join(strip_type(p["t"]).split("<")[0] for p in f.params)))
    # value_ and width are written only after the check
    n = 0
    for f in F.all:
        if f.body is None:
            continue
        v = F.view(f)
        for x in f.nodes():
            if x.get("k") == "op" and x["o"] == "=" and x["a"][0].get("k") == "mem" and x["a"][0].get("q") == "kratos::Const::value_":
                n += 1
                val = v.canon(x["a"][1])
                must(F, r, A, f, ["!%sSmall == Const::is_legal(%s, *)" % (L, val)], at=lambda view, nd, x=x: nd.ast is x,
                     key="%s#%s|value not too small when stored" % (short(f.q), len(f.params)))
                must(F, r, A, f, ["!%sBig == Const::is_legal(%s, *)" % (L, val), "64 < *"], at=lambda view, nd, x=x: nd.ast is x,
                     key="%s#%s|value not too big when stored" % (short(f.q), len(f.params)))
    if n < 2:
        raise AnalysisError("stores to the constant's value vanished")
    sv = nparams("long")
    must(F, r, A, "kratos::Const::set_value", ["%sLegal == Const::is_legal($0, this.width(), this.is_signed())" % L], sel=sv)
    accepts(F, r, "legal-accepted", "kratos::Const::set_value", ["%sLegal == Const::is_legal($0, this.width(), this.is_signed())" % L], sel=sv)
    must(F, r, A, "kratos::Const::set_value", ["%sLegal == Const::is_legal(*, this.width(), this.is_signed())" % L], sel=nparams("basic_string"))
    must(F, r, A, "kratos::Const::set_value", ["!* < *$0.size()*"], sel=nparams("basic_string"))
    f0 = select(F, "kratos::Const::set_value", sv)[0]
    for x in F.overriders(f0.fid):
        g = F.funcs.get(x)
        if g and x != f0.fid:
            must(F, r, A, g, ["%sLegal == Const::is_legal($0, *)" % L], key="%s checks" % short(g.q))
    must(F, r, A, "kratos::Param::set_value", ["%sLegal == Const::is_legal($0.value(), *)" % L], sel=nparams("shared_ptr"))
    sw = "kratos::Const::set_width"
    must(F, r, A, sw, ["%sLegal == Const::is_legal(this.value(), $0, this.is_signed())" % L])
    must(F, r, A, sw, ["!$0 < this.num_bits_", "this.num_bits_ == 0"])
    accepts(F, r, "legal-accepted", sw, ["%sLegal == Const::is_legal(this.value(), $0, this.is_signed())" % L, "!$0 < this.num_bits_"])
    must(F, r, A, "kratos::resize_var", ["!$2.type() == VarType::ConstValue", "%sLegal == Const::is_legal($2.value(), $1, *)" % L])
    must(F, r, A, "kratos::IterVar::fix_width", ["null $0", "!$0.type() == VarType::ConstValue", "%sLegal == Const::is_legal($0.value(), $1, *)" % L])
    r.rule("text", "a string constant is the number its characters spell, first character in the highest byte", 8)
    from ..tables import row, outcome
    for t in ("", "a", "ab", "0", "zZ9", "abcd", "hello w", "abcdefgh", "~}|{zyxw"[:8]):
        n = int.from_bytes(t.encode(), "big")
        n = n - (1 << 64) if n >= 1 << 63 else n
        for f in F.find("kratos::convert_string_to_int"):
            row(F, r, "text", f, lambda o, n=n: None if o.val == ("i", n) else "answers %s" % outcome(o), args={0: ("s", t)}, key='"%s"' % t, clue="%d" % n)
        for f in select(F, "kratos::Const::set_value", nparams("basic_string")):
            def set_(o, n=n):
                c = [e for e in o.st.eff if e[0] == "call" and e[1].endswith("set_value")]
                v = o.st.env.get("this.value_")
                got = c[-1][2][0] if c else v
                return None if o.kind != "throw" and got == ("i", n) else "stores %s" % (outcome(o) if o.kind == "throw" else text(got) if got else "nothing")
            row(F, r, "text", f, set_, args={0: ("s", t)}, key='set to "%s"' % t, opaque=("kratos::Const::set_value",), clue="%d" % n, recur=1)
    must(F, r, A, "kratos::Const::constant", ["$0.find_first_not_of(*) == npos"], sel=lambda f: len(f.params) == 5)
    must(F, r, A, "kratos::Const::constant", ["!$3 < $1"], sel=lambda f: len(f.params) == 5)
    must(F, r, A, "kratos::StringConst::StringConst", ["!$1 < *$0.size()*"])
    # nobody else changes a constant's width through the mutable accessor
    # the limits themselves
    for f in F.need("kratos::Const::is_legal"):
        r.saw(f)
        for w in list(range(1, 65)) + [65, 128, 4096]:
            for sg in (True, False):
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                bad = None
                outs, P = returns(F, f, args={1: ("i", w), 2: ("b", sg)}, casts=True)
                sym = "$0" if sg else "u64($0)"
                for o in outs:
                    a, b = None, None  # what the path knows about the value: a <= value <= b
                    for at, pol in o.st.trail:
                        if at[0] != "<":
                            bad = bad or "depends on %s" % atext(at, pol)
                            continue
                        try:
                            if at[1] == sym:
                                n = int(at[2])
                                if pol:
                                    b = n - 1 if b is None else min(b, n - 1)
                                else:
                                    a = n if a is None else max(a, n)
                            elif at[2] == sym:
                                n = int(at[1])
                                if pol:
                                    a = n + 1 if a is None else max(a, n + 1)
                                else:
                                    b = n if b is None else min(b, n)
                            else:
                                bad = bad or "depends on %s" % atext(at, pol)
                        except ValueError:
                            bad = bad or "the limit %s is not a constant" % atext(at, pol)
                    v = text(o.val) if o.val else o.kind
                    if w >= 65 or (not sg and w == 64):
                        # every 64-bit pattern fits
                        top = (1 << 64) - 1
                        if v != L + "Legal" and not (v == L + "Big" and a is not None and a > top) and not (v == L + "Small" and sg and b is not None and b < -(1 << 63)):
                            bad = bad or "answers %s for values from %s to %s" % (v, a, b)
                    elif v == L + "Legal":
                        if b != hi or (sg and a != lo) or (not sg and a not in (None, 0)):
                            bad = bad or "accepts values from %s to %s, representable are %d to %d" % (a, b, lo, hi)
                    elif v == L + "Big":
                        if a != hi + 1 or b is not None:
                            bad = bad or "answers %s for values from %s to %s" % (v, a, b)
                    elif v == L + "Small":
                        if b != lo - 1:
                            bad = bad or "answers %s for values from %s to %s" % (v, a, b)
                    else:
                        bad = bad or "answers " + v
                r.ob("limits", "%s %d bits" % ("signed" if sg else "unsigned", w), bad is None, f.loc(), "%s for a %s width of %d: %s" % (f.sig(), "signed" if sg else "unsigned", w, bad))
