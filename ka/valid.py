"""Checked-before-use obligations: "every path from the entry of F to its normal exit (or to a given
effect) establishes fact A", and the dual "an input that satisfies the facts is not rejected"."""
import itertools, re
from .core import *
from .paths import Rule, Search, show


def getters(F):
    if getattr(F, "_getters", None) is None:
        m = {}
        for f in F.all:
            if f.cls and not f.params and f.body is not None:
                m.setdefault(f.name, set()).add(trivial_getter(f, True))
        F._getters = m
    return F._getters


def variants(F, text):
    """spell every `.name()` also as the field a trivial accessor reads"""
    g = getters(F)
    parts = re.split(r"(\.[A-Za-z_]+\(\))", text)
    opts = []
    for p in parts:
        m = re.fullmatch(r"\.([A-Za-z_]+)\(\)", p)
        if m:
            o = [p] + ["." + x for x in sorted(y for y in g.get(m.group(1), ()) if y)]
            opts.append(o)
        else:
            opts.append([p])
    return ["".join(x) for x in itertools.product(*opts)]


def glob(t):
    return re.compile(".*".join(re.escape(x) for x in t.split("*")), re.S)


class Fact:
    """text: 'a == b', 'a < b', 'null a', 'empty a', 'in k c', 'true a'; leading '!' negates"""

    def __init__(self, F, text):
        self.text = text
        self.pol = True
        t = text.strip()
        if t.startswith("!"):
            self.pol = False
            t = t[1:].strip()
        self.atoms = set()
        for v in variants(F, t):
            if v.startswith("null "):
                self.atoms.add(("null", v[5:].strip(), ""))
            elif v.startswith("empty "):
                self.atoms.add(("empty", v[6:].strip(), ""))
            elif v.startswith("true "):
                self.atoms.add(("truth", v[5:].strip(), ""))
            elif v.startswith("in "):
                k, c = v[3:].strip().split(" @ ")
                self.atoms.add(("in", k.strip(), c.strip()))
            elif re.fullmatch(r"[^ ]+ in [^ ]+", v):
                a, b = v.split(" in ")
                self.atoms.add(("in", a, b))
            elif " == " in v:
                a, b = v.split(" == ", 1)
                a, b = a.strip(), b.strip()
                if b == "npos":
                    self.atoms.add(("==", a, b))
                else:
                    self.atoms.add(("==",) + tuple(sorted((a, b))))
            elif " < " in v:
                a, b = v.split(" < ", 1)
                self.atoms.add(("<", a.strip(), b.strip()))
            else:
                raise AnalysisError("bad fact " + text)

        self.pats = []
        for a in self.atoms:
            if "*" in a[1] or "*" in a[2]:
                self.pats.append((a[0], glob(a[1]), glob(a[2])))
        self.enums = {}
        for a in self.atoms:
            if self.pol and a[0] == "==":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    m = re.fullmatch(r"([A-Za-z_:]+)::[A-Za-z_0-9]+", x)
                    if m:
                        self.enums[(y, m.group(1))] = x

    def match(self, atom):
        if atom in self.atoms:
            return True
        for op, a, b in self.pats:
            if op == atom[0]:
                if a.fullmatch(atom[1]) and b.fullmatch(atom[2]):
                    return True
                if op == "==" and a.fullmatch(atom[2]) and b.fullmatch(atom[1]):
                    return True
        return False

    def holds(self, atom, pol):
        if pol == self.pol and self.match(atom):
            return True
        # y == E::B excludes y == E::A
        if not self.pol and pol and atom[0] == "==":
            for a in self.atoms:
                if a[0] != "==":
                    continue
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    m = re.fullmatch(r"([A-Za-z_:]+)::[A-Za-z_0-9]+", x)
                    if not m:
                        continue
                    for u, v in ((atom[1], atom[2]), (atom[2], atom[1])):
                        k = re.fullmatch(r"([A-Za-z_:]+)::[A-Za-z_0-9]+", u)
                        if k and k.group(1) == m.group(1) and u != x and glob(y).fullmatch(v):
                            return True
        # a == b also excludes a < b; a < b excludes a == b
        if not self.pol and pol and atom[0] in ("<", "==") and any(a[0] in ("<", "==") and a[0] != atom[0] for a in self.atoms):
            for a in self.atoms:
                if a[0] == "<" and atom[0] == "==" and tuple(sorted(a[1:])) == tuple(sorted(atom[1:])):
                    return True
                if a[0] == "<" and atom[0] == "<" and (a[2], a[1]) == (atom[1], atom[2]):
                    return True
                if a[0] == "==" and atom[0] == "<" and tuple(sorted(atom[1:])) == tuple(sorted(a[1:])):
                    return True
        if not self.pol and pol and atom[0] == "<":
            for a in self.atoms:
                if a[0] == "<" and (a[2], a[1]) == (atom[1], atom[2]):
                    return True
        return False

    def value(self, atom):
        if self.match(atom):
            return self.pol
        if self.enums and atom[0] == "==":
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                m = re.fullmatch(r"([A-Za-z_:]+)::[A-Za-z_0-9]+", x)
                if m and (y, m.group(1)) in self.enums:
                    return self.enums[(y, m.group(1))] == x
        if atom[0] == "<" and self.pol:
            for a in self.atoms:
                if a[0] == "==" and tuple(sorted(atom[1:])) == (a[1], a[2]):
                    return False
                if a[0] == "<" and (a[2], a[1]) == (atom[1], atom[2]):
                    return False
        if atom[0] == "==" and self.pol:
            for a in self.atoms:
                if a[0] == "<" and tuple(sorted(a[1:])) == (atom[1], atom[2]):
                    return False
        return None

    def __repr__(self):
        return self.text


class GuardRule(Rule):
    def __init__(self, need, when=(), nonnull=False, stops=(), nodes=(), loops=()):
        self.need = need
        self.when = when
        self.nonnull = nonnull
        self.stops = stops
        self.nodes = nodes
        self.loops = [glob(x) for x in loops]
        self.hits = 0

    def edge(self, view, atom, pol, ast):
        for n in self.need:
            if n.holds(atom, pol):
                self.hits += 1
                return True
        return False

    def stop(self, view, call):
        return any(s(view, call) for s in self.stops)

    def node(self, view, n):
        return any(s(view, n) for s in self.nodes)

    def loop_runs(self, view, rng):
        return any(x.fullmatch(rng) for x in self.loops)

    def assume(self, view, atom, ast):
        for w in self.when:
            v = w.value(atom)
            if v is not None:
                return v
        if self.nonnull and atom[0] == "null":
            return False
        return None


def select(F, q, sel=None, all_=False):
    fs = [f for f in F.need(q) if not f.tmpl]
    if sel is not None:
        fs = [f for f in fs if sel(f)]
    if not fs:
        raise AnalysisError("anchor vanished: no matching overload of %s" % q)
    return fs


def nparams(*subs):
    """overload selector: each parameter's type contains the given text, in order"""
    def p(f):
        return len(f.params) == len(subs) and all(s in x["t"] for s, x in zip(subs, f.params))
    return p


def must(F, r, rule, q, need, when=(), sel=None, at=None, what="", nonnull=False, stops=(), nodes=(), loops=(), key=None, depth=5):
    """every path of F that reaches its normal exit (or node `at`) establishes one of `need`"""
    needf = [Fact(F, n) if isinstance(n, str) else n for n in need]
    whenf = [Fact(F, w) if isinstance(w, str) else w for w in when]
    res = True
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        gr = GuardRule(needf, whenf, nonnull, stops, nodes, loops)
        gr.depth = depth
        S = Search(F, gr)
        p = S.escape(f, targets=at)
        for fid in S.functions:
            r.saw(F.funcs[fid])
        k = key or "%s|%s%s" % (short(f.q), " or ".join(map(str, need)), "|when " + " and ".join(map(str, when)) if when else "")
        if len([1 for g in F.find(f.q)]) > 1:
            k += "#" + ",".join(short(strip_type(x["t"])).split("<")[0] for x in f.params)
        r.ob(rule, k, p is None, f.loc(), "%s: %s can be reached without establishing %s%s; path %s" % (
            f.sig(), "its normal exit" if at is None else "the guarded effect", " or ".join(map(str, need)),
            (" (case: " + " and ".join(map(str, when)) + ")") if when else "", show(f, p) if p else ""))
        res = res and p is None
    return res


def accepts(F, r, rule, q, given, sel=None, what="", nonnull=True, key=None, exc=None):
    """under the facts `given`, no throw of F itself is reachable"""
    giv = [Fact(F, n) if isinstance(n, str) else n for n in given]
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        gr = GuardRule([], giv, nonnull)
        S = Search(F, gr)
        p = S.escape(f, targets=lambda view, n: n.kind == "throw" and view.f is f)
        r.saw(f)
        k = key or "%s|accepts %s" % (short(f.q), " and ".join(given))
        if len([1 for g in F.find(f.q)]) > 1:
            k += "#" + ",".join(short(strip_type(x["t"])).split("<")[0] for x in f.params)
        r.ob(rule, k, p is None, f.loc(p[-1].ast if p else None), "%s rejects an input for which %s; path %s" % (
            f.sig(), " and ".join(given), show(f, p) if p else ""))


def only(F, r, rule, q, want, need, when=(), sel=None, key=None, depth=5):
    """a bool function answers `want` only on paths that establish one of `need`"""
    needf = [Fact(F, n) if isinstance(n, str) else n for n in need]
    whenf = [Fact(F, w) if isinstance(w, str) else w for w in when]
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        gr = GuardRule(needf, whenf)
        gr.depth = depth
        S = Search(F, gr)
        p = S.escape(f, want=want)
        for fid in S.functions:
            r.saw(F.funcs[fid])
        k = key or "%s=%s|%s%s" % (short(f.q), want, " or ".join(map(str, need)), "|when " + " and ".join(map(str, when)) if when else "")
        r.ob(rule, k, p is None, f.loc(), "%s can answer %s without establishing %s%s; path %s" % (
            f.sig(), want, " or ".join(map(str, need)), (" (case: " + " and ".join(map(str, when)) + ")") if when else "", show(f, p) if p else ""))


def deps(view, e, depth=0, seen=None):
    """(leaves, operators) a value is computed from, following locals through all their definitions"""
    seen = set() if seen is None else seen
    L, O = set(), set()
    if not isinstance(e, dict):
        return L, O
    k = e.get("k")
    if k in ("icast", "cast", "defarg", "definit") or (k == "call" and e.get("conv")):
        return deps(view, e.get("e") or e.get("obj"), depth, seen)
    if k == "ref" and e.get("dk") == "local":
        d = e["d"]
        if d in seen:
            return L, O
        seen = seen | {d}
        if d in view.rng or d in view.binds:
            return {view.canon(e)}, O
        ds = view.defs.get(d, [])
        if not ds:
            return {view.canon(e)}, O
        for x in ds:
            if x.get("k") == "mut":
                for n in view.f.nodes():
                    if n.get("k") == "op" and n["o"] in ("+=", "-=", "*=", "/=", "|=", "&=", "++", "--", "post++", "post--", "<<=", ">>=", "^=", "%=") and n["a"][0].get("d") == d:
                        O.add(n["o"].rstrip("=").replace("post", ""))
                        if len(n["a"]) > 1:
                            l, o = deps(view, n["a"][1], depth + 1, seen)
                            L |= l
                            O |= o
                continue
            l, o = deps(view, x, depth + 1, seen)
            L |= l
            O |= o
        return L, O
    if k == "op" and e.get("bi") and e["o"] not in ("->", "[]") and not (e["o"] in ("*", "&") and len(e["a"]) == 1):
        for x in e["a"]:
            l, o = deps(view, x, depth + 1, seen)
            L |= l
            O |= o
        O.add(e["o"])
        return L, O
    if k == "cond":
        for x in (e["c"], e["x"], e["y"]):
            l, o = deps(view, x, depth + 1, seen)
            L |= l
            O |= o
        O.add("?:")
        return L, O
    if k == "call" and e.get("fid") and depth < 6:
        g = view.F.funcs.get(e["fid"])
        if g is not None and single_return(g) and trivial_getter(g) is None and not (e.get("virt") and len(view.F.targets(e)) != 1):
            a = e.get("a", [])
            if len(a) >= len(g.params):
                v = View(view.F, g, {i: view.canon(x) for i, x in enumerate(a)}, view.canon(e["obj"]) if "obj" in e else view.this)
                return deps(v, g.body["b"][0]["e"], depth + 1)
    return {view.canon(e)}, O


def stores(F, f, member):
    """[(value expr, node)] assigned to this->member in f (constructor initialisers included)"""
    out = []
    for i in f.inits:
        if i.get("m") and last(i["m"]) == member and i.get("e") is not None:
            out.append((i["e"], i))
    for n in f.nodes():
        if n.get("k") == "op" and n["o"] == "=" and len(n.get("a", [])) == 2:
            t = n["a"][0]
            if t.get("k") == "mem" and t.get("n") == member and strip_copy(t.get("b") or {}).get("k") == "this":
                out.append((n["a"][1], n))
    return out


def stored(F, r, rule, q, member, leaves, ops, sel=None, key=None, why=""):
    """some store to `member` computes its value from exactly `leaves` with exactly `ops`; alternatives via lists"""
    for f in (select(F, q, sel) if isinstance(q, str) else [q]):
        v = F.view(f)
        got = []
        for e, n in stores(F, f, member):
            got.append(deps(v, e))
        want = set()
        for l in leaves:
            want.add(frozenset(variants(F, l)))
        ok = any(o == set(ops) and len(L) == len(leaves) and all(any(x in w for x in L) for w in want) for L, o in got)
        r.saw(f)
        k = key or "%s.%s" % (short(f.q), member)
        if len([1 for g in F.find(f.q)]) > 1:
            k += "#" + ",".join(short(strip_type(x["t"])).split("<")[0] for x in f.params)
        r.ob(rule, k, ok, f.loc(), "%s sets %s from %s, expected %s combined with %s %s" % (
            f.sig(), member, "; ".join("%s using %s" % (sorted(L), sorted(o)) for L, o in got) or "nothing", leaves, ops, why))
