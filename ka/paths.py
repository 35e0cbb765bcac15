"""Must-pass-through searches ("cut" dataflow) on the CFG, interprocedural.

A rule supplies `edge(view, atom, pol)` (does this branch outcome discharge the
obligation?) and `stop(view, call)` (does this call discharge it?).  escape()
returns a path from the entry to the target that nothing discharges, or None.
Boolean locals are carried as formulas over branch atoms, helpers are entered
with their arguments substituted, and a helper that cannot return normally ends
the path."""
from .core import *


class Rule:
    depth = 5

    def edge(self, view, atom, pol, ast):
        return False

    def stop(self, view, call):
        return False

    def assume(self, view, atom, ast):
        """fix a branch outcome (finite-domain case split) or None"""
        return None

    def enter(self, f):
        return True

    def node(self, view, n):
        """does executing this CFG node discharge the obligation?"""
        return False

    # per-loop assumption: loops over this range run at least once
    def loop_runs(self, view, rng):
        return False


class Search:
    def __init__(self, F, rule):
        self.F = F
        self.R = rule
        self.memo = {}
        self.functions = set()
        self.branches = 0

    # ---------------- formulas for boolean values
    def formula(self, view, e, env):
        while True:
            k = e.get("k")
            if k in ("icast", "cast") and isinstance(e.get("e"), dict):
                e = e["e"]
                continue
            if k == "call" and e.get("conv"):
                e = e["obj"]
                continue
            break
        if k == "bool":
            return ("lit", e["v"])
        if k == "op" and e.get("bi"):
            o = e["o"]
            if o == "!":
                return neg(self.formula(view, e["a"][0], env))
            if o in ("&&", "||") or (o in ("&", "|") and strip_type(e.get("t")) in ("bool", "int") and all(isbool(x) for x in e["a"])):
                return (("and" if o[0] == "&" else "or"), self.formula(view, e["a"][0], env), self.formula(view, e["a"][1], env))
            if o in ("==", "!=") and any(x.get("k") == "bool" for x in e["a"]):
                a, b = e["a"]
                lit, oth = (a, b) if a.get("k") == "bool" else (b, a)
                f = self.formula(view, oth, env)
                return f if (lit["v"] == (o == "==")) else neg(f)
        if k == "cond":
            c = self.formula(view, e["c"], env)
            return ("or", ("and", c, self.formula(view, e["x"], env)), ("and", neg(c), self.formula(view, e["y"], env)))
        if k == "ref" and e.get("dk") in ("local", "param") and strip_type(e.get("t")) == "bool":
            d = e.get("d")
            for dd, f in env:
                if dd == d:
                    return f
            if d in view.defs and e.get("dk") == "local" and not view.multi(d):
                return self.formula(view, view.defs[d][0], env)
            bf = getattr(view, "bindf", {}).get(view.pidx.get(d))
            if bf is not None and d not in view.assigned_params:
                return bf
        return ("leaf", Leaf(view, e))

    def decide(self, f):
        """constant value of a formula or None"""
        t = f[0]
        if t == "lit":
            return f[1]
        if t == "not":
            v = self.decide(f[1])
            return None if v is None else not v
        if t in ("and", "or"):
            a, b = self.decide(f[1]), self.decide(f[2])
            if t == "and":
                if a is False or b is False:
                    return False
                if a is True and b is True:
                    return True
            else:
                if a is True or b is True:
                    return True
                if a is False and b is False:
                    return False
            return None
        lf = f[1]
        atom, pol, ast = lf.atom()
        v = const_atom(atom)
        if v is None:
            v = self.R.assume(lf.view, atom, ast)
        if v is None:
            return None
        return v if pol else not v

    def discharges(self, f, want, depth):
        """does formula f having value `want` discharge the obligation?"""
        t = f[0]
        if t == "lit":
            return f[1] != want  # infeasible
        if t == "not":
            return self.discharges(f[1], not want, depth)
        if t in ("and", "or"):
            a, b = self.decide(f[1]), self.decide(f[2])
            every = (t == "and") == want  # all conjuncts hold -> any suffices
            x = self.discharges(f[1], want, depth)
            if every:
                return x or self.discharges(f[2], want, depth)
            # at least one of the two has value want; the ones decided otherwise drop out
            if a is not None and a != want:
                return self.discharges(f[2], want, depth)
            if b is not None and b != want:
                return x
            return x and self.discharges(f[2], want, depth)
        lf = f[1]
        atom, pol, ast = lf.atom()
        self.branches += 1
        if self.R.edge(lf.view, atom, pol == want, ast):
            return True
        if ast.get("k") == "call" and depth < self.R.depth:
            r = self.call_bool(lf.view, ast, pol == want, depth)
            if r:
                return True
        return False

    # ---------------- calls
    def sub(self, view, g, args, obj, env=()):
        bind, bindf = {}, {}
        for i, p in enumerate(g.params):
            if i < len(args) and args[i] is not None:
                a = args[i]
                bind[i] = view.canon(a)
                if strip_type(p["t"]) == "bool":
                    bindf[i] = self.formula(view, a, env)
        this = obj if obj is not None else "this"
        key = (g.fid, tuple(sorted(bind.items())), this)
        v = View(self.F, g, bind, this)
        v.bindf = bindf
        v.caller = view
        return v, key

    def callees(self, view, n):
        """[(Func, args, obj canon)] a call/ctor/make_shared node certainly enters one of"""
        if n.get("k") == "call" and not n.get("fid"):
            return []
        made = self.F.made(n)
        if made:
            nargs = len(n.get("a", []))
            made = [g for g in made if len(g.params) == nargs or all("def" in p for p in g.params[nargs:])]
            if len(made) > 1:
                # pick by argument types
                def score(g):
                    s = 0
                    for p, a in zip(g.params, n["a"]):
                        if strip_type(p["t"]).split("::")[-1] == strip_type(expr_type(view, strip_copy(a))).split("::")[-1]:
                            s += 1
                    return s
                best = max(score(g) for g in made)
                made = [g for g in made if score(g) == best]
            return [(g, n.get("a", []), "new") for g in made]
        if n.get("k") == "op" and n.get("o") == "()" and n.get("a"):
            return []
        ts = self.F.targets(n)
        if n.get("virt") and self.F.methods.get(n["fid"], {}).get("pure") is None and not ts:
            return []
        obj = None
        if "obj" in n:
            obj = view.canon(n["obj"])
        elif n.get("k") == "ctor":
            obj = "this"
        a = n.get("a", [])
        if n.get("k") == "op" and ts and ts[0].cls:
            obj = view.canon(a[0])
            a = a[1:]
        return [(g, a, obj) for g in ts]

    def call_done(self, view, n, depth, env=()):
        """('stop'|'ends'|None) effect of a call node on the path"""
        if self.R.stop(view, n):
            return "stop"
        if depth >= self.R.depth:
            return None
        lam = self.lambda_of(view, n)
        if lam is not None:
            return self.block_done(view, lam, n, depth)
        cs = self.callees(view, n)
        if not cs:
            return None
        res = []
        for g, a, obj in cs:
            if not self.R.enter(g):
                return None
            v, key = self.sub(view, g, a, obj, env)
            mk = ("x", key)
            if mk not in self.memo:
                self.memo[mk] = "wip"
                p, normal = self.escape_view(v, None, depth + 1)
                self.memo[mk] = None if p is not None else ("stop" if normal else "ends")
            r = self.memo[mk]
            if r == "wip":
                r = None
            if r is None:
                return None
            res.append(r)
        return "stop" if "stop" in res else "ends"

    def lambda_of(self, view, n):
        if n.get("k") == "op" and n.get("o") == "()" and n.get("a"):
            c = n["a"][0]
            c = strip_copy(c)
            if c.get("k") == "lambda":
                return c
            if c.get("k") == "ref" and c.get("d") in view.defs and not view.multi(c["d"]):
                d = strip_copy(view.defs[c["d"]][0])
                if d.get("k") == "lambda":
                    return d
        return None

    def block_done(self, view, lam, n, depth):
        v = LamView(view, lam, n)
        mk = ("lam", id(lam), tuple(v.canon(a) for a in n["a"][1:]), view.this, tuple(sorted(view.bind.items())))
        if mk in self.memo:
            return None if self.memo[mk] == "wip" else self.memo[mk]
        self.memo[mk] = "wip"
        g = CFG(view.f, body=lam["body"])
        p, normal = self.escape_cfg(v, g, None, depth + 1)
        self.memo[mk] = None if p is not None else ("stop" if normal else "ends")
        return self.memo[mk]

    def call_bool(self, view, n, want, depth):
        alg = last(n.get("f") or "")
        if alg in ("any_of", "all_of", "none_of") and (n.get("f") or "").startswith("std::") and len(n.get("a", [])) == 3:
            b, lam = strip_copy(n["a"][0]), strip_copy(n["a"][2])
            if b.get("k") == "call" and last(b.get("f") or "") in ("begin", "cbegin") and "obj" in b:
                if lam.get("k") == "ref" and lam.get("d") in view.defs and not view.multi(lam["d"]):
                    lam = strip_copy(view.defs[lam["d"]][0])
                if lam.get("k") == "lambda":
                    v = LamView(view, lam, {"a": [None]})
                    for p in lam.get("params", [])[:1]:
                        v.lamb[p["d"]] = "each(%s)" % view.canon(b["obj"])
                    g = CFG(view.f, body=lam["body"])
                    p, _ = self.escape_cfg(v, g, (not want) if alg == "none_of" else want, depth + 1)
                    return p is None
            return False
        lam = self.lambda_of(view, n)
        if lam is not None:
            v = LamView(view, lam, n)
            g = CFG(view.f, body=lam["body"])
            p, _ = self.escape_cfg(v, g, want, depth + 1)
            return p is None
        cs = self.callees(view, n)
        if not cs:
            return False
        for g, a, obj in cs:
            if strip_type(g.rt) != "bool" or not self.R.enter(g):
                return False
            v, key = self.sub(view, g, a, obj)
            mk = ("b", key, want)
            if mk not in self.memo:
                self.memo[mk] = False
                p, normal = self.escape_view(v, want, depth + 1)
                self.memo[mk] = p is None
            if not self.memo[mk]:
                return False
        return True

    # ---------------- path search
    def escape_view(self, view, want, depth, targets=None):
        return self.escape_cfg(view, cfg(view.f), want, depth, targets)

    def escape(self, f, targets=None, want=None, bind=None):
        v = View(self.F, f, bind) if bind else self.F.view(f)
        p, normal = self.escape_cfg(v, cfg(f), want, 0, targets)
        return p

    def escape_cfg(self, view, g, want, depth, targets=None):
        """(path or None, any normal exit reached?)
        targets: predicate(view, cfgnode) ends the search successfully (escape found) *at* that node,
        before its own effects; default: the normal exit (with return value `want` if given)."""
        self.functions.add(view.f.fid)
        start = (g.entry, ())
        prev = {self.key(start): None}
        st = [start]
        normal = False
        while st:
            s = st.pop()
            n, env = s
            if targets is not None and targets(view, n):
                return self.mkpath(prev, s), True
            if n is g.exit:
                normal = True
                if targets is None and want is None:
                    return self.mkpath(prev, s), True
                continue
            if n is g.exc:
                continue
            outs = self.step(view, n, env, depth, want, g)
            if outs == "ret":  # returned with the wanted value, undischarged
                return self.mkpath(prev, s), True
            for m, e2 in outs:
                s2 = (m, e2)
                if self.key(s2) not in prev:
                    prev[self.key(s2)] = s
                    st.append(s2)
            if n.kind == "return" :
                normal = True
        return None, normal

    @staticmethod
    def key(s):
        return (s[0].id, s[1])

    def mkpath(self, prev, s):
        out = []
        while s is not None:
            out.append(s[0])
            s = prev[self.key(s)]
        return list(reversed(out))

    def step(self, view, n, env, depth, want, g):
        ast = n.ast
        exc = [m for m, lab in n.succ if lab == "exc"]
        norm = [(m, lab) for m, lab in n.succ if lab != "exc"]
        outs = [(m, env) for m in exc] if n.kind != "throw" else []
        if n.kind == "throw":
            return [(m, env) for m, lab in n.succ]
        if self.R.node(view, n):
            return outs
        body = None
        if n.kind == "eval":
            body = ast
        elif n.kind == "decl":
            body = ast.get("i")
        elif n.kind == "return":
            body = ast.get("e")
        elif n.kind == "cond":
            body = ast
        elif n.kind == "switch":
            body = ast["c"]
        if body is not None:
            for c in postorder(body):
                if c.get("k") in ("call", "ctor") or (c.get("k") == "op" and (c.get("fid") or c.get("o") == "()")):
                    if n.kind in ("cond", "return") and c is unwrap(body) and strip_type(c.get("t")) == "bool":
                        # value decides; the unconditional effect still counts
                        pass
                    r = self.call_done(view, c, depth, env)
                    if r:
                        return outs
        # boolean locals
        if n.kind == "decl" and strip_type(ast.get("t")) == "bool" and ast.get("i") is not None and not ast.get("static"):
            if view.multi(ast["d"]):
                env = setenv(env, ast["d"], self.formula(view, ast["i"], env))
        elif n.kind == "eval" and ast.get("k") == "op" and ast.get("bi") and ast["o"] in ("=", "|=", "&="):
            t = ast["a"][0]
            if t.get("k") == "ref" and t.get("dk") in ("local", "param") and strip_type(t.get("t")) == "bool":
                f = self.formula(view, ast["a"][1], env)
                if ast["o"] != "=":
                    old = self.formula(view, t, env)
                    f = (("and" if ast["o"] == "&=" else "or"), old, f)
                env = setenv(env, t["d"], f)
        if n.kind == "return":
            if want is not None:
                e = ast.get("e")
                if e is None:
                    return "ret"
                f = self.formula(view, e, env)
                v = self.decide(f)
                if v is not None and v != want:
                    return outs
                if self.discharges(f, want, depth):
                    return outs
                return "ret"
            return outs + [(m, env) for m, _ in norm]
        if n.kind == "cond":
            f = self.formula(view, ast, env)
            v = self.decide(f)
            if v is None:
                rr = self.loop_range(view, ast)
                if rr is not None:
                    must, env = self.first(view, n, rr, env)
                    if must:
                        v = True
            for m, lab in norm:
                if v is not None and v != lab:
                    continue
                if self.discharges(f, lab, depth):
                    continue
                e2 = env
                if ast.get("k") == "ref" and ast.get("dk") in ("local",) and view.multi(ast.get("d")):
                    e2 = setenv(env, ast["d"], ("lit", lab)) if f[0] != "leaf" or True else env
                outs.append((m, e2))
            return outs
        if n.kind == "switch":
            for m, lab in norm:
                if self.sw_cut(view, ast, lab, depth):
                    continue
                outs.append((m, env))
            return outs
        if n.kind == "rfor":
            must, e2 = self.first(view, n, view.canon(ast["r"]), env)
            for m, lab in norm:
                if must and lab is False:
                    continue
                outs.append((m, e2))
            return outs
        for m, lab in norm:
            outs.append((m, env))
        return outs

    def first(self, view, n, rng, env):
        k = "~%d" % n.id
        if any(x[0] == k for x in env) or not self.R.loop_runs(view, rng):
            return False, env
        return True, setenv(env, k, ("lit", True))

    def loop_range(self, view, ast):
        if ast.get("k") == "op" and ast["o"] in ("<", "!=") and len(ast.get("a", [])) == 2:
            l = strip_copy(ast["a"][0])
            if l.get("k") == "ref" and l.get("d") in view.idx:
                return view.canon(view.idx[l["d"]])
        return None

    def sw_cut(self, view, sw, lab, depth):
        """switch edge: discharged or infeasible?"""
        c = sw["c"]
        def leaf(v):
            return {"k": "op", "bi": True, "o": "==", "a": [c, v], "l": sw["l"], "t": "bool"}
        if isinstance(lab, tuple) and lab[0] == "case":
            f = ("leaf", Leaf(view, leaf(lab[1])))
            v = self.decide(f)
            return v is False or self.discharges(f, True, depth)
        if isinstance(lab, tuple) and lab[0] in ("default", "nocase"):
            for x in lab[1]:
                f = ("leaf", Leaf(view, leaf(x)))
                v = self.decide(f)
                if v is True or self.discharges(f, False, depth):
                    return True
            if lab[0] in ("nocase", "default"):
                # all enumerators covered?
                en = self.F.enums.get(strip_type(sw.get("ct")))
                if en and {short(x["q"]) for x in en["c"]} <= {view.canon(x) for x in lab[1]}:
                    return True
        return False


def const_atom(atom):
    """truth of an atom over constants: two enumerators of one type, two integer literals, null against null"""
    op, a, b = atom
    if op == "==" and a != b:
        i, j = a.rfind("::"), b.rfind("::")
        if i > 0 and a[:i] == b[:j] and a.replace(":", "").isalnum() and b.replace(":", "").isalnum():
            return False
    if op == "null" and a == "null":
        return True
    if op in ("==", "<"):
        try:
            x, y = int(a), int(b)
            return x == y if op == "==" else x < y
        except ValueError:
            return None
    return None


def unwrap(e):
    while isinstance(e, dict) and e.get("k") in ("icast", "cast"):
        e = e["e"]
    return e


def isbool(x):
    x = unwrap(x)
    return x.get("k") == "bool" or strip_type(x.get("t")) == "bool"


def neg(f):
    if f[0] == "lit":
        return ("lit", not f[1])
    if f[0] == "not":
        return f[1]
    return ("not", f)


def setenv(env, d, f):
    if size(f) > 40:
        f = None
    e = [x for x in env if x[0] != d]
    if f is not None:
        e.append((d, f))
    return tuple(sorted(e, key=lambda x: str(x[0])))


def size(f):
    if f[0] in ("and", "or"):
        return 1 + size(f[1]) + size(f[2])
    if f[0] == "not":
        return 1 + size(f[1])
    return 1


class Leaf:
    __slots__ = ("view", "ast", "_a", "_k")

    def __init__(self, view, ast):
        self.view = view
        self.ast = ast
        self._a = None
        self._k = None

    def atom(self):
        if self._a is None:
            self._a = atoms_norm(self.view, self.ast)
        return self._a

    def key(self):
        if self._k is None:
            a = self.atom()
            self._k = (a[0], a[1])
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Leaf) and self.key() == o.key()

    def __repr__(self):
        return repr(self.key())


class LamView(View):
    def __init__(self, outer, lam, call):
        self.__dict__.update(outer.__dict__)
        self.lamb = {}
        for p, a in zip(lam.get("params", []), call["a"][1:]):
            self.lamb[p["d"]] = outer.canon(a)
        self.outer = outer

    def canon(self, e, depth=0):
        if isinstance(e, dict) and e.get("k") == "ref" and e.get("d") in self.lamb:
            return self.lamb[e["d"]]
        return View.canon(self, e, depth)


def postorder(e):
    """evaluation-ish order of sub-expressions, not entering lambdas or short-circuited operands"""
    if not isinstance(e, dict):
        return
    k = e.get("k")
    if k == "lambda":
        return
    if k == "op" and e.get("o") in ("&&", "||") and e.get("bi"):
        yield from postorder(e["a"][0])
        return
    if k == "cond":
        yield from postorder(e["c"])
        return
    for c in kids(e):
        yield from postorder(c)
    yield e


def show(f, path):
    """compact witness: the lines of the branch decisions along the path"""
    ls = []
    for i, n in enumerate(path):
        if n.kind in ("cond", "switch", "return", "rfor") and n.ast:
            nxt = path[i + 1] if i + 1 < len(path) else None
            lab = ""
            for m, l in n.succ:
                if m is nxt:
                    lab = {True: "T", False: "F"}.get(l, "case" if isinstance(l, tuple) else "")
                    break
            ls.append("%s%s" % (n.ast.get("l"), lab))
    return "%s: entry>%s>exit" % (f.file, ">".join(ls))
