"""Parallel passes: lockset analysis over the code the worker lambdas reach."""
from ..core import *
from ..effects import ModRef, effects, root

VIS = "kratos::IRVisitor"
LOCKS = ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")
SYNC_T = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::atomic", "std::once_flag", "std::shared_timed_mutex", "std::condition_variable")
SHARED_CLASSES = ("kratos::Context",)


def is_push(n):
    q = n.get("f") or ""
    return (n.get("k") == "call" and (q.endswith("thread_pool::push") or q == "std::async")) or \
           (n.get("k") == "ctor" and strip_type(n.get("t")) in ("std::thread", "std::jthread"))


def lambdas_of(view, n):
    out = []
    for a in n.get("a", []):
        a = strip_copy(a)
        for x in walk(a):
            if x.get("k") == "lambda":
                out.append(x)
                break
        else:
            if a.get("k") == "ref" and a.get("d") in view.defs:
                for d in view.defs[a["d"]]:
                    for x in walk(d):
                        if x.get("k") == "lambda":
                            out.append(x)
                            break
    return out


class Locks:
    """nodes of a function (or lambda body) annotated with the mutexes held there"""

    def __init__(self, view, roots):
        self.view = view
        self.out = []  # (node, frozenset)
        self.unreleased = []
        for r in roots:
            self.st(r, set())

    def mname(self, e):
        r = root(self.view, e)
        if r[0] == "field":
            return ("field", r[1], self.view.canon(r[2]))
        if r[0] == "global":
            return ("global", r[1])
        return ("local", self.view.canon(e))

    def ex(self, e, held):
        """expression: record nodes; returns held (mutated by lock()/unlock())"""
        if e is None:
            return
        st = [e]
        while st:
            n = st.pop()
            if not isinstance(n, dict):
                continue
            if n.get("k") == "lambda":
                # runs in place for algorithms; conservatively keeps the locks held here
                self.out.append((n, frozenset(held)))
                self.st(n["body"], set(held))
                continue
            if n.get("k") == "call" and n.get("f") == "std::call_once":
                continue  # runs once, serialised
            if n.get("k") == "call" and "obj" in n:
                f = last(n.get("f"))
                t = strip_type(n.get("ot"))
                if f in ("lock", "unlock", "lock_shared", "unlock_shared") and t.startswith(("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::unique_lock", "std::timed_mutex")):
                    ob = n["obj"]
                    if t.startswith("std::unique_lock"):
                        ms = getattr(self, "uniq", {}).get(self.view.canon(ob), [])
                    else:
                        ms = [self.mname(ob)]
                    for m in ms:
                        if f.startswith("lock"):
                            held.add(m)
                        else:
                            held.discard(m)
                    self.out.append((n, frozenset(held)))
                    continue
            self.out.append((n, frozenset(held)))
            st.extend(reversed(list(kids(n))))

    def st(self, s, held):
        if s is None:
            return
        k = s.get("k")
        if k == "block":
            h = set(held)
            added = set()
            for x in s["b"]:
                if x.get("k") == "decl":
                    for v in x["v"]:
                        t = strip_type(v.get("t"))
                        if v.get("static"):
                            continue  # runs once, serialised by the compiler's guard
                        self.ex(v.get("i"), h)
                        if t.startswith(LOCKS):
                            i = v.get("i") or {}
                            ms = []
                            args = i.get("a", []) if i.get("k") == "ctor" else [i]
                            if any("defer_lock" in (y.get("t") or "") for y in args if y):
                                args = []
                            for y in args:
                                if y and any(z in (y.get("t") or "") for z in ("mutex",)):
                                    ms.append(self.mname(y))
                            for m in ms:
                                if m not in h:
                                    added.add(m)
                                h.add(m)
                            self.uniq = getattr(self, "uniq", {})
                            self.uniq["%" + v["n"]] = ms
                else:
                    self.st(x, h)
            # scoped guards release here; manual lock()/unlock() persist
            h -= added
            held.clear()
            held.update(h)
            return
        if k == "expr":
            self.ex(s["e"], held)
        elif k == "decl":
            for v in s["v"]:
                if not v.get("static"):
                    self.ex(v.get("i"), held)
        elif k == "if":
            self.st(s.get("init"), held)
            if s.get("cv"):
                self.ex(s["cv"].get("i"), held)
            self.ex(s["c"], held)
            a, b = set(held), set(held)
            self.st(s["x"], a)
            self.st(s.get("y"), b)
            ta, tb = ends(s["x"]), ends(s.get("y"))
            if ta and not tb:
                r = b
            elif tb and not ta:
                r = a
            else:
                r = a & b
            held.clear()
            held.update(r)
        elif k in ("for", "while", "do"):
            self.st(s.get("init"), held)
            if s.get("cv"):
                self.ex(s["cv"].get("i"), held)
            self.ex(s.get("c"), held)
            self.ex(s.get("inc"), held)
            h = set(held)
            self.st(s["b"], h)
            r = h & held
            held.clear()
            held.update(r)
        elif k == "rfor":
            self.ex(s["r"], held)
            h = set(held)
            self.st(s["b"], h)
            r = h & held
            held.clear()
            held.update(r)
        elif k == "switch":
            self.ex(s["c"], held)
            h = set(held)
            self.st(s["b"], h)
            r = h & held
            held.clear()
            held.update(r)
        elif k in ("case", "default"):
            self.st(s["b"], held)
        elif k == "return":
            self.ex(s.get("e"), held)
        elif k == "try":
            self.st(s["b"], held)
            for h in s["h"]:
                self.st(h["b"], set(held))
        elif k == "ostmt":
            for x in s.get("b", []):
                self.st(x, held)
        elif k not in ("break", "continue", "nop"):
            self.ex(s, held)


def ends(s):
    """statement always leaves (return/throw/continue/break)"""
    if s is None:
        return False
    k = s.get("k")
    if k in ("return", "break", "continue"):
        return True
    if k == "expr":
        return s["e"].get("k") == "throw" or (s["e"].get("k") == "call" and last(s["e"].get("f") or "") in NORETURN)
    if k == "block":
        return any(ends(x) for x in s["b"])
    if k == "if":
        return bool(s.get("y")) and ends(s["x"]) and ends(s["y"])
    return False


class Region:
    def __init__(self, F, r, mr):
        self.F = F
        self.r = r
        self.mr = mr
        self.info = {}
        self.acc = {}     # shared location -> list of (mode, lockset, func, node, entry)
        self.vish = self.visitorish()

    def visitorish(self):
        F = self.F
        vis = set(F.subclasses(VIS))
        base = set()
        for f in F.all:
            if f.cls in vis or any(pointee(p["t"]) in vis for p in f.params):
                base.add(f.fid)
        cg = F.callgraph()
        rev = {}
        for a, s in cg.items():
            for b in s:
                rev.setdefault(b, []).append(a)
        st = list(base)
        while st:
            x = st.pop()
            for y in rev.get(x, []):
                if y not in base:
                    base.add(y)
                    st.append(y)
        return base

    def finfo(self, f):
        if f.fid not in self.info:
            view = self.F.view(f)
            lk = Locks(view, list(f.roots()))
            eff = {}
            for e in self.mr.eff.get(f.fid, []):
                if e[0] == "A":
                    if self.mr.arg_mod(e[2], e[3]):
                        eff.setdefault(id(e[2]), []).append(("W", e[1], e[2]))
                elif e[0] == "T":
                    if self.mr.obj_mod(e[2]):
                        eff.setdefault(id(e[2]), []).append(("W", e[1], e[2]))
                else:
                    eff.setdefault(id(e[2]), []).append((e[0], e[1], e[2]))
            self.info[f.fid] = (view, lk.out, eff)
        return self.info[f.fid]

    def run(self, entry, f, lam, ctx, driver_shared_locals=True):
        """explore from worker lambda `lam` inside function f with visitor context ctx"""
        F = self.F
        self.seen = set()
        self.work = []
        if isinstance(lam, Func):
            self.push(lam, None, frozenset())
            self.drain(entry)
            return
        view = F.view(f)
        nodes = Locks(view, [lam["body"]]).out
        inside = set()
        for n in walk(lam):
            if n.get("k") == "decl":
                for v in n["v"]:
                    inside.add(v["d"])
            if n.get("k") == "rfor":
                inside.add(n["v"]["d"])
            for p in n.get("params", []) if n.get("k") == "lambda" else []:
                inside.add(p["d"])
        eff = {}
        for e in effects(F, f, lam["body"]):
            if e[0] == "A":
                if self.mr.arg_mod(e[2], e[3]):
                    eff.setdefault(id(e[2]), []).append(("W", e[1], e[2]))
            elif e[0] == "T":
                if self.mr.obj_mod(e[2]):
                    eff.setdefault(id(e[2]), []).append(("W", e[1], e[2]))
            else:
                eff.setdefault(id(e[2]), []).append((e[0], e[1], e[2]))
        caps = {c.get("d") for c in lam.get("caps", []) if c.get("r")}
        self.visit_nodes(entry, f, view, nodes, eff, ctx, frozenset(), (inside, lam.get("def") == "&", caps))
        self.drain(entry)

    def drain(self, entry):
        while self.work:
            g, c, ls = self.work.pop()
            v, out, ef = self.finfo(g)
            self.r.saw(g)
            self.visit_nodes(entry, g, v, out, ef, c, ls, None)

    def locname(self, f, view, rt, ctx, lam):
        """shared location of an effect root, or None"""
        F = self.F
        if rt[0] == "global":
            q = rt[1]
            if not (q or "").startswith("kratos"):
                return None
            return ("global", q)
        if rt[0] == "field":
            b = rt[2]
            cls = rt[1].rsplit("::", 1)[0]
            if cls in SHARED_CLASSES:
                return ("field", rt[1])
            if b is not None and ctx and ctx[1]:
                cb = view.canon(b)
                if cb == view.this and f.cls and (F.is_a(ctx[0], f.cls) or f.cls == ctx[0]):
                    return ("field", rt[1])
            return None
        if rt[0] == "local" and lam is not None:
            inside, byref, caps = lam
            if rt[1] not in inside and (byref or rt[1] in caps):
                return ("captured", view.names.get(rt[1], "?"))
        if rt[0] == "param" and lam is not None:
            inside, byref, caps = lam
            d = view.f.params[rt[1]]["d"]
            if byref or d in caps:
                return ("captured", view.f.params[rt[1]]["n"])
        return None

    def visit_nodes(self, entry, f, view, nodes, eff, ctx, ls, lam):
        F = self.F
        for n, held in nodes:
            hl = ls | frozenset(self.lockname(h, f, view, ctx) for h in held)
            hl = frozenset(x for x in hl if x)
            for mode, rt, node in eff.get(id(n), []):
                loc = self.locname(f, view, rt, ctx, lam)
                if loc is None:
                    continue
                self.acc.setdefault((entry, loc) if loc[0] != "global" and not (loc[0] == "field" and loc[1].rsplit("::", 1)[0] in SHARED_CLASSES) else ("*", loc), []).append((mode, hl, f, node, entry))
            k = n.get("k")
            if k in ("call", "ctor", "op") and (n.get("fid")):
                self.call(f, view, n, ctx, hl, lam)
            elif k in ("ref", "memfn") and n.get("fid"):
                # function used as a value (callback)
                for t in F.targets(n):
                    self.push(t, ctx if t.fid in self.vish else None, hl)

    def lockname(self, h, f, view, ctx):
        if h[0] == "field":
            if ctx and ctx[1] and h[2] == view.this and f.cls and F_is(self.F, ctx[0], f.cls):
                return ("field", h[1])
            return None  # member of some other, per-thread object
        if h[0] == "global":
            return h
        return ("captured", h[1])

    def push(self, g, ctx, ls):
        if g.body is None and not g.inits:
            return
        key = (g.fid, ctx, ls)
        if key in self.seen:
            return
        self.seen.add(key)
        self.work.append((g, ctx, ls))

    def call(self, f, view, n, ctx, ls, lam):
        F = self.F
        ts = list(F.targets(n)) + F.made(n)
        if not ts:
            return
        vis = F.subclasses(VIS)
        nctx = ctx
        exact = None
        if "obj" in n:
            ot = strip_type(n.get("ot"))
            if ot in vis:
                ob = strip_copy(n["obj"])
                rt = root(view, ob)
                val = not (n.get("ot") or "").rstrip().endswith("*")
                if ob.get("k") == "this" or view.canon(ob) == view.this:
                    exact = ctx[0] if ctx and f.cls and F_is(F, ctx[0], f.cls) else ot
                    nctx = ctx if ctx and f.cls and F_is(F, ctx[0], f.cls) else (ot, False)
                elif rt[0] == "local" and val:
                    exact = ot
                    nctx = (ot, False)
                elif ctx and F.is_a(ctx[0], ot):
                    exact = ctx[0]
                else:
                    nctx = None
        for a in n.get("a", []):
            if a is None or pointee(expr_type(view, strip_copy(a))) not in vis and strip_copy(a).get("k") != "this":
                s = strip_copy(a) if a else {}
                if not (s.get("k") == "op" and s.get("o") == "&"):
                    continue
            s = strip_copy(a)
            if s.get("k") == "op" and s.get("o") == "&" and len(s["a"]) == 1:
                x = s["a"][0]
                t = strip_type(expr_type(view, x))
                if t in vis:
                    nctx = (t, False) if root(view, x)[0] == "local" else ctx
        if exact and n.get("virt"):
            t = F.resolve(exact, n["fid"])
            ts = [t] if t is not None else ts
        for t in ts:
            if t is None:
                continue
            c = nctx if t.fid in self.vish else None
            if c is not None and t.isctor and t.cls in vis:
                c = (t.cls, False)
            self.push(t, c, ls)


def F_is(F, a, b):
    return a == b or F.is_a(a, b)


def sync_type(t):
    t = strip_type(t)
    return t.startswith(SYNC_T)


def run(F, r, tier):
    r.rule("shared-write-locked", "every write, in code reachable from a worker lambda, to a member of the visitor all workers share, to a captured local, to the shared context or to a process-wide variable holds a mutex that belongs to that shared state", 10)
    r.rule("shared-read-locked", "a location the workers write is also read only under the same mutex", 1)
    r.rule("lock-released", "a mutex locked by hand is unlocked on every path out of the function", 3)
    mr = ModRef(F)
    reg = Region(F, r, mr)
    drivers = []
    for f in F.all:
        if f.body is None:
            continue
        for n in f.nodes():
            if is_push(n):
                for lam in lambdas_of(F.view(f), n):
                    drivers.append((f, lam, n))
                for a in n.get("a", []):
                    a = strip_copy(a) if a else {}
                    if a.get("k") == "op" and a.get("o") == "&":
                        a = a["a"][0]
                    if a.get("k") == "ref" and a.get("dk") == "func":
                        for t in F.targets(a):
                            drivers.append((f, t, n))
    if len(drivers) < 3:
        raise AnalysisError("only %d thread-pool dispatch sites found" % len(drivers))
    vis = set(F.subclasses(VIS))
    entries = []
    for f, lam, n in drivers:
        r.saw(f)
        if isinstance(lam, Func):
            entries.append(("%s worker" % short(lam.q), f, lam, None, f, n))
            continue
        if f.cls in vis:
            # every call of the driver names the visitor type that is shared
            for g in F.all:
                if g.body is None:
                    continue
                for c in g.nodes():
                    if c.get("k") == "call" and c.get("fid") and f.fid in F.overriders(c["fid"]) and "obj" in c:
                        t = strip_type(c.get("ot"))
                        t = pointee(t) if t not in vis else t
                        ob = strip_copy(c["obj"])
                        if ob.get("k") == "this" and g.cls in vis:
                            for s in F.subclasses(g.cls):
                                entries.append(("%s via %s" % (short(s), f.name), f, lam, (s, True), g, c))
                        elif t in vis:
                            entries.append(("%s via %s" % (short(t), f.name), f, lam, (t, True), g, c))
        else:
            entries.append(("%s worker" % short(f.q), f, lam, None, f, n))
    names = set()
    for e in entries:
        if e[0] in names:
            continue
        names.add(e[0])
        r.saw(e[4])
        reg.run(e[0], e[1], e[2], e[3])
    r.note("%d dispatch sites, %d parallel regions (visitor type x driver), %d shared locations touched" % (len(drivers), len(names), len(reg.acc)))
    fieldt = {}
    for c in F.classes.values():
        for x in c["fields"]:
            fieldt[x["q"]] = x["t"]
    gt = {v["q"]: v for v in F.vars.values()}
    for (entry, loc), acc in sorted(reg.acc.items(), key=lambda x: str(x[0])):
        t = fieldt.get(loc[1]) if loc[0] == "field" else (gt.get(loc[1]) or {}).get("t")
        if t and (sync_type(t) or strip_type(t) != t and False):
            continue
        if loc[0] == "global":
            v = gt.get(loc[1])
            if v is not None and (v.get("cst") or v.get("tls")):
                continue
        ws = [a for a in acc if a[0] == "W"]
        if not ws:
            r.ob("shared-write-locked", "%s|%s" % (entry, short(loc[1])), True)
            continue
        common = None
        for a in ws:
            common = a[1] if common is None else common & a[1]
        bad = sorted((a for a in ws if not a[1] or not common), key=lambda a: (a[2].file, a[3].get("l", 0)))
        groups = {}
        for a in (bad or ws):
            groups.setdefault((a[2].q if loc[0] == "global" else a[4], loc[1]), a)
        for (who, _), a in groups.items():
            key = "%s|%s" % (short(who), short(loc[1]))
            r.ob("shared-write-locked", key, not bad, a[2].loc(a[3]),
                 "%s is written by %s, which runs on several threads at once (%s), without a lock on the shared state" % (short(loc[1]), a[2].sig(), a[4]))
        if not bad:
            rd = [a for a in acc if a[0] == "R" and not (a[1] & common)]
            a = rd[0] if rd else acc[0]
            r.ob("shared-read-locked", "%s|%s" % (entry, short(loc[1])), not rd, a[2].loc(a[3]),
                 "%s is read by %s without the mutex its writers hold (%s)" % (short(loc[1]), a[2].sig(), entry))
    # manual lock()/unlock() pairing
    from ..paths import Rule, Search, show
    for f in F.all:
        if f.body is None:
            continue
        view = F.view(f)
        for n in f.nodes():
            if n.get("k") == "call" and "obj" in n and last(n.get("f")) == "lock" and "mutex" in strip_type(n.get("ot")):
                m = view.canon(n["obj"])
                r.saw(f)
                g = cfg(f)
                start = None
                for x in g.nodes:
                    if x.ast is not None and x.kind in ("eval", "decl") and any(y is n for y in walk(x.ast)):
                        start = x
                # path from start to exit or throw without unlock
                leak = None
                if start is not None:
                    seen, st = set(), [y for y, lab in start.succ if lab != "exc"]
                    while st:
                        x = st.pop()
                        if x.id in seen:
                            continue
                        seen.add(x.id)
                        if x in (g.exit, g.exc):
                            leak = x
                            break
                        if x.ast is not None and x.kind in ("eval", "decl") and any(
                                y.get("k") == "call" and "obj" in y and last(y.get("f")) == "unlock" and view.canon(y["obj"]) == m for y in walk(x.ast)):
                            continue
                        st.extend(y for y, lab in x.succ if lab != "exc")
                r.ob("lock-released", "%s|%s" % (short(f.q), m), leak is None, f.loc(n),
                     "%s locks %s and can leave without unlocking it" % (f.sig(), m))
