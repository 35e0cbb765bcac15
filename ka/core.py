"""Fact base, canonical access paths, control-flow graphs and the path searches
every rule is written on.  Nothing here executes /repo; the input is the resolved
AST that tool/kfacts.cc prints."""
import glob, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KA_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
# facts of a scratch copy stay with the copy
FACTS = CACHE if "KA_REPO" not in os.environ else os.path.join(REPO, ".facts")


class AnalysisError(Exception):
    """The analysis cannot answer (vanished anchor, unparsable unit): error exit."""


# --------------------------------------------------------------------------
# extraction
def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def llvm_dir():
    for d in ("/usr/lib/llvm-18",) + tuple(sorted(glob.glob("/usr/lib/llvm-*"), reverse=True)):
        if os.path.exists(d + "/bin/llvm-config"):
            return d
    raise AnalysisError("no llvm")


def build_tool():
    src = os.path.join(HERE, "tool", "kfacts.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, "kfacts-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(CACHE, exist_ok=True)
    L = llvm_dir()
    flags = _run([L + "/bin/llvm-config", "--cxxflags"]).stdout.split()
    lib = sorted(glob.glob(L + "/lib/libclang-cpp.so*"))[0]
    llvm = sorted(glob.glob(L + "/lib/libLLVM-*.so"))[0]
    tmp = exe + ".%d.tmp" % os.getpid()
    r = _run(["clang++", "-O1", "-std=c++17", "-fno-rtti"] + flags + [src, "-o", tmp, lib, llvm])
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


def compile_args():
    return ["-std=c++17", "-DINCLUDE_FILESYSTEM", "-include", "cstdint",
            "-I" + os.path.join(HERE, "stubs"), "-I" + REPO + "/src",
            "-I" + REPO + "/extern/hgdb/include", "-I" + REPO + "/extern/fmt/include",
            "-w", "-resource-dir", llvm_dir() + "/lib/clang/18"]


def extract(sources=None):
    """Parse every translation unit of /repo/src; returns list of fact objects."""
    exe = build_tool()
    srcs = sources or sorted(glob.glob(REPO + "/src/*.cc"))
    if not srcs:
        raise AnalysisError("no sources under %s/src" % REPO)
    hdr = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*.hh") + glob.glob(REPO + "/src/*.h")) + [HERE + "/stubs/cxxpool.h", exe]:
        hdr.update(f.encode())
        hdr.update(open(f, "rb").read())
    hdr.update(" ".join(compile_args()).encode())
    os.makedirs(FACTS, exist_ok=True)

    def one(f):
        h = hdr.copy()
        h.update(f.encode())
        h.update(open(f, "rb").read())
        out = os.path.join(FACTS, os.path.basename(f) + "." + h.hexdigest()[:24] + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = _run([exe, "--root=" + REPO, "-o", tmp, f, "--"] + compile_args(), timeout=600)
            if r.returncode or not os.path.exists(tmp):
                raise AnalysisError("cannot parse %s:\n%s" % (f, r.stdout[-2000:]))
            for old in glob.glob(os.path.join(FACTS, os.path.basename(f) + ".*.json")):
                try:
                    os.remove(old)
                except OSError:
                    pass
            os.replace(tmp, out)
        return json.load(open(out))

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


# --------------------------------------------------------------------------
# AST helpers
CH = ("init", "cv", "c", "inc", "x", "y", "b", "e", "v", "r", "fe", "obj", "a", "h", "i", "body", "binds")


def kids(n):
    if isinstance(n, dict):
        for k in CH:
            if k in n:
                v = n[k]
                if isinstance(v, dict):
                    yield v
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict):
                            yield x


def walk(n, into_lambda=True):
    """pre-order over all dict nodes"""
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        yield x
        if x.get("k") == "lambda" and not into_lambda:
            continue
        st.extend(reversed(list(kids(x))))


def last(q):
    """unqualified name"""
    if q is None:
        return ""
    depth = 0
    i = len(q)
    while i > 1:
        i -= 1
        ch = q[i]
        if ch == ">":
            if i > 0 and q[i - 1] == "-":
                continue
            depth += 1
        elif ch == "<":
            depth -= 1
        elif ch == ":" and depth <= 0 and q[i - 1] == ":":
            return q[i + 1:]
    return q


def short(q):
    return (q or "").replace("kratos::", "")


class Func:
    __slots__ = ("j", "q", "fid", "file", "line", "params", "cls", "body", "ov", "virt", "isctor", "_view", "unit", "const", "static", "tmpl", "rt", "el", "defaulted", "deleted", "inits", "dtor", "_single")

    def __init__(self, j, unit):
        self.j = j
        self.q = j["q"]
        self.fid = j["fid"]
        self.file = j["file"]
        self.line = j["l"]
        self.el = j.get("el")
        self.params = j["params"]
        self.cls = j.get("cls")
        self.body = j.get("body")
        self.ov = j.get("ov", [])
        self.virt = j.get("virt", False)
        self.isctor = j.get("ctor", False)
        self.const = j.get("const", False)
        self.static = j.get("static", False)
        self.tmpl = j.get("tmpl", False)
        self.rt = j.get("rt")
        self.defaulted = j.get("defaulted", False)
        self.deleted = j.get("deleted", False)
        self.inits = j.get("inits", [])
        self.dtor = j.get("dtor", False)
        self.unit = unit
        self._view = None

    @property
    def name(self):
        return last(self.q)

    def sig(self):
        return short(self.q) + "(" + ", ".join(short(p["t"]) for p in self.params) + ")"

    def loc(self, n=None):
        return "%s:%s" % (self.file, (n or {}).get("l", self.line))

    def __repr__(self):
        return "<%s %s>" % (self.sig(), self.loc())

    def roots(self):
        """all code of the function: ctor initialisers then the body"""
        for i in self.inits:
            if i.get("e"):
                yield i["e"]
        if self.body:
            yield self.body

    def nodes(self, into_lambda=True):
        for r in self.roots():
            yield from walk(r, into_lambda)


class Facts:
    def __init__(self, tus=None):
        tus = tus if tus is not None else extract()
        self.units = [os.path.basename(t["main"]) for t in tus]
        self.funcs = {}
        self.all = []
        self.classes = {}
        self.enums = {}
        self.vars = {}
        seen = set()
        for t in tus:
            u = os.path.basename(t["main"])
            for j in t["funcs"]:
                key = (j["fid"], j["file"], j["l"])
                if key in seen:
                    continue
                seen.add(key)
                f = Func(j, u)
                self.all.append(f)
                if f.fid not in self.funcs or (f.body and not self.funcs[f.fid].body):
                    self.funcs[f.fid] = f
            for c in t["classes"]:
                if c["file"].endswith(".hh") or c["q"] not in self.classes:
                    self.classes.setdefault(c["q"], c)
            for e in t["enums"]:
                self.enums.setdefault(e["q"], e)
            for v in t["vars"]:
                if v.get("slocal"):
                    continue
                k = v["q"] + ("@" + v["file"] if v.get("slocal") else "")
                if k not in self.vars or v.get("def"):
                    self.vars[k] = v
        for f in self.all:
            for n in f.nodes():
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if v.get("static"):
                            self.vars[f.q + "::" + v["n"]] = dict(v, q=f.q + "::" + v["n"], slocal=True, file=f.file)
        self.byq = {}
        for f in self.all:
            self.byq.setdefault(f.q, []).append(f)
        self.methods = {}  # fid -> declaration record (also pure ones)
        for c in self.classes.values():
            for m in c["methods"]:
                m["cls"] = c["q"]
                self.methods[m["fid"]] = m
        self.subs = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.subs.setdefault(b, []).append(c["q"])
        self.unshadow()
        # overriders
        self.over = {}
        for m in self.methods.values():
            for o in m.get("ov", []):
                self.over.setdefault(o, []).append(m["fid"])
        self._callers = None

    def unshadow(self):
        """a field that hides a base class's field of the same name is a different location: give it a name of its own"""
        fields = {c["q"]: {x["n"] for x in c.get("fields", [])} for c in self.classes.values()}
        ren = {}
        for q, ns in fields.items():
            for b in self.bases(q):
                if b != q:
                    for n in ns & fields.get(b, set()):
                        ren["%s::%s" % (q, n)] = "%s_%s" % (last(q).lower(), n)
        for c in self.classes.values():
            for x in c.get("fields", []):
                if x.get("q") in ren:
                    x["n"] = ren[x["q"]]
                    x["q"] = "%s::%s" % (c["q"], x["n"])
        for f in self.all:
            for i in f.inits:
                if i.get("m") in ren:
                    i["m"] = i["m"].rsplit("::", 1)[0] + "::" + ren[i["m"]]
            for n in f.nodes():
                if n.get("k") == "mem" and n.get("q") in ren:
                    n["n"] = ren[n["q"]]
                    n["q"] = n["q"].rsplit("::", 1)[0] + "::" + n["n"]

    # ---- classes
    def subclasses(self, q, strict=False):
        out, st = [], [q]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.append(c)
            st.extend(self.subs.get(c, []))
        return [c for c in out if not (strict and c == q)]

    def bases(self, q):
        out, st = [], [q]
        while st:
            c = st.pop(0)
            if c in out:
                continue
            out.append(c)
            st.extend(self.classes.get(c, {}).get("bases", []))
        return out

    def is_a(self, q, base):
        return base in self.bases(q)

    def fields(self, q, inherited=False):
        r = list(self.classes.get(q, {}).get("fields", []))
        if inherited:
            for b in self.bases(q)[1:]:
                r += self.classes.get(b, {}).get("fields", [])
        return r

    # ---- functions
    def find(self, q, n=None, body=True):
        r = [f for f in self.byq.get(q, []) if (f.body is not None or not body)]
        if n is not None:
            r = [f for f in r if len(f.params) == n]
        return r

    def one(self, q, pred=None):
        r = [f for f in self.find(q) if pred is None or pred(f)]
        if not r:
            raise AnalysisError("anchor vanished: no definition of %s" % q)
        return r[0]

    def need(self, q):
        r = self.find(q)
        if not r:
            raise AnalysisError("anchor vanished: no definition of %s" % q)
        return r

    def overriders(self, fid):
        out, st = [], [fid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            st.extend(self.over.get(x, []))
        return out

    def targets(self, call, recv=None):
        """definitions a call node may reach (class-hierarchy analysis)"""
        fid = call.get("fid")
        if not fid:
            return []
        if call.get("virt"):
            ids = self.overriders(fid)
            ot = strip_type(call.get("ot"))
            if ot in self.classes:
                # restrict to the receiver's static type, its subclasses, and the inherited definition
                ok = set(self.subclasses(ot))
                sel = [i for i in ids if (self.methods.get(i) or {}).get("cls") in ok]
                inh = self.resolve(ot, fid)
                if inh and inh.fid not in sel:
                    sel.append(inh.fid)
                ids = sel or ids
        else:
            ids = [fid]
        r = []
        for i in ids:
            f = self.funcs.get(i)
            if f is not None and f.body is not None:
                r.append(f)
        return r

    def resolve(self, cls, fid):
        """the definition that objects of exactly class cls run for virtual fid"""
        fam = set(self.overriders(fid))
        # walk the root(s) up too
        root = set(fam)
        ch = True
        while ch:
            ch = False
            for i in list(root):
                for o in (self.methods.get(i) or {}).get("ov", []):
                    if o not in root:
                        root.add(o)
                        ch = True
        for o in list(root):
            root |= set(self.overriders(o))
        for c in self.bases(cls):
            for m in self.classes.get(c, {}).get("methods", []):
                if m["fid"] in root:
                    return self.funcs.get(m["fid"])
        return None

    def view(self, f):
        if f._view is None:
            f._view = View(self, f)
        return f._view

    def calls(self, f, into_lambda=True):
        for n in f.nodes(into_lambda):
            if n.get("k") in ("call", "ctor", "op", "ref", "memfn") and n.get("fid"):
                yield n

    def callgraph(self):
        if getattr(self, "_cg", None) is None:
            cg = {}
            for f in self.all:
                if f.body is None:
                    continue
                s = {}
                for n in self.calls(f):
                    for t in self.targets(n):
                        s.setdefault(t.fid, n)
                cg[f.fid] = s
                # make_shared<T>(...) runs a constructor of T
                for n in f.nodes():
                    for t in self.made(n):
                        s.setdefault(t.fid, n)
            self._cg = cg
        return self._cg

    def made(self, n):
        """constructors a make_shared/make_unique call may run"""
        if n.get("k") == "call" and last(n.get("f")) in ("make_shared", "make_unique") and n.get("targs"):
            c = n["targs"][0]
            return [g for g in self.find(c + "::" + last(c)) if g.isctor and len([p for p in g.params]) >= len(n.get("a", []))]
        return []

    def closure(self, roots, stop=()):
        """functions reachable from roots; fid -> (parent fid, call node)"""
        cg = self.callgraph()
        seen = {r.fid: (None, None) for r in roots}
        st = [r.fid for r in roots]
        while st:
            x = st.pop()
            for y, n in cg.get(x, {}).items():
                if y in seen or y in stop:
                    continue
                seen[y] = (x, n)
                st.append(y)
        return seen

    def callpath(self, seen, fid):
        out = []
        while fid is not None:
            p, n = seen[fid]
            out.append(self.funcs[fid])
            fid = p
        return list(reversed(out))


def strip_type(t):
    if not t:
        return ""
    t = t.strip()
    for p in ("const ", "volatile "):
        while t.startswith(p):
            t = t[len(p):]
    while t.endswith(("*", "&", " ", "const")):
        t = t[:-5] if t.endswith("const") else t[:-1]
    return t.strip()


def pointee(t):
    """kratos class behind T*, T&, shared_ptr<T>, unique_ptr<T>, weak_ptr<T>"""
    t = strip_type(t)
    for w in ("std::shared_ptr<", "std::unique_ptr<", "std::weak_ptr<", "std::enable_shared_from_this<"):
        if t.startswith(w):
            inner = t[len(w):-1]
            d = 0
            for i, ch in enumerate(inner):
                d += (ch == "<") - (ch == ">")
                if ch == "," and d == 0:
                    inner = inner[:i]
                    break
            return strip_type(inner)
    return t


# --------------------------------------------------------------------------
# canonical access paths
TRANSPARENT_CALLS = {"get", "operator->", "operator*", "move", "forward", "shared_from_this", "as", "static_pointer_cast",
                     "dynamic_pointer_cast", "reinterpret_pointer_cast", "const_pointer_cast", "lock", "ref", "cref", "as_const",
                     "addressof", "weak_from_this"}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def project(text, i):
    """component i of a pair/tuple given by its canonical text"""
    m = re.fullmatch(r"(?:std::(?:pair|tuple)[^{]*|)\{(.*)\}", text, re.S)
    if m:
        parts, d, cur = [], 0, ""
        for ch in m.group(1):
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            if ch == "," and d == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        parts.append(cur.strip())
        if i < len(parts) and len(parts) > 1:
            return parts[i]
    return "%s#%d" % (text, i)


def is_smart(t):
    t = strip_type(t)
    return t.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::weak_ptr<", "std::__shared_ptr", "std::reference_wrapper"))


class View:
    """canonicaliser for one function body; `bind` maps parameter index -> canonical text (when inlined)"""

    def __init__(self, facts, f, bind=None, this="this"):
        self.F = facts
        self.f = f
        self.bind = bind or {}
        self.this = this
        self.pidx = {p["d"]: i for i, p in enumerate(f.params)}
        self.defs = {}   # local id -> list of exprs (init and assignments)
        self.names = {}
        self.rng = {}    # loop variable id -> range expr
        self.binds = {}  # structured binding id -> (decl expr, index)
        self.decls = {}  # id -> decl node
        self.alias = {}  # ctor: member q -> canonical initialiser param
        self.assigned_params = set()
        self.byref = set()
        self.lambda_params = {}
        self.idx = {}    # counter / iterator of a loop over a whole container -> container expr
        self._scan()
        self._loops()

    def _loops(self):
        for n in self.f.nodes():
            if n.get("k") != "for":
                continue
            init, c, inc = n.get("init"), n.get("c"), n.get("inc")
            if not init or not c or not inc or init.get("k") != "decl":
                continue
            v = init["v"][0]
            while c.get("k") in ("icast", "cast"):
                c = c["e"]
            if c.get("k") != "op" or c["o"] not in ("<", "!=") or len(c.get("a", [])) != 2:
                continue
            l, rr = strip_copy(c["a"][0]), strip_copy(c["a"][1])
            if l.get("k") != "ref" or l.get("d") != v["d"]:
                continue
            if inc.get("k") != "op" or inc["o"] not in ("++", "post++"):
                continue
            i = strip_copy(v.get("i") or {})
            if rr.get("k") == "ref" and rr.get("dk") == "local" and len(self.defs.get(rr["d"], [])) == 1:
                rr = strip_copy(self.defs[rr["d"]][0])
            if rr.get("k") != "call" or "obj" not in rr or rr.get("a"):
                continue
            f = last(rr.get("f") or "")
            if f == "size" and i.get("k") == "int" and i["v"] == "0":
                self.idx[v["d"]] = rr["obj"]
            elif f in ("end", "cend") and i.get("k") == "call" and last(i.get("f") or "") in ("begin", "cbegin"):
                self.idx[v["d"]] = rr["obj"]
                self.rng[v["d"]] = rr["obj"]

    def _scan(self):
        for n in self.f.nodes():
            k = n.get("k")
            vs = []
            if k == "decl":
                vs = n["v"]
            elif k in ("if", "while", "for", "switch") and n.get("cv"):
                vs = [n["cv"]]
            elif k == "rfor":
                v = n["v"]
                self.decls[v["d"]] = v
                self.names[v["d"]] = v["n"]
                self.rng[v["d"]] = n["r"]
                for i, b in enumerate(v.get("binds", [])):
                    self.binds[b["d"]] = (None, i, v["d"])
                    self.names[b["d"]] = b["n"]
            elif k == "lambda":
                for i, p in enumerate(n.get("params", [])):
                    self.lambda_params[p["d"]] = p
                    self.names[p["d"]] = p["n"]
            elif k == "try":
                pass
            for v in vs:
                self.decls[v["d"]] = v
                self.names[v["d"]] = v["n"]
                self.defs.setdefault(v["d"], [])
                if v.get("i") is not None:
                    self.defs[v["d"]].append(v["i"])
                for i, b in enumerate(v.get("binds", [])):
                    self.binds[b["d"]] = (v.get("i"), i, None)
                    self.names[b["d"]] = b["n"]
            if k == "op":
                o = n["o"]
                a = n.get("a", [])
                if a and isinstance(a[0], dict):
                    tgt = a[0]
                    if o in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%=", "++", "--", "post++", "post--"):
                        d = tgt.get("d") if tgt.get("k") == "ref" else None
                        if d is not None:
                            if d in self.pidx:
                                self.assigned_params.add(d)
                            self.defs.setdefault(d, []).append(a[1] if o == "=" and len(a) > 1 else {"k": "mut", "l": n.get("l")})
                    elif o == "&" and len(a) == 1:
                        d = tgt.get("d") if tgt.get("k") == "ref" else None
                        if d is not None:
                            self.byref.add(d)
            if k in ("call", "ctor"):
                pts = n.get("pt", [])
                for i, x in enumerate(n.get("a", [])):
                    if i < len(pts) and x and x.get("k") == "ref" and x.get("d") is not None:
                        t = pts[i]
                        if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                            self.byref.add(x["d"])
        if self.f.isctor:
            for i in self.f.inits:
                e = i.get("e")
                if i.get("m") and e is not None:
                    s = strip_copy(e)
                    while s.get("k") == "call" and last(s.get("f") or "") in ("get", "shared_from_this") and "obj" in s and not s.get("a"):
                        s = strip_copy(s["obj"])
                    if s.get("k") == "ref" and s.get("dk") == "param" and s.get("d") in self.pidx:
                        self.alias[i["m"]] = s
                elif i.get("base") and e is not None and e.get("k") == "ctor" and e.get("fid"):
                    g = self.F.funcs.get(e["fid"])
                    if g is None or g is self.f:
                        continue
                    for m, t in self.F.view(g).alias.items():
                        j = self.F.view(g).pidx.get(t.get("d"))
                        if j is None or j >= len(e.get("a", [])):
                            continue
                        s = strip_copy(e["a"][j])
                        while s.get("k") == "call" and last(s.get("f") or "") in ("get", "shared_from_this") and "obj" in s and not s.get("a"):
                            s = strip_copy(s["obj"])
                        if s.get("k") == "ref" and s.get("dk") == "param" and s.get("d") in self.pidx:
                            self.alias.setdefault(m, s)
            for n in self.f.nodes():
                if n.get("k") == "op" and n["o"] in ("=", "+=", "-=", "++", "--", "|=", "&=", "*=") and n.get("a"):
                    t = n["a"][0]
                    if isinstance(t, dict) and t.get("k") == "mem" and t.get("q") in self.alias:
                        del self.alias[t["q"]]

    def multi(self, d):
        return len(self.defs.get(d, [])) != 1 or d in self.byref

    def canon(self, e, depth=0):
        if e is None:
            return "null"
        if depth > 14:
            return "…"
        k = e.get("k")
        c = lambda x: self.canon(x, depth + 1)
        if k == "this":
            return self.this
        if k == "ref":
            dk = e.get("dk")
            if dk == "param":
                d = e.get("d")
                if d in self.pidx:
                    i = self.pidx[d]
                    if i in self.bind:
                        return self.bind[i]
                    return "$%d" % i
                return "λ%s" % e["n"]
            if dk in ("local", "bind"):
                d = e.get("d")
                if d in self.binds:
                    src, i, rv = self.binds[d]
                    if rv is not None:
                        return "each(%s)#%d" % (c(self.rng[rv]), i)
                    if src is not None:
                        return project(c(src), i)
                if d in self.rng:
                    return "each(%s)" % c(self.rng[d])
                if d in self.defs and not self.multi(d):
                    v = self.decls.get(d)
                    return c(self.defs[d][0])
                if d in self.lambda_params:
                    return "λ" + e["n"]
                return "%" + e["n"]
            if dk == "enumc":
                return short(e["q"])
            if dk in ("global", "slocal"):
                return short(e.get("q") or e["n"])
            if dk == "func":
                return short(e["f"])
            return e["n"]
        if k == "mem":
            b = e.get("b")
            if b is not None and strip_copy(b).get("k") == "this" and self.alias.get(e["q"]) is not None:
                return c(self.alias[e["q"]])
            n = e["n"]
            if n in ("first", "second") and strip_type(e.get("q", "")).startswith("std::pair"):
                return project(c(b), 0 if n == "first" else 1)
            return c(b) + "." + n
        if k == "memfn":
            return c(e.get("b")) + "." + e["n"]
        if k in ("icast", "cast", "defarg", "definit"):
            return c(e.get("e"))
        if k == "call":
            f = last(e.get("f") or "")
            a = e.get("a", [])
            if e.get("conv"):
                return c(e.get("obj"))
            if "obj" in e:
                o = c(e["obj"])
                if f in TRANSPARENT_CALLS and not a:
                    return o
                if f == "at" and len(a) == 1:
                    return self.elem(o, a[0], depth)
                if f in ("find",) and len(a) == 1:
                    return "%s[%s]" % (o, c(a[0]))
                g = self.getter(e)
                if g is not None:
                    return o + "." + g
                r = self.inline(e, depth, o)
                if r is not None:
                    return r
                return "%s.%s(%s)" % (o, f, ", ".join(c(x) for x in a if not is_defarg(x)))
            if f in TRANSPARENT_CALLS and len(a) == 1:
                return c(a[0])
            r = self.inline(e, depth, self.this)
            if r is not None:
                return r
            if "fe" in e:
                return "%s(%s)" % (c(e["fe"]), ", ".join(c(x) for x in a))
            return "%s(%s)" % (short(e.get("f") or "?"), ", ".join(c(x) for x in a if not is_defarg(x)))
        if k == "ctor":
            a = [x for x in e.get("a", []) if not is_defarg(x)]
            if len(a) == 1:
                return c(a[0])
            return "%s{%s}" % (short(e.get("t", "")), ", ".join(c(x) for x in a))
        if k == "init":
            a = e.get("a", [])
            return "{%s}" % ", ".join(c(x) for x in a)
        if k == "op":
            o = e["o"]
            a = e.get("a", [])
            if o in ("->", "*", "&") and len(a) == 1:
                return c(a[0])
            if o == "[]" and len(a) == 2:
                return self.elem(c(a[0]), a[1], depth)
            if o == "()" and e.get("f"):
                return "%s(%s)" % (c(a[0]), ", ".join(c(x) for x in a[1:]))
            if len(a) == 1:
                return "(%s%s)" % (o, c(a[0]))
            if len(a) == 2:
                x, y = c(a[0]), c(a[1])
                if o in (">", ">="):
                    o, x, y = FLIP[o], y, x
                if o in ("==", "!=", "+", "*", "&", "|", "^", "&&", "||") and y < x and not (o == "+" and '"' in x + y):
                    x, y = y, x
                return "(%s %s %s)" % (x, o, y)
        if k == "cond":
            return "(%s ? %s : %s)" % (c(e["c"]), c(e["x"]), c(e["y"]))
        if k == "str":
            return json.dumps(e["v"])
        if k == "int":
            return e["v"]
        if k == "bool":
            return "true" if e["v"] else "false"
        if k == "char":
            return "'%d'" % e["v"]
        if k == "null":
            return "null"
        if k == "lambda":
            return "λ@%s" % e.get("l")
        if k == "sizeof":
            return "sizeof(%s)" % e["t"]
        if k == "throw":
            return "throw"
        if k == "depmem":
            return (c(e["b"]) + "." if e.get("b") else "this.") + e["n"]
        if k == "new":
            return "new(%s)" % e["t"]
        return "?" + str(k)

    def elem(self, base, i, depth):
        s = strip_copy(i)
        if s.get("k") == "ref" and s.get("d") in self.idx and s["d"] not in self.rng and self.canon(self.idx[s["d"]], depth + 1) == base:
            return "each(%s)" % base
        return "%s[%s]" % (base, self.canon(i, depth + 1))

    def getter(self, e):
        """name of the field a trivial non-virtual accessor returns"""
        if e.get("virt") or e.get("a"):
            return None
        g = self.F.funcs.get(e.get("fid"))
        return trivial_getter(g)


    def inline(self, e, depth, this):
        """canonical text of a call to a helper that is a single `return expr`"""
        if depth > 8 or e.get("k") != "call" or not e.get("fid"):
            return None
        g = self.F.funcs.get(e["fid"])
        if g is None or not single_return(g) or (e.get("virt") and len(self.F.targets(e)) != 1):
            return None
        a = e.get("a", [])
        if len(a) < len(g.params) or any(is_defarg(x) for x in a):
            return None
        v = View(self.F, g, {i: self.canon(x, depth + 1) for i, x in enumerate(a)}, this)
        return v.canon(g.body["b"][0]["e"], depth + 1)


def single_return(g):
    """helper whose body is one return of an expression without effects or nested calls with effects"""
    r = getattr(g, "_single", None)
    if r is None:
        b = (g.body or {}).get("b") or []
        r = len(b) == 1 and b[0].get("k") == "return" and bool(b[0].get("e")) and not g.isctor and not g.tmpl
        if r:
            n = 0
            for x in walk(b[0]["e"]):
                n += 1
                if x.get("k") in ("lambda", "new", "throw", "str") or (x.get("k") == "op" and x["o"] in ("=", "+=", "-=", "++", "--", "post++", "post--", "|=")):
                    r = False
                if x.get("k") == "call" and x.get("fid") == g.fid:
                    r = False
                if x.get("k") == "ctor" and not is_smart(x.get("t") or ""):
                    r = False
                if x.get("k") == "call" and last(x.get("f") or "") in ("make_shared", "make_unique", "emplace", "insert", "erase"):
                    r = False
            r = r and n <= 30
        g._single = r
    return r


def trivial_getter(g, virt=False):
    if g is None or g.body is None or g.params or (g.virt and not virt):
        return None
    b = g.body.get("b") or []
    if len(b) != 1 or b[0].get("k") != "return" or not b[0].get("e"):
        return None
    r = strip_copy(b[0]["e"])
    while r.get("k") in ("cast", "icast"):
        r = r["e"]
    if r.get("k") == "call" and last(r.get("f")) in ("get", "shared_from_this") and "obj" in r and not r.get("a"):
        r = r["obj"]
    if r.get("k") == "mem" and strip_copy(r.get("b") or {}).get("k") == "this":
        return r["n"]
    return None


def is_defarg(x):
    return isinstance(x, dict) and x.get("k") == "defarg"


def strip_copy(e):
    """strip casts, moves and single-argument conversions"""
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("icast", "cast", "defarg"):
            e = e["e"]
        elif k == "call" and last(e.get("f") or "") in ("move", "forward") and len(e.get("a", [])) == 1 and "obj" not in e:
            e = e["a"][0]
        elif k == "ctor" and len([x for x in e.get("a", []) if not is_defarg(x)]) == 1 and strip_type(e.get("t")).startswith(("std::shared_ptr", "std::unique_ptr")):
            e = e["a"][0]
        else:
            break
    return e


# --------------------------------------------------------------------------
# atoms: normal form of a condition.  atom(e) -> (op, a, b) , polarity
def atoms_norm(view, e):
    pol = True
    while True:
        k = e.get("k")
        if k == "op" and e["o"] == "!" and len(e["a"]) == 1:
            pol = not pol
            e = e["a"][0]
            continue
        if k in ("icast", "cast"):
            e = e["e"]
            continue
        if k == "call" and e.get("conv"):
            e = e["obj"]
            continue
        if k == "ref" and e.get("dk") == "local" and e.get("d") in view.defs and not view.multi(e["d"]):
            t = view.decls.get(e["d"], {}).get("t", "")
            if strip_type(t) == "bool":
                e = view.defs[e["d"]][0]
                continue
        break
    k = e.get("k")
    c = view.canon
    if k == "op" and len(e.get("a", [])) == 2 and e["o"] in ("==", "!=", "<", ">", "<=", ">="):
        o = e["o"]
        x, y = e["a"]
        cx, cy = c(x), c(y)
        if o == "!=":
            o, pol = "==", not pol
        elif o == ">":
            o, cx, cy = "<", cy, cx
        elif o == ">=":
            o, pol = "<", not pol
        elif o == "<=":
            o, cx, cy, pol = "<", cy, cx, not pol
        if o == "==":
            # boolean compare
            for p, q in ((cx, cy), (cy, cx)):
                if q in ("true", "false"):
                    a, pp = (("truth", p, ""), True)
                    return (a, pol if q == "true" else not pol, e)
            # container lookups
            for p, q in ((cx, cy), (cy, cx)):
                if q.endswith(".end()") or q.endswith(".cend()"):
                    base = q[: q.rindex(".")]
                    if p.startswith(base + "[") and p.endswith("]"):
                        return (("in", p[len(base) + 1:-1], base), not pol, e)
                if q == "0" and p.endswith(".size()"):
                    return (("empty", p[:-7], ""), pol, e)
                if q == "0" and p.endswith(")") and ".count(" in p:
                    i = p.rindex(".count(")
                    return (("in", p[i + 7:-1], p[:i]), not pol, e)
                if q == "std::string::npos" or q.endswith("npos"):
                    return (("==", p, "npos"), pol, e)
                if q == "null" or (q == "0" and False):
                    return (("null", p, ""), pol, e)
            if cy < cx:
                cx, cy = cy, cx
            return (("==", cx, cy), pol, e)
        if o == "<" and cx == "0" and cy.endswith(".size()"):
            return (("empty", cy[:-7], ""), not pol, e)
        return (("<", cx, cy), pol, e)
    if k == "call":
        f = last(e.get("f") or "")
        if f == "empty" and "obj" in e:
            return (("empty", c(e["obj"]), ""), pol, e)
        if f in ("contains", "count") and "obj" in e and len(e.get("a", [])) == 1:
            return (("in", c(e["a"][0]), c(e["obj"])), pol, e)
        if f == "size" and "obj" in e:
            return (("empty", c(e["obj"]), ""), not pol, e)
    t = expr_type(view, e)
    if t and (t.endswith("*") or is_smart(t)):
        return (("null", c(e), ""), not pol, e)
    return (("truth", c(e), ""), pol, e)


def expr_type(view, e):
    k = e.get("k")
    if k in ("mem", "ref", "call", "cast", "icast", "op", "ctor", "cond"):
        return (e.get("t") or "").replace(" const", "") if not (e.get("t") or "").endswith("&") else e["t"].rstrip("& ")
    return ""


# --------------------------------------------------------------------------
# control-flow graph
class N:
    __slots__ = ("id", "kind", "ast", "succ", "pred")

    def __init__(self, i, kind, ast):
        self.id = i
        self.kind = kind  # entry, exit, eval, cond, return, throw, join, case
        self.ast = ast
        self.succ = []  # (node, label)  label None | True | False | ('case', expr) | 'default' | 'exc'
        self.pred = []

    def __repr__(self):
        return "N%d:%s@%s" % (self.id, self.kind, (self.ast or {}).get("l"))


NORETURN = {"exit", "abort", "terminate", "__assert_fail", "_Exit", "quick_exit"}


class CFG:
    """Branch nodes carry one atomic condition; &&, ||, ! and ?: in conditions are split."""

    def __init__(self, f, body=None, inits=True):
        self.f = f
        self.nodes = []
        self.entry = self.new("entry", None)
        self.exit = self.new("exit", None)    # normal exits all pass here
        self.exc = self.new("excexit", None)  # throws that leave the function
        self.handlers = []
        cur = [(self.entry, None)]
        if inits and body is None:
            for i in f.inits:
                if i.get("e"):
                    cur = self.ev(cur, i["e"])
        b = body if body is not None else f.body
        out = self.stmt(b, cur, None, None)
        self.link(out, self.exit)

    def new(self, kind, ast):
        n = N(len(self.nodes), kind, ast)
        self.nodes.append(n)
        return n

    def link(self, cur, n):
        for p, lab in cur:
            p.succ.append((n, lab))
            n.pred.append((p, lab))

    def ev(self, cur, e, kind="eval"):
        if e is None:
            return cur
        if e.get("k") == "throw":
            n = self.new("throw", e)
            self.link(cur, n)
            tgt = self.handlers[-1] if self.handlers else None
            if tgt:
                for h in tgt:
                    self.link([(n, "exc")], h)
            else:
                self.link([(n, "exc")], self.exc)
            return []
        if e.get("k") == "op" and e.get("o") in ("&&", "||") and e.get("bi"):
            t, f_ = self.cond(cur, e)
            return t + f_
        if e.get("k") == "cond":
            # statement-level ternary
            t, f_ = self.cond(cur, e["c"])
            a = self.ev(t, e["x"])
            b = self.ev(f_, e["y"])
            return a + b
        n = self.new(kind, e)
        self.link(cur, n)
        if self.handlers:
            for h in self.handlers[-1]:
                self.link([(n, "exc")], h)
        if e.get("k") == "call" and last(e.get("f") or "") in NORETURN:
            return []
        return [(n, None)]

    def cond(self, cur, e):
        """returns (true edges, false edges)"""
        k = e.get("k")
        if k in ("icast", "cast") and isinstance(e.get("e"), dict) and e["e"].get("k") in ("op", "icast", "cast", "bool", "cond") and not (k == "cast"):
            return self.cond(cur, e["e"])
        if k == "op" and e.get("bi"):
            if e["o"] == "!":
                t, f = self.cond(cur, e["a"][0])
                return f, t
            if e["o"] == "&&":
                t, f = self.cond(cur, e["a"][0])
                t2, f2 = self.cond(t, e["a"][1])
                return t2, f + f2
            if e["o"] == "||":
                t, f = self.cond(cur, e["a"][0])
                t2, f2 = self.cond(f, e["a"][1])
                return t + t2, f2
        if k == "cond":
            t, f = self.cond(cur, e["c"])
            t1, f1 = self.cond(t, e["x"])
            t2, f2 = self.cond(f, e["y"])
            return t1 + t2, f1 + f2
        if k == "bool":
            return (cur, []) if e["v"] else ([], cur)
        n = self.new("cond", e)
        self.link(cur, n)
        if self.handlers:
            for h in self.handlers[-1]:
                self.link([(n, "exc")], h)
        return [(n, True)], [(n, False)]

    def stmt(self, s, cur, brk, cont):
        if s is None or not cur and (s.get("k") not in ("case", "default", "block", "if", "for", "while")):
            if s is None or not cur:
                return cur
        k = s["k"]
        if k == "block":
            for x in s["b"]:
                cur = self.stmt(x, cur, brk, cont)
            return cur
        if k == "expr":
            return self.ev(cur, s["e"])
        if k == "decl":
            for v in s["v"]:
                n = self.new("decl", v)
                self.link(cur, n)
                if self.handlers:
                    for h in self.handlers[-1]:
                        self.link([(n, "exc")], h)
                cur = [(n, None)]
            return cur
        if k == "if":
            if s.get("init"):
                cur = self.stmt(s["init"], cur, brk, cont)
            if s.get("cv"):
                n = self.new("decl", s["cv"])
                self.link(cur, n)
                cur = [(n, None)]
            t, f = self.cond(cur, s["c"])
            a = self.stmt(s["x"], t, brk, cont)
            b = self.stmt(s["y"], f, brk, cont) if s.get("y") else f
            return a + b
        if k in ("while", "for"):
            if k == "for" and s.get("init"):
                cur = self.stmt(s["init"], cur, None, None)
            head = self.new("join", {"k": "loop", "l": s["l"]})
            self.link(cur, head)
            c0 = [(head, None)]
            if s.get("cv"):
                n = self.new("decl", s["cv"])
                self.link(c0, n)
                c0 = [(n, None)]
            if s.get("c"):
                t, f = self.cond(c0, s["c"])
            else:
                t, f = c0, []
            nb, nc = [], []
            out = self.stmt(s["b"], t, nb, nc)
            back = out + nc
            if k == "for" and s.get("inc") and back:
                back = self.ev(back, s["inc"])
            self.link(back, head)
            return f + nb
        if k == "do":
            head = self.new("join", {"k": "loop", "l": s["l"]})
            self.link(cur, head)
            nb, nc = [], []
            out = self.stmt(s["b"], [(head, None)], nb, nc)
            t, f = self.cond(out + nc, s["c"]) if out + nc else ([], [])
            self.link(t, head)
            return f + nb
        if k == "rfor":
            cur = self.ev(cur, s["r"])
            head = self.new("rfor", s)
            self.link(cur, head)
            nb, nc = [], []
            n = self.new("decl", s["v"])
            self.link([(head, True)], n)
            out = self.stmt(s["b"], [(n, None)], nb, nc)
            self.link(out + nc, head)
            return [(head, False)] + nb
        if k == "switch":
            if s.get("init"):
                cur = self.stmt(s["init"], cur, brk, cont)
            if s.get("cv"):
                n = self.new("decl", s["cv"])
                self.link(cur, n)
                cur = [(n, None)]
            sw = self.new("switch", s)
            self.link(cur, sw)
            nb = []
            self._sw = getattr(self, "_sw", [])
            self._sw.append([sw, False, []])
            out = self.stmt(s["b"], [], nb, cont) if s["b"]["k"] != "block" else self._swbody(s["b"], nb, cont)
            sw, hasdef, vals = self._sw.pop()
            res = out + nb
            if not hasdef:
                res = res + [(sw, ("nocase", vals))]
            return res
        if k in ("case", "default"):
            sw = self._sw[-1]
            if k == "case":
                sw[2].append(s["v"])
                lab = ("case", s["v"])
            else:
                sw[1] = True
                lab = ("default", sw[2])
            return self.stmt(s["b"], cur + [(sw[0], lab)], brk, cont)
        if k == "break":
            if brk is not None:
                brk.extend(cur)
            return []
        if k == "continue":
            if cont is not None:
                cont.extend(cur)
            return []
        if k == "return":
            e = s.get("e")
            if e is not None and e.get("k") == "throw":
                return self.ev(cur, e)
            n = self.new("return", s)
            self.link(cur, n)
            self.link([(n, None)], self.exit)
            if self.handlers:
                for h in self.handlers[-1]:
                    self.link([(n, "exc")], h)
            return []
        if k == "try":
            hs = []
            hn = []
            for h in s["h"]:
                n = self.new("handler", h)
                hs.append(n)
            self.handlers.append(hs)
            out = self.stmt(s["b"], cur, brk, cont)
            self.handlers.pop()
            for h, n in zip(s["h"], hs):
                out = out + self.stmt(h["b"], [(n, None)], brk, cont)
            return out
        if k == "nop":
            return cur
        if k == "ostmt":
            for x in s.get("b", []):
                cur = self.stmt(x, cur, brk, cont)
            return cur
        raise AnalysisError("unknown statement kind %s" % k)

    def _swbody(self, b, nb, cont):
        cur = []
        for x in b["b"]:
            if x["k"] not in ("case", "default") and not cur:
                continue
            cur = self.stmt(x, cur, nb, cont)
        return cur


def cfg(f):
    v = f.j.get("_cfg")
    if v is None:
        v = CFG(f)
        f.j["_cfg"] = v
    return v
