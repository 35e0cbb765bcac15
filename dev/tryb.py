"""tryb.py FILE.py [ids]: each bug (id, property, [(file, old, new)]) in a scratch copy: does its check notice?"""
import os, sys, shutil, subprocess, queue, runpy
from concurrent.futures import ThreadPoolExecutor
B = runpy.run_path(sys.argv[1])["B"]
only = set(sys.argv[2:])
W = queue.Queue()
for k in range(6):
    d = "/tmp/tb%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src")
    os.symlink("/repo/extern", d + "/extern")
    W.put(d)


def one(b):
    bid, props, ed = b[:3]
    d = W.get()
    res = []
    try:
        for f, x, y in ed:
            p = d + "/src/" + f
            s = open(p).read()
            if s.count(x) != 1:
                return "%s: BAD EDIT %s x%d" % (bid, f, s.count(x))
            open(p, "w").write(s.replace(x, y))
        for f in {e[0] for e in ed}:
            if f.endswith(".hh"):
                f = f[:-2] + "cc"
            if not os.path.exists(d + "/src/" + f):
                continue
            r = subprocess.run("clang++ -fsyntax-only -std=c++17 -w -DINCLUDE_FILESYSTEM -include cstdint -I/verif/stubs -I%s/src -I/repo/extern/hgdb/include -I/repo/extern/fmt/include %s/src/%s" % (d, d, f), shell=True, capture_output=True, text=True)
            if r.returncode:
                return "%s: NO COMPILE %s" % (bid, r.stderr[:300])
        for p in props.split(","):
            r = subprocess.run(["bash", "/verif/check.sh", p, "quick"], env=dict(os.environ, KA_REPO=d), capture_output=True, text=True)
            L = [x for x in r.stdout.splitlines() if x.startswith("  ") and not x.startswith("  rule")]
            res.append("%s rc=%d %s" % (p, r.returncode, (L[0].strip()[:170] if L and r.returncode == 1 else "" if r.returncode == 0 else r.stdout[-150:])))
        return "%-28s %s %s" % (bid, "caught" if any(" rc=1" in x for x in res) else "MISSED", " | ".join(res))
    finally:
        for f, x, y in ed:
            shutil.copy("/repo/src/" + f, d + "/src/" + f)
        W.put(d)


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [b for b in B if not only or b[0] in only]):
        print(r, flush=True)
for k in range(6):
    shutil.rmtree("/tmp/tb%d" % k, ignore_errors=True)
