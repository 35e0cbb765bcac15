"""mutate.py FILE[,FILE] N SEED [ids]: plant small mechanical changes in a scratch copy, report those no check notices"""
import os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
REPO = "/repo"
files, N, seed = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3])
ids = sys.argv[4].split(",") if len(sys.argv) > 4 else [f[:-3] for f in sorted(os.listdir("/verif/ka/rules")) if re.fullmatch(r"C\d+\.py", f)]
lines_only = tuple(int(x) for x in os.environ.get("LINES", "0,0").split(","))
random.seed(seed)
SUB = [(r"(?<![<>=!-])<(?![<=\w:])", " <= "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
       (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bleft\(\)", "right()"), (r"\bhigh\b", "low"), (r"\blow\b", "high"), (r"PortDirection::In\b", "PortDirection::Out"), (r"PortDirection::Out\b", "PortDirection::In"),
       (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bsources\b", "sinks"), (r"\bsinks\b", "sources"), (r"\bthen_", "else_"), (r"Posedge", "Negedge"), (r"\bif \(", "if (!"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"(\w)\.empty\(\)", r"\1.size() == 1"),
       (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"->width\(\)", "->var_width()"), (r"->var_width\(\)", "->width()"), (r"is_signed\(\)", "is_packed()"), (r"NonBlocking", "Blocking"), (r"(?<!Non)Blocking", "NonBlocking"), (r"emplace_back", "pop_back(); //")]
sites = []
for f in files:
    L = open(REPO + "/src/" + f).read().split("\n")
    for i, l in enumerate(L):
        s = l.strip()
        if lines_only[1] and not lines_only[0] <= i + 1 <= lines_only[1]:
            continue
        if not s or s.startswith(("//", "#", "*", "/*", "using", "namespace")) or "Exception" in s and "throw" in s and not s.startswith(("throw", "if")):
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l).split("//")[0]
        for rx, to in SUB:
            for m in re.finditer(rx, code):
                new = l[:m.start()] + m.expand(to) + l[m.end():]
                if rx == r"\bif \(":
                    # negate the whole condition when it closes on this line
                    d, j = 0, m.end() - 1
                    for j in range(m.end() - 1, len(code)):
                        d += (code[j] == "(") - (code[j] == ")")
                        if d == 0:
                            break
                    else:
                        continue
                    new = l[:m.end()] + "!(" + l[m.end():j] + "))" + l[j + 1:]
                sites.append((f, i, new))
        if re.match(r"^[\w:>\-\.\(\)\*\[\]]+(\(.*\)| [+|&\-]?= .*);$", s) and not s.startswith(("return", "throw", "auto", "const", "case", "default")) or re.match(r"if \(.*\) (return.*|continue|throw.*);$", s):
            sites.append((f, i, re.match(r"\s*", l).group(0) + ";"))
            sites.append((f, i, re.match(r"\s*", l).group(0) + ";"))
random.shuffle(sites)
seen, pick = set(), []
for s in sites:
    if s not in seen:
        seen.add(s)
        pick.append(s)
pick = pick[:N]
W = queue.Queue()
for k in range(8):
    d = "/tmp/mut%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO + "/src", d + "/src")
    os.symlink(REPO + "/extern", d + "/extern")
    W.put(d)


def run(m):
    f, i, new = m
    d = W.get()
    try:
        orig = open(REPO + "/src/" + f).read()
        L = orig.split("\n")
        old = L[i]
        L[i] = new
        open(d + "/src/" + f, "w").write("\n".join(L))
        flags = "-std=c++17 -DINCLUDE_FILESYSTEM -include cstdint -I/verif/stubs -I%s/src -I/repo/extern/hgdb/include -I/repo/extern/fmt/include -w" % d
        tu = f if f.endswith(".cc") else {"expr.hh": "expr.cc"}.get(f, f[:-3] + ".cc")
        if subprocess.run("clang++ -fsyntax-only %s %s/src/%s" % (flags, d, tu), shell=True, capture_output=True).returncode:
            return (m, old, "nocompile", [])
        killed = []
        for c in ids:
            try:
                p = subprocess.run(["bash", "/verif/check.sh", c, "quick"], capture_output=True, text=True, env=dict(os.environ, KA_REPO=d, KA_EVIDENCE=d + "/ev"), timeout=600)
            except subprocess.TimeoutExpired:
                killed.append(c + ":timeout")
                break
            if p.returncode:
                killed.append(c + ("" if p.returncode == 1 else ":rc%d" % p.returncode))
                break
        return (m, old, "killed" if killed else "SURVIVED", killed)
    finally:
        shutil.copy(REPO + "/src/" + f, d + "/src/" + f)
        W.put(d)


with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(run, pick))
n = {}
for m, old, st, k in res:
    n[st] = n.get(st, 0) + 1
print(n)
for m, old, st, k in sorted(res, key=lambda x: (x[0][0], x[0][1])):
    if st == "SURVIVED" or any(":" in x for x in k):
        print("%s:%d %s %s\n   - %s\n   + %s" % (m[0], m[1] + 1, st, k, old.strip(), m[2].strip()))
