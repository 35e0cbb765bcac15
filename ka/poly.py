"""Integer polynomials over opaque values: equality of index/width arithmetic up to algebra."""
from .cprop import text


def poly(v):
    """{sorted tuple of atom texts: coefficient}"""
    if v[0] == "i":
        return {(): v[1]} if v[1] else {}
    if v[0] == "b":
        return {(): int(v[1])} if v[1] else {}
    if v[0] == "op" and len(v) == 4 and v[1] in ("+", "-", "*"):
        a, b = poly(v[2]), poly(v[3])
        out = {}
        if v[1] == "*":
            for x, c in a.items():
                for y, d in b.items():
                    k = tuple(sorted(x + y))
                    out[k] = out.get(k, 0) + c * d
        else:
            s = 1 if v[1] == "+" else -1
            out = dict(a)
            for y, d in b.items():
                out[y] = out.get(y, 0) + s * d
        return {k: c for k, c in out.items() if c}
    if v[0] == "op" and len(v) == 3 and v[1] == "-":
        return {k: -c for k, c in poly(v[2]).items()}
    return {(text(v),): 1}


def parse(s):
    """polynomial of a Python-syntax expression whose names are written {like this}"""
    import ast, re
    names = []

    def put(m):
        names.append(m.group(1))
        return "_n%d" % (len(names) - 1)
    t = ast.parse(re.sub(r"\{([^}]*)\}", put, s), mode="eval").body

    def conv(n):
        if isinstance(n, ast.Constant):
            return ("i", n.value)
        if isinstance(n, ast.Name):
            return ("t", names[int(n.id[2:])])
        if isinstance(n, ast.UnaryOp):
            return ("op", "-", conv(n.operand))
        return ("op", {ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(n.op)], conv(n.left), conv(n.right))
    return poly(conv(t))


def same(v, s):
    return poly(v) == parse(s)
