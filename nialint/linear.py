"""Linear normal form of scalar terms."""
from . import terms as t


def lin(x):
    """term -> ({atom: coefficient}, constant)"""
    if t.is_const(x) and isinstance(t.cval(x), (int, float)) and not isinstance(t.cval(x), bool):
        return {}, t.cval(x)
    if x.op == "un" and x.args[0] == "-":
        a, c = lin(x.args[1])
        return {k: -v for k, v in a.items()}, -c
    if x.op == "bin" and x.args[0] in "+-":
        a, c = lin(x.args[1])
        b, d = lin(x.args[2])
        s = 1 if x.args[0] == "+" else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}, c + s * d
    if x.op == "bin" and x.args[0] == "*":
        for u, v in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if t.is_const(u) and isinstance(t.cval(u), (int, float)):
                a, c = lin(v)
                return {k: w * t.cval(u) for k, w in a.items()}, c * t.cval(u)
    return {x: 1}, 0


def diff(a, b):
    """linear form of a - b"""
    return lin(t.bin_("-", a, b))
