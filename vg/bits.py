"""Symbolic bit slices: what each bit of an integer expression is, over 32-bit non-negative unknowns."""
from .terms import T, lin_parts

W = 64


def of(v, leaf, depth=0):
    """list of 64 entries: 0, 1, (term, bit) or None (not known).  leaf(x) gives the bits of an unknown or None."""
    if depth > 30:
        return [None] * W
    if v.op == 'c' and isinstance(v.a[0], int):
        return [(v.a[0] >> k) & 1 for k in range(W)]
    if v.op in ('b<<', 'b>>') and v.a[1].op == 'c':
        x, n = of(v.a[0], leaf, depth + 1), v.a[1].a[0]
        w = v.a[2] or W
        if n < 0 or n >= w:
            return [None] * W
        if v.op == 'b<<':
            r = ([0] * n + x)[:w]
            return (r + [0] * W)[:W]
        s = 0 if v.a[3] else x[w - 1]
        return x[n:w] + [s] * (W - (w - n))
    if v.op in ('b&', 'b|', 'b^', 'b+'):
        x, y = of(v.a[0], leaf, depth + 1), of(v.a[1], leaf, depth + 1)
        return [bit(v.op[1], p, q) for p, q in zip(x, y)]
    if v.op in ('b/', 'b%') and v.a[1].op == 'c' and isinstance(v.a[1].a[0], int) and pow2(v.a[1].a[0]) is not None:
        x, n = of(v.a[0], leaf, depth + 1), pow2(v.a[1].a[0])
        if x[W - 1] != 0:
            return [None] * W
        return x[n:] + [0] * n if v.op == 'b/' else x[:n] + [0] * (W - n)
    if v.op == 'lin':
        c, d = lin_parts(v)
        r = [(c >> k) & 1 for k in range(W)] if isinstance(c, int) and c >= 0 else [None] * W
        for k, m in d.items():
            if not isinstance(m, int) or pow2(m) is None:
                return [None] * W
            n = pow2(m)
            x = ([0] * n + of(k, leaf, depth + 1))[:W]
            r = [bit('+', p, q) for p, q in zip(r, x)]
        return r
    return leaf(v) or [None] * W


def bit(op, p, q):
    if op == '&':
        if p == 0 or q == 0:
            return 0
        return p if q == 1 else q if p == 1 else p if p == q else None
    if p == 0:
        return q
    if q == 0:
        return p
    if op == '|' and (p == 1 or q == 1):
        return 1
    if op == '|' and p == q:
        return p
    return None     # two bits meet: not a plain combination


def pow2(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None


def ident(x):
    """bits of a 32-bit value that is never negative"""
    return [(x, k) for k in range(31)] + [0] * (W - 31)


def combination(v):
    return v.op in ('b<<', 'b>>', 'b&', 'b|', 'b^', 'b/', 'b%', 'b+') or v.op == 'lin'
