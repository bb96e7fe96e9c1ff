"""Shapes results can have, recognised on values rather than on code."""
from . import terms as t
from .terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts


class Mapped:
    """result[j] built from src[i], i = 0 .. size(src)-1"""
    def __init__(self, loop, src, iv, alts, exits, end):
        self.loop, self.src, self.iv, self.alts, self.exits, self.end = loop, src, iv, alts, exits, end

    @property
    def elem(self):
        return t.index(self.src, self.iv)


def understood(v):
    """value whose making is fully visible (so that a mismatch is a mismatch)"""
    return v.op in ('reversed', 'sorted', 'pop', 'sub', 'erased', 'fill', 'filled', 'insat', 'empty')


def mapped(run, R, srcs=None):
    """-> ('ok', Mapped) | ('bad', why) | ('unk', why) | ('empty', None)"""
    I, LL, G = run.I, run.LL, run.G
    if R is EMPTY:
        return 'empty', None
    if R.op in ('reversed', 'insat', 'sorted'):
        return 'bad', 'the result is %s' % {'reversed': 'reversed', 'insat': 'not built by appending', 'sorted': 'sorted'}[R.op]
    if R.op != 'phi' or R not in I.phis:
        return 'unk', 'result is %s' % t.show(R, 2)
    b = R.a[0]
    if b not in I.headers:
        # several ways to the result: all alike, or empty for an empty input
        got, why = None, []
        vals = {}
        for e, v in I.phis[R].items():
            if e in I.out:
                vals.setdefault(v, []).append(e)
        for v, es in vals.items():
            k, m = mapped(run, v, srcs)
            if k == 'empty':
                for e in es:
                    if srcs and any(G.proves(I.out[e][1], t.not_(t.ge0(add(size(s), C(-1))))) for s in srcs):
                        continue
                    why.append('returns nothing on some path')
            elif k == 'ok':
                if got is not None and got.loop is not m.loop:
                    return 'unk', 'several loops'
                got = m if got is None else got
            elif k == 'unk':
                # a loop left with a partial result
                part = partial(run, v)
                if part is None:
                    return k, m
                if got is None:
                    got = part
            else:
                return k, m
        if why:
            return 'unk', why[0]
        if got is None:
            return 'empty', None
        return 'ok', got
    acc = LL.accumulation(R)
    if acc is None:
        return 'unk', 'not an accumulation'
    return finish(run, R, acc)


def partial(run, v):
    """value of an accumulation at a break: items appended to the loop's own phi"""
    I, LL = run.I, run.LL
    x = v
    while x.op in ('push', 'cat', 'upd'):
        x = x.a[0]
    if x.op == 'phi' and x.a[0] in I.headers:
        acc = LL.accumulation(x)
        if acc is not None:
            k, m = finish(run, x, acc)
            if k == 'ok':
                return m
    return None


def traversal_of(run, L, srcs=None):
    """the container a loop walks completely: ('ok', container, counter, end edge) | ('bad', why) | ('unk', why)"""
    I, LL, G = run.I, run.LL, run.G
    tr = LL.traversals(L)
    for n, ph, e in tr:
        if n.op == 'size':
            return 'ok', n.a[0], ph, e
        if srcs:
            for s in srcs:
                if n is size(s) or G.proves_eq(I.out[e][1], n, size(s)):
                    return 'ok', s, ph, e
    for ph, ops in I.phis.items():
        if ph.a[0] == L.header:
            for e in L.entry:
                v = ops.get(e)
                if v is not None and v.op == 'rit' and v.a[1] in ('rbegin', 'crbegin') and ph is not v:
                    return 'bad', 'walks backwards'
    # the counter runs, but from elsewhere or to elsewhere
    for ph, init, step in LL.counters(L):
        for b, i, d in L.exits:
            f = I.out.get((b, i))
            for a, pol in [x for x in (f[1] if f else ()) if x[0] != 'sel']:
                if a.op != 'ge0' or pol:
                    continue
                c, dd = lin_parts(a.a[0])
                o = [k for k in dd if k is not ph]
                if step == -1 and c == 0 and dd == {ph: 1}:
                    return 'bad', 'walks backwards'
                if dd.get(ph) == -1 and len(o) == 1 and o[0].op == 'size' and dd[o[0]] == 1 and step > 0:
                    if step != 1:
                        return 'bad', 'steps by %d' % step
                    if init.op == 'c' and (init.a[0] != 0 or c != -1) and isinstance(c, int):
                        if init.a[0] - (c + 1) != 0 or init.a[0] > 0:
                            return 'bad', 'goes from %d to size%+d' % (init.a[0], c + 1)
    return 'unk', 'not a walk over a whole container'


def finish(run, R, acc):
    I, LL, G = run.I, run.LL, run.G
    init, alts, L = acc
    tv = traversal_of(run, L)
    if tv[0] != 'ok':
        return tv[0], tv[1]
    _, src, iv, end = tv
    if init is not EMPTY:
        # filled in advance and overwritten at the counter
        n = size(init)
        ats = [x for f, its in alts for x in its]
        if ats and all(x[0] == 'at' for x in ats):
            if not G.proves_eq(I.out[end][1], n, size(src)):
                return 'unk', 'the result was made with another size'
            alts2 = []
            for f, its in alts:
                if any(x[1] is not iv for x in its):
                    d = [sub(x[1], iv) for x in its]
                    return ('bad' if all(y.op == 'c' for y in d) else 'unk'), 'results are stored at other positions than their elements'
                alts2.append((f, [('one', x[2]) for x in its[-1:]]))
            alts = alts2
        elif init.op in ('fill', 'push') and all(x[0] in ('one', 'seq') for x in ats) and ats:
            return 'bad', 'appends to a result that already has elements'
        else:
            return 'unk', 'starts from %s' % t.show(init, 2)
    elif any(x[0] == 'at' for f, its in alts for x in its):
        return 'unk', 'stores into an empty result'
    exits = LL.exits(L, end)
    return 'ok', Mapped(L, src, iv, alts, exits, end)


def returned(run):
    """value handed back by the entry function (through a returned reference: what it refers to)"""
    for e in run.ev:
        if e.kind == 'return' and not e.ins.stack:
            return e
    return None
