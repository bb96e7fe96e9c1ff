"""C14: every ordering used for sorting is a strict weak ordering, and ranks in the documented direction.

A comparator is solved for as a boolean function over the comparisons it makes.  Each comparison is brought to the form
"key(a) compared with key(b)"; the comparator is then a truth table over the signs of its keys, and irreflexivity,
antisymmetry, transitivity and transitivity of "neither before the other" are decided on that table with the
composition table of <, =, >."""
import itertools
from .. import lib, terms as t
from ..terms import T
from ..logic import rebuild

ALGOS = {'partial_sort', 'nth_element', 'max_element', 'min_element', 'minmax_element', 'is_sorted', 'make_heap', 'push_heap',
         'pop_heap', 'sort_heap', 'sort', 'stable_sort', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'merge',
         'inplace_merge', 'set_union', 'partial_sort_copy'}
RANDOM = {'rand', 'random', 'drand48', 'time', 'clock', 'now', 'rand_r', 'lrand48', 'operator()'}
COMPOSE = {}
for p, q in itertools.product('<=>', repeat=2):
    COMPOSE[p, q] = {q} if p == '=' else {p} if q == '=' else {p} if p == q else set('<=>')
INV = {'<': '>', '>': '<', '=': '='}


class Unknown(Exception):
    pass


class Bad(Exception):
    pass




def side(x):
    """which of the two compared elements a value looks at"""
    r = set()
    for y in t.walk(x):
        if y.op == 'argp':
            r.add(y.a[0])
    return r


def elem(x, base):
    """the value as a function of the element"""
    def deep(y):
        if y.op == 'argp':
            return t.raw('argp', 9, 'e')
        return t.raw(y.op, *[deep(z) if isinstance(z, T) else z for z in y.a])
    mp = {y: deep(y) for y in t.walk(x) if y.op in ('argp', 'init')}
    return rebuild(x, mp)


def split(x):
    """linear form -> (const, part over a, part over b, rest)"""
    c, d = t.lin_parts(x)
    a, b, r = {}, {}, {}
    for k, v in d.items():
        s = side(k)
        (a if s == {0} else b if s == {1} else r)[k] = v
    return c, t.lin_make(0, a), t.lin_make(0, b), r


def sign_key(x):
    """canonical name of a key and whether it is negated: key and -key are the same key"""
    n = t.neg(x)
    c, d = t.lin_parts(x)
    if d and min(d.items(), key=lambda kv: kv[0].n)[1] < 0:
        return n, True
    return x, False


class Table:
    def __init__(self, base):
        self.base = base
        self.keys = []

    def key(self, ka, kb):
        """relation ka ? kb as (index, flipped)"""
        ea, eb = elem(ka, self.base), elem(kb, self.base)
        sa, sb = side(ka), side(kb)
        if sa == {1} and sb == {0}:
            i, f = self.key2(eb, ea)
            return i, not f
        if sa == {0} and sb == {1}:
            return self.key2(ea, eb)
        raise Unknown('compares %s with %s' % (ka, kb))

    def key2(self, ea, eb):
        if any(k.op == 'argp' for k in t.lin_parts(ea)[1]):
            raise Bad('compares the addresses of the elements')
        if ea is not eb:
            raise Bad('compares %s of one element with %s of the other' % (ea, eb))
        k, n = sign_key(ea)
        if k not in self.keys:
            self.keys.append(k)
        return self.keys.index(k), n

    def atom(self, at):
        """atom -> function from sign vector to bool"""
        if at.op == 'c':
            v = bool(at.a[0])
            return lambda s: v
        if at.op == 'not':
            f = self.atom(at.a[0])
            return lambda s: not f(s)
        if at.op in ('flt', 'lex'):
            x, y = at.a[:2]
            d = t.sub(y, x) if at.op == 'flt' else None
            if d is not None:
                c, a, b, r = split(d)
                if r:
                    raise Unknown('%s' % (at,))
                if c:
                    raise Bad('orders by a difference of more than %s: being equivalent is not transitive' % (abs(c),))
                if not side(a) or not side(b):
                    raise Unknown('%s' % (at,))
                x, y = t.neg(a), b
                # x < y with both sides linear
            i, neg = self.key(x, y)
            want = '>' if neg else '<'
            return lambda s: s[i] == want
        if at.op == 'ge0':
            c, a, b, r = split(at.a[0])
            if r or not side(a) or not side(b):
                raise Unknown('%s' % (at,))
            i, neg = self.key(a, t.neg(b))      # a - b' + c >= 0
            gt, lt = ('<', '>') if neg else ('>', '<')
            if t._has_float(at.a[0]) or not isinstance(c, int):
                if c:
                    raise Bad('orders by a difference of more than %s: being equivalent is not transitive' % (abs(c),))
                return lambda s: s[i] in (gt, '=')
            if c == 0:
                return lambda s: s[i] in (gt, '=')
            if c == -1:
                return lambda s: s[i] == gt
            raise Bad('orders by a difference of more than %s: being equivalent is not transitive' % (abs(c),))
        if at.op == 'eq':
            x, y = at.a
            if side(x) | side(y) == {0, 1} and len(side(x)) == 1 and len(side(y)) == 1:
                i, neg = self.key(x, y)
                return lambda s: s[i] == '='
            c, a, b, r = split(t.sub(x, y)) if x.op != 'ptr' else (0, None, None, 1)
            if r or c:
                raise Unknown('%s' % (at,))
            i, neg = self.key(a, t.neg(b))
            return lambda s: s[i] == '='
        raise Unknown('%s' % (at,))


def ways(run, limit=400):
    """[(facts, returned value)] for every way through a comparator without loops"""
    I, G = run.I, run.G
    if I.headers:
        raise Unknown('a loop')
    rets = {e.blk: e for e in lib.returns(run)}
    r = []

    def go(b, facts, mp):
        if len(r) > limit:
            raise Unknown('too many ways')
        if lib.contradictory(facts):
            return
        if b in rets:
            e = rets[b]
            r.append((facts | {(rebuild(g[0], mp), g[1]) for g in e.facts if g[0] != 'sel'}, rebuild(e.a[0], mp)))
            return
        for k, s in enumerate(I.blocks[b].succ):
            e = (b, k)
            if e not in I.out:
                continue
            f2 = set(facts)
            for g in I.out[e][1]:
                if g[0] != 'sel':
                    x, pol = t.atom(rebuild(g[0], mp))
                    pol = pol == g[1]
                    if x.op == 'c':
                        if bool(x.a[0]) != pol:
                            break
                    else:
                        f2.add((x, pol))
            else:
                m2 = dict(mp)
                for k2, v in G.subst_map(s.id, e).items():
                    m2[k2] = rebuild(v, mp) if isinstance(v, T) else v
                go(s.id, f2, m2)
    go(I.L.entryblk.id, set(), {})
    return r


def truth(run, base):
    """-> (table, [(conditions, value)])"""
    tb = Table(base)
    rows = []
    for facts, v in ways(run):
        conds = [(tb.atom(g[0]), g[1]) for g in facts]
        a, pol = t.atom(v)
        rows.append((conds, tb.atom(a), pol))
    return tb, rows


def table(tb, rows):
    n = len(tb.keys)
    if n > 3:
        raise Unknown('%d keys' % n)
    f = {}
    for s in itertools.product('<=>', repeat=n):
        vals = {h(s) == pol for conds, h, pol in rows if all(c(s) == p for c, p in conds)}
        if len(vals) != 1:
            raise Unknown('no value for %s' % (s,))
        f[s] = vals.pop()
    return f


def laws(f, n):
    """the law a truth table breaks, or None"""
    inv = lambda s: tuple(INV[x] for x in s)
    if f[('=',) * n]:
        return 'an element is ordered before itself'
    for s in f:
        if f[s] and f[inv(s)]:
            return 'two elements are each ordered before the other'
    eqv = {s: not f[s] and not f[inv(s)] for s in f}
    for s, r in itertools.product(f, repeat=2):
        if not (f[s] and f[r] or eqv[s] and eqv[r]):
            continue
        for w in itertools.product(*[sorted(COMPOSE[x, y]) for x, y in zip(s, r)]):
            if f[s] and f[r] and not f[w]:
                return 'it is not transitive'
            if eqv[s] and eqv[r] and not eqv[w]:
                return 'being equivalent in it is not transitive'
    return None


def impure(run):
    """what else the comparator depends on or does"""
    for e in run.ev:
        if e.kind == 'call':
            fn = e.x.get('fn') or {}
            if fn.get('n') in RANDOM and not fn.get('repo'):
                return e, 'depends on %s()' % fn['n']
        if e.kind == 'cmp' and all(x.op == 'ptr' for x in e.a[:2] if isinstance(x, T)) and len(e.a) > 1 and e.x.get('op') in ('<', '>', '<=', '>='):
            return e, 'compares addresses'
        if e.kind in ('mut', 'store') and e.addr is not None and t.root(e.addr).op not in ('var', 'new') and e.how != 'noop':
            return e, 'changes something while it compares'
    return None


def comparators(cx):
    """[(run, event, comparator usr, container value)]"""
    seen = set()
    for run in lib.surface(cx):
        for e in run.ev:
            if e.kind == 'sort':
                cmpf = e.val
            elif e.kind in ('call', 'bisect') and (e.x.get('fn') or {}).get('n') in ALGOS:
                ls = [a for a in e.a if isinstance(a, T) and a.op in ('lam', 'fn')]
                cmpf = ls[0] if ls else t.raw('lessthan')
                if e.kind == 'call' and not ls:
                    continue
            else:
                continue
            yield run, e, cmpf


def check(cx):
    cx.rule('order', 'the comparator is a strict weak ordering of its keys', 3)
    cx.rule('own', 'the comparator depends on the two elements compared only', 3)
    cx.rule('rank', 'candidates are ranked by score from best to worst, codes are written from lowest to highest', 3)
    done = {}
    for run, e, cmpf in comparators(cx):
        k = (e.loc, cmpf)
        if cmpf is None or cmpf.op == 'lessthan':
            if k not in done:
                done[k] = None
                cx.ob('order', e, True, 'the order of the elements themselves')
                cx.ob('own', e, True, 'the order of the elements themselves')
            continue
        cmpf = target(cx, cmpf)
        if cmpf.op != 'lam' or cmpf.a[0] not in cx.P.functions or 'body' not in cx.P.functions[cmpf.a[0]]:
            if k not in done:
                done[k] = None
                cx.ob('order', e, None, 'the comparator is not understood: %s' % cmpf.op)
            continue
        if k not in done:
            done[k] = one(cx, e, cmpf)
        if done[k] is not None:
            rank(cx, run, e, cmpf, done[k])


def target(cx, cmpf):
    """the function a comparator stands for"""
    if cmpf.op == 'fn':
        return t.raw('lam', cmpf.a[0])
    if cmpf.op == 'sv':
        us = [u for u in cx.resolve(cmpf.a[0], 'operator()')]
        if len(us) == 1:
            return t.raw('lam', us[0])
    return cmpf


def one(cx, e, cmpf):
    u = cmpf.a[0]
    f = cx.P.functions[u]
    run = cx.run(u)
    ps = f['fn'].get('params') or f.get('params')
    bad = impure(run)
    if bad:
        cx.ob('own', bad[0], False, 'the comparator %s' % bad[1])
        return None
    try:
        tb, rows = truth(run, 0)
        ft = table(tb, rows)
    except Bad as x:
        cx.ob('order', (f['l'], run.q), False, str(x))
        return None
    except Unknown as x:
        cx.ob('order', (f['l'], run.q), None, 'the comparator is not understood: ' + str(x)[:200])
        return None
    cx.ob('own', (f['l'], run.q), True, 'compares %d key(s) of the elements' % len(tb.keys))
    if not tb.keys:
        cx.ob('order', (f['l'], run.q), not ft[()], 'orders nothing' if not ft[()] else 'orders everything before everything')
        return None
    law = laws(ft, len(tb.keys))
    cx.ob('order', (f['l'], run.q), law is None, law or 'a strict weak ordering by %d key(s)' % len(tb.keys))
    return (tb, ft) if law is None else None


def keyname(k):
    for y in t.walk(k):
        if y.op in ('fld', 'getf') and len(y.a) > 1:
            return y.a[1] if isinstance(y.a[1], str) else None
    return None


def direction(tb, ft, i):
    """+1 lower first, -1 higher first, by key i alone; None when another key decides"""
    n = len(tb.keys)
    up = tuple('<' if j == i else '=' for j in range(n))
    dn = tuple('>' if j == i else '=' for j in range(n))
    if ft[up] and not ft[dn]:
        d = 1
    elif ft[dn] and not ft[up]:
        d = -1
    else:
        return None
    # leading: decides whatever the other keys say
    for s in ft:
        if s[i] == '<' and ft[s] != (d == 1) or s[i] == '>' and ft[s] != (d == -1):
            return None
    return d


def flipped(run, e):
    """the sorted container is turned round or walked backwards afterwards"""
    after = [x for x in run.ev if x.ins.pos is not None]
    for x in run.ev:
        if x.kind == 'mut' and x.how == 'reverse' and x.addr is e.addr:
            return True
        if x.kind == 'call' and (x.x.get('fn') or {}).get('n') in ('rbegin', 'rend', 'crbegin', 'crend', 'reverse_copy', 'back', 'reverse', 'reverse_iterator',
                                                                  'make_reverse_iterator'):
            if any(isinstance(y, T) and t.root(y.a[0] if y.op in ('ptr', 'it') else y) is t.root(e.addr) for y in x.a):
                return True
        if x.kind in ('el', 'elem', 'load', 'read') and x.addr is not None and x.addr.op == 'el' and x.addr.a[0] is e.addr:
            c, d = t.lin_parts(x.addr.a[1])
            if any(v < 0 for v in d.values()):
                return True
    for L in run.LL.loops.values() if isinstance(run.LL.loops, dict) else run.LL.loops:
        for tr in run.LL.traversals(L):
            if 'r' in str(getattr(tr, 'dir', '')):
                return True
    return False


def rank(cx, run, e, cmpf, tab):
    tb, ft = tab
    fn = e.fn
    ps = cx.P.functions[cmpf.a[0]]['params']
    if e.kind != 'sort':
        return
    ty = (ps[0]['t'] or {}) if ps else {}
    want = None
    if ty.get('rc') == 'StatItem':
        ks = [i for i, k in enumerate(tb.keys) if 'score' in (keyname(k) or '')]
        want, what = -1, 'score'
    elif ty.get('rc') == 'std::pair' and 'Saver' in (fn or '') + run.q:
        # (symbol, code) pairs: by code
        ks = [i for i, k in enumerate(tb.keys) if keyname(k) == 'second']
        want, what = 1, 'code'
        if not source_pairs(run, e):
            return
    if want is None:
        return
    ds = [direction(tb, ft, i) for i in ks]
    d = next((x for x in ds if x is not None), None)
    if d is None:
        cx.ob('rank', e, False if tb.keys and not ks else None, 'not ordered by %s' % what)
        return
    ok = d == want
    if not ok and flipped(run, e):
        ok = None
    cx.ob('rank', e, ok, 'ordered by %s, %s first' % (what, 'highest' if d < 0 else 'lowest'))


def source_pairs(run, e):
    """the pairs are the symbol coder's own table"""
    for y in lib.sources(run, e.c):
        for z in t.walk(y):
            if z.op == 'init' and z.a[0].op == 'fld':
                return True
    return False
