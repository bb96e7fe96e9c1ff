"""C22: bisection only in a sorted part, appended symbols found again.

The state a constructor leaves is checked to have its first F entries sorted (F the member the lookups bisect up to),
later operations to leave these alone; every bisection to stay in that part with the order of the sort; and every entry
appended by a lookup to be one the table of appended symbols did not have, put there with its id and answered from it."""
from .. import lib, dictx, coder, terms as t
from ..terms import raw, size, EMPTY, ZERO
from ..cx import Broken

LT = raw('lessthan')


def check(cx):
    cx.rule('range', 'a bisection stays inside the sorted part and uses the order of the sort', 1)
    cx.rule('sorted', 'the entries counted as sorted are sorted when a constructor or operation is done', 3)
    cx.rule('found', 'a symbol is appended only when the table of appended symbols lacks it, enters it with its id, and is answered from it afterwards', 3)
    R = dictx.roles(cx)
    S = R.S
    N, cmps = bound(cx, R)
    order = set()
    for u in cx.ctors(dictx.CLS):
        run = cx.run(u, ('c22',), keepmem=True)
        for ret in lib.returns(run):
            state(cx, run, ret, R, N, order, True)
    for u in lib.entries(cx, dictx.CLS):
        run = cx.run(u, ('c22',), keepmem=True)
        for e in run.ev:
            if e.kind == 'bisect' and e.addr is S:
                bisect(cx, run, e, R, N, order)
        wr = [e for e in run.ev if e.kind in ('store', 'mut') and e.addr in (S, N) and e.how not in ('noop', 'reserve')]
        if all(e.addr is S and e.how == 'push' for e in wr):
            if wr:
                cx.ob('sorted', wr[0], True, 'entries are only appended: the sorted part stays as it is')
        else:
            for ret in lib.returns(run):
                state(cx, run, ret, R, N, order, False)
        pub = {cx.P.functions[x]['fn']['q'] for x in lib.entries(cx, dictx.CLS)} - {run.q}
        pushes = [e for e in run.ev if e.kind == 'mut' and e.addr is S and e.how == 'push' and not any(q in pub for _, q in e.ins.stack)]
        if pushes:
            found(cx, run, R, pushes, N)
    other(cx, R)


def bound(cx, R):
    """the member lookups bisect up to"""
    c, cm = set(), set()
    for u in lib.entries(cx, dictx.CLS):
        run = cx.run(u, ('c22',), keepmem=True)
        for e in run.ev:
            if e.kind == 'bisect' and e.addr is R.S and len(e.a) > 1:
                for x in t.walk(e.a[1]):
                    if x.op == 'init' and x.a[0] in R.ints:
                        c.add(x.a[0])
    if len(c) > 1:
        raise Broken('bisections up to different members')
    if not c and len(R.ints) == 1:
        c = set(R.ints)
    return (c.pop() if c else None), cm


def greater(x):
    return x.op in ('greaterthan', 'gt') or 'greater' in t.show(x, 2)


def samecmp(a, b):
    if a is b:
        return True
    if (a is LT and greater(b)) or (b is LT and greater(a)):
        return False
    return None


def bisect(cx, run, e, R, N, order):
    G = run.G
    lo, hi = e.a[0], e.a[1]
    if lo.op != 'it' or hi.op != 'it' or lo.a[0] is not R.S or hi.a[0] is not R.S:
        cx.ob('range', e, None, 'the range of the bisection is not understood')
        return
    s0 = run.I.initial(R.S)
    top = hi.a[1]
    ok = None
    if N is not None:
        n0 = run.I.initial(N)
        G = run.G
        if top is n0 or G.proves(e.facts, t.le(top, n0), 4) or lib.always(run, e, t.le(top, n0)):
            ok = True
    if ok is None:
        whole = top is size(s0)
        if whole and grows(cx, R) and not keepsorted(cx, R):
            ok = False
        elif whole and not grows(cx, R):
            ok = True
        elif N is not None and lib.visible(top):
            n0 = run.I.initial(N)
            d = cdiff(top, n0)
            if d is not None and d > 0:
                ok = False
    cx.ob('range', e, ok, 'the bisection ends where the sorted part ends', t.show(top, 4))
    if lo.a[1] is not ZERO:
        # entries before the start are not looked at
        cx.ob('range', e, False if lo.a[1].op == 'c' and lo.a[1].a[0] > 0 else None, 'the bisection begins at the first entry', t.show(lo.a[1], 4))
    cm = None
    for x in [y for f in run.ev if f.new is not None for y in t.walk(f.new)]:
        if x.op == 'lb' and x.a[1] is s0 and x.a[3] is top:
            cm = x.a[-1]
    if cm is not None:
        for o in sorted(order, key=repr):
            cx.ob('range', e, samecmp(cm, o), 'the bisection uses the order of the sort', t.show(o, 3))


def cdiff(a, b):
    x = t.sub(a, b)
    return x.a[0] if x.op == 'c' and isinstance(x.a[0], int) else None


def grows(cx, R):
    for u in lib.entries(cx, dictx.CLS):
        run = cx.run(u, ('c22',), keepmem=True)
        if any(e.kind == 'mut' and e.addr is R.S and e.how == 'push' for e in run.ev):
            return True
    return False


def keepsorted(cx, R):
    for u in lib.entries(cx, dictx.CLS):
        run = cx.run(u, ('c22',), keepmem=True)
        if any(e.kind in ('mut', 'sort') and e.addr is R.S and e.how in ('sort', 'insat', 'insert') for e in run.ev):
            return True
    return False


def state(cx, run, ret, R, N, order, ctor):
    """the pair (entries, sorted count) a constructor or operation leaves"""
    if N is None:
        cx.ob('sorted', ret, None, 'no member counts the sorted entries')
        return
    I = run.I
    s = ret.mem.get(R.S, I.initial(R.S))
    n = ret.mem.get(N, I.initial(N))
    both = raw('pair2', s, n)
    for facts, x in lib.cases(run, ret.facts, both):
        if lib.contradictory(facts):
            continue
        s1, n1 = x.a
        cx.ob('sorted', ret, sortedstate(run, facts, R, N, s1, n1, order, ctor), 'the entries counted as sorted are sorted',
              '%s of %s' % (t.show(n1, 4), t.show(s1, 3)))
        if ctor and s1.op == 'init' and s1.a[0].op == 'fld':
            # a copy: also the table of appended symbols, unless everything is sorted
            for M in R.M:
                m = ret.mem.get(M, I.initial(M))
                src = raw('fld', s1.a[0].a[0], M.a[1])
                ok = m is I.initial(src)
                cx.ob('found', ret, ok or (False if lib.visible(m) else None), 'a copy takes the table of appended symbols along with the entries')


def sortedstate(run, facts, R, N, s, n, order, ctor):
    I, G = run.I, run.G
    if n is ZERO:
        return True
    if not ctor:
        base = s
        while base.op == 'push':
            base = base.a[0]
        if base is I.initial(R.S) and (n is I.initial(N) or G.proves(facts, t.le(n, I.initial(N)), 3)):
            return True
        if base is I.initial(R.S) and cdiff(n, I.initial(N)) and s is not base:
            # counted as sorted without a look at the order
            look = any(y.op in ('idx', 'rf', 'rcall', 'opq', 'ext', 'vlt') and any(z is base for z in t.walk(y)) and a.op not in ('prefix', 'eq', 'ge0')
                       for _, a in lib.conds(run) for y in t.walk(a))
            return None if look else False
    if s.op == 'init' and s.a[0].op == 'fld' and s.a[0].a[1] == R.S.a[1]:
        src = raw('fld', s.a[0].a[0], N.a[1])
        if n is I.initial(src):
            return True
        return False if lib.visible(n) and not G.proves(facts, t.le(n, I.initial(src)), 3) else None
    base = s
    while base.op == 'push':
        base = base.a[0]
    if base.op == 'sorted':
        order.add(base.a[1])
        if n is size(base) or G.proves(facts, t.le(n, size(base)), 4):
            return True
        if base is not s and n is size(s):
            return False
        return False if cdiff(n, size(base)) else None
    if base is EMPTY and (n is ZERO or n is size(base)):
        return True
    # counted as sorted without a sort
    if n is size(s) or (lib.visible(n) and n.op == 'c' and n.a[0] > 0):
        ev = [e for e in run.ev if e.kind in ('sort', 'mut') and e.how == 'sort' and e.addr is R.S]
        if ev:
            return None
        return False if s is not EMPTY and known(run, s) else None
    return None


def known(run, s):
    """not sorted by itself: what was given, possibly changed on the way"""
    return not any(x.op in ('sorted', 'opq', 'ext', 'rcall', 'rf', 'bot', 'hav', 'insat') for v in [s] for x in t.walk(v)) and \
        all(not any(x.op in ('sorted', 'opq', 'ext', 'rcall', 'rf', 'hav') for x in t.walk(y)) for y in lib.sources(run, s))


def found(cx, run, R, pushes, N):
    I = run.I
    scan = scans(run, R)
    seq = coder.param(run, 0)
    k = next((j for j, p in enumerate(run.fn['params']) if p['t'].get('rc') in lib.SETS and p['t'].get('ptr')), None)
    exp = raw('argp', k, run.fn['params'][k]['n']) if k is not None else None
    ex = I.initial(t.OBJ(exp)) if exp is not None else None
    for e in pushes:
        c = single(e.val)
        if c is None:
            cx.ob('found', e, None, 'the appended entry is not one symbol')
            continue
        puts = [p for p in run.ev if p.kind == 'mut' and p.addr in R.M and p.how in ('put', 'ins', 'try', 'updkey') and
                (p.key is c or run.G.proves_eq(p.facts | e.facts, p.key, c))]
        if not puts:
            cx.ob('found', e, None if scan else False, 'the appended symbol is entered into a table of appended symbols')
            continue
        M = puts[0].addr
        m0 = I.initial(M)
        ok = lib.must_follow(run, e, puts) or (lib.must_precede(run, e, puts))
        cx.ob('found', e, ok, 'every way that appends enters the symbol into the table')
        idv = size(e.old)
        for p in puts:
            v = p.val
            good = v is idv or run.G.proves_eq(p.facts, v, idv)
            cx.ob('found', p, True if good else (False if cdiff(v, idv) or (lib.visible(v) and v.op == 'c') else None), 'the table gets the id of the appended entry', t.show(v, 4))
            if not good:
                continue
        absent = t.not_(t.has(m0, c))
        ok = lib.always(run, e, absent)
        if not ok and exp is not None:
            # absent, or excluded (never true without exclusions)
            bad = frozenset(e.facts) | {(t.has(m0, c), True)}
            ok = run.G.contradictory(bad) or lib.always(run, e, t.FALSE, facts=bad)
        if not ok:
            odd = any(y.op in ('rf', 'rcall', 'opq', 'ext', 'and', 'or') and any(z is m0 for z in t.walk(y)) for _, a in lib.conds(run) for y in t.walk(a))
            ok = None if odd or scan else False
        cx.ob('found', e, ok, 'a symbol is appended only when the table does not have it')
        fact0 = {(t.le(size(seq), ZERO), False), (t.has(m0, c), True)}
        if exp is None:
            worlds = [set()]
        else:
            worlds = [{(t.eq(exp, t.NULL), True)}, {(t.eq(exp, t.NULL), False), (t.has(ex, raw('get', m0, c)), False)}]
        for ret in lib.returns(run):
            for blk, facts, v in lib.valts(run, ret, ret.a[0] if ret.a else ZERO):
                if v.op != 'c' or v.a[0] >= 0 or lib.contradictory(facts):
                    continue
                ok = True
                for w in worlds:
                    bad = frozenset(facts) | fact0 | w
                    if not (run.G.contradictory(bad) or lib.always(run, ret, t.FALSE, facts=bad, blk=blk)):
                        ok = False
                if not ok:
                    odd = any(y.op in ('rf', 'rcall', 'opq', 'ext', 'and', 'or') and any(z is m0 for z in t.walk(y)) for _, a in lib.conds(run) for y in t.walk(a))
                    ok = None if odd or scan else False
                cx.ob('found', ret, ok, '"not found" is only answered when the table lacks the symbol or its id is excluded')


def single(v):
    if v.op == 'fill':
        return v.a[1] if v.a[0].op == 'c' and v.a[0].a[0] == 1 else None
    if v.op == 'push' and v.a[0] is EMPTY:
        return v.a[1]
    return None


def scans(run, R):
    """the entries are gone through one by one somewhere"""
    for e in run.ev:
        for x in ([e.addr] if e.addr is not None else []) + [y for y in e.a or () if isinstance(y, t.T)]:
            for y in t.walk(x):
                if (y.op == 'idx' and y.a[0] is run.I.initial(R.S)) or (y.op == 'el' and y.a[0] is R.S):
                    i = y.a[1]
                    if i.op == 'phi' and i in run.I.phis and any(cdiff(v, i) in (1, -1) for v in run.I.phis[i].values()):
                        return True
    for e in run.ev:
        if e.kind in ('range', 'mismatch') and e.addr is R.S:
            return True
    return False


def other(cx, R):
    """bisections anywhere else"""
    seen = set()
    for run in lib.surface(cx, 'c22s'):
        for e in run.ev:
            if e.kind != 'bisect' or e.loc in seen or e.addr is R.S:
                continue
            if e.addr is not None and e.addr.op == 'fld' and e.addr.a[1] == R.S.a[1]:
                continue
            seen.add(e.loc)
            v = None
            for f in run.ev:
                if f.new is not None:
                    for x in t.walk(f.new):
                        if x.op == 'lb' and any(y is x.a[1] for y in lib.versions(run, e.addr)):
                            v = x
            if v is None:
                cx.ob('range', e, None, 'the range of the bisection is not understood')
                continue
            s = v.a[1]
            if s.op == 'sorted':
                cx.ob('range', e, samecmp(v.a[-1], s.a[1]), 'the bisection works on a sorted range, in its order')
            else:
                cx.ob('range', e, None, 'the bisected range is not seen to be sorted')
