"""C28: training respects its size budget.

The number of entries that go into the new dictionary is followed as arithmetic on the slots given: how the candidates are cut
when pruning, what bounds the taking of candidates when growing, and what slots pruning is given."""
from .. import lib, rank, patterns, terms as t
from ..terms import T, raw, C, ZERO, ONE, size, sub, add, lin_parts
from . import c20

BLD = 'IntVGramBuilderImpl'


def check(cx):
    cx.rule('cut', 'pruning keeps at most the slots given and one entry for every single symbol', 1)
    cx.rule('grow', 'growing takes at most the slots given and what is there', 1)
    cx.rule('once', 'a candidate goes into the new dictionary at most once', 2)
    cx.rule('given', 'pruning is given the configured size less the base symbols', 1)
    cx.rule('config', 'the configured size is the one given, and stays', 1)
    cx.rule('base', 'every base symbol is counted in what is subtracted', 1)
    for name in (rank.GROW, rank.PRUNE):
        S = rank.side(cx, name)
        if S is None or not S.cands:
            cx.ob('once', (None, rank.CLS + '::' + name), None, 'the candidates are not recognised')
            continue
        L, tv, tp, fp = rank.outloop(S)
        if L is None or tv[0] != 'ok':
            cx.ob('once', lib.at(S.run), None, 'the loop that fills the new dictionary is not recognised')
            continue
        none, two = rank.periter(S.run, L, tp)
        cx.ob('once', tp[0], two is None, 'a candidate goes into the new dictionary at most once')
        for e in tp:
            if e.blk not in L.body:
                cx.ob('once', e, None, 'something is put into the new dictionary outside the walk over the candidates')
        if name == rank.PRUNE:
            cut(cx, S, L, tv, tp)
        else:
            grow(cx, S, L, tv, tp)
    given(cx)


def cut(cx, S, L, tv, tp):
    run = S.run
    cs = c20.cuts(S)
    if not cs:
        ks = [k for e in tp for k in rank.allowed(S, e)]
        if ks:
            for k in ks:
                r = atmost(S, k)
                cx.ob('cut', tp[0], r[0], 'what pruning keeps is bounded by the slots', r[1])
        else:
            odd = [x for x in run.ev if x.kind == 'mut' and x.addr in S.lists and x.how not in ('push', 'insat', 'append', 'noop', 'reserve', 'sort')]
            odd = odd or len([x for x in L.exits]) > 1 or rank.skips(run, L, tp) or tv[1] is not None and tv[1].op not in ('sorted', 'phi', 'push')
            cx.ob('cut', tp[0], None if odd else False, 'what pruning keeps is bounded by the slots', 'nothing is cut')
        return
    for e, K in cs:
        if K is None:
            cx.ob('cut', e, None, 'what pruning keeps is bounded by the slots', 'not recognised')
            continue
        ok, how = atmost(S, K)
        cx.ob('cut', e, ok, 'what pruning keeps is bounded by the slots', how)
        if e.how == 'pop':
            cx.ob('cut', e, repeated(S, e), 'candidates are cut until the bound is met')
        p = any(run.LL.path(e.pos, [c.e.pos]) for c in S.cands)
        cx.ob('cut', e, False if p else True, 'no candidate is added after the cut')
    # on every way the cut is passed
    pts = []
    for e, K in cs:
        l = run.LL.of_block(e.blk) if e.how == 'pop' else None
        pts.append((l.header, -1) if l is not None else e.pos)
    ent = (run.I.L.entryblk.id, -1)
    p = run.LL.path(ent, [x.pos for x in tp], [(b, 0) if i < 0 else (b, i) for b, i in pts] + pts)
    ok = True
    if p is not None:
        hs = {b for b, i in pts}
        # a cut that is skipped when there is nothing to cut is as good
        ok = None
    cx.ob('cut', tp[0], ok, 'nothing is published without the cut')


def repeated(S, e):
    """the removal of one candidate goes on until the bound holds"""
    run = S.run
    l = run.LL.of_block(e.blk)
    if l is None:
        return False
    fs = [f for f in e.facts if f[0] != 'sel' and any(k.op == 'size' and rank.overlist(S, k.a[0], e.addr) for k in (lin_parts(f[0].a[0])[1] if f[0].op == 'ge0' else ()))]
    if not fs:
        return None
    for b, k, d in l.exits:
        f = run.I.out.get((b, k))
        if f is None:
            continue
        if not any((g[0], not g[1]) in f[1] for g in fs) and not any(run.G.proves(f[1], t.not_(g[0]) if g[1] else g[0], 3) for g in fs):
            return False
    return True


def isbase(k):
    return k.op == 'rf' and k.a[0].endswith('::size') or k.op == 'size' and any(x.op == 'rf' and x.a[0].endswith('::alphabet') for x in t.walk(k.a[0]))


def atmost(S, K):
    """K <= slots + number of single symbols -> (verdict, how)"""
    run = S.run
    c0, d0 = lin_parts(K)
    ph = [k for k in d0 if k.op == 'phi']
    if len(ph) == 1 and d0[ph[0]] == 1:
        cl = rank.count_loop(S, ph[0])
        if cl is None:
            return None, 'places: ' + t.show(K, 4)
        init, alts, L, tr = cl
        base = sub(add(init, sub(K, ph[0])), S.slots)
        c, d = lin_parts(base)
        if d:
            if len(d) == 1 and isbase(next(iter(d))) and next(iter(d.values())) > 0:
                return False, 'the count starts with the number of all entries'
            return None, 'start: ' + t.show(init, 4)
        if c > 0:
            return False, 'the count starts %d too high' % c
        i = [x for x in run.I.phis if x.a[0] == L.header and x is not ph[0]]
        i = [x for x in i if any(z is x for d, f, ed in alts for g in f if g[0] != 'sel' for z in t.walk(g[0]))]
        if all(d <= 0 for d, f, ed in alts):
            return True, 'no place is added'
        if len(i) != 1:
            return None, 'the entry counted is not recognised'
        for d, f, ed in alts:
            b = rank.base_fact(S, f, i[0])
            if d > 1:
                return False, 'an entry adds %d places' % d
            if d == 1 and b is not True:
                return (False if b is False or c20.definite(S, f, i[0]) or blind(S, f, i[0]) else None), 'a composite adds a place'
        return True, 'one more for every single symbol'
    d = sub(K, S.slots)
    c, p = lin_parts(d)
    if not p:
        return c <= 0, 'places: slots%+d' % c
    if len(p) == 1 and isbase(next(iter(p))) and next(iter(p.values())) > 0:
        return False, 'places: slots and one for every entry'
    if K.op == 'size' or any(k.op == 'size' and rank.overlist(S, k.a[0], S.lists[0]) for k in p):
        return None, 'places: ' + t.show(K, 4)
    if lib.seen(run, K) and not any(x is S.slots for x in t.walk(K)):
        return False, 'the slots are not asked'
    return None, 'places: ' + t.show(K, 4)


def blind(S, fs, i):
    """nothing at all is asked about the entry but that it is one"""
    for f in fs:
        if f[0] == 'sel':
            continue
        if any(x is i for x in t.walk(f[0])) and f[0].op != 'ge0':
            return False
        if f[0].op == 'ge0' and any(x is i for x in t.walk(f[0].a[0])) and i not in lin_parts(f[0].a[0])[1]:
            return False
    return True


def grow(cx, S, L, tv, tp):
    run = S.run
    for e in tp:
        ks = rank.allowed(S, e)
        if not ks:
            lim = [b for b, k, d in L.exits if (run.I.out.get((b, k)) and not c20.endfact(S, run.I.out[(b, k)][1], L) and not scored(S, run.I.out[(b, k)][1], tv))]
            lim = lim or [ed for ed in rank.skips(run, L, tp)]
            cx.ob('grow', e, None if lim else False, 'what growing takes is bounded by the slots', 'not recognised' if lim else 'nothing bounds it')
            continue
        rs = []
        for K in ks:
            d = sub(K, S.slots)
            c, p = lin_parts(d)
            if not p:
                rs.append((c <= 0, 'places: slots%+d' % c))
            elif len(p) == 1 and c20.isall(S, next(iter(p))):
                m = next(iter(p.values()))
                rs.append((m <= 1 and c <= 0 if m <= 1 else False, 'places: slots %+d * entries %+d' % (m, c)))
            elif all(k is S.slots or c20.isall(S, k) for k in p) and p.get(S.slots, 0) > 0:
                rs.append((False, 'places: ' + t.show(K, 4)))
            elif not any(x is S.slots for x in t.walk(K)) and lib.seen(run, K) and not any(c20.isall(S, k) for k in p):
                rs.append((False, 'the slots are not asked: ' + t.show(K, 4)))
            else:
                rs.append((None, 'places: ' + t.show(K, 4)))
        best = [r for r in rs if r[0]] or [r for r in rs if r[0] is None] or rs
        cx.ob('grow', e, best[0][0], 'what growing takes is bounded by the slots', best[0][1])


def scored(S, fs, tv):
    """the walk ends because of the score"""
    el = rank.item_of(S, None)
    sc = t.getf(el, S.m['score'])
    return any(f[0] != 'sel' and any(x is sc for x in t.walk(f[0])) for f in fs)


def given(cx):
    fs = cx.resolve(BLD, 'update')
    if not fs:
        cx.ob('given', (None, BLD + '::update'), None, 'there is no update')
        return
    run = cx.run(fs[0], ('c28',), opaque=opaque, keepmem=True)
    ints = {f['n'] for f in cx.fields(BLD) if f['t'].get('int')}
    vecs = {f['n'] for f in cx.fields(BLD) if f['t'].get('rc') == 'std::vector'}
    n = 0
    syms = None
    conff = set()
    for e in run.ev:
        fn = (e.x or {}).get('fn') or {}
        if e.kind != 'call' or fn.get('n') != rank.PRUNE or fn.get('cls') not in ('StatDict', rank.CLS):
            continue
        n += 1
        ps = fn.get('pt') or []
        v = [x for x in e.a[1:] if isinstance(x, T)][0:1]
        vs = [x for x in (e.val or ()) if isinstance(x, T) and x.op not in ('argp', 'ptr', 'obj')]
        k = vs[0] if vs else (v[0] if v else None)
        if k is None:
            cx.ob('given', e, None, 'the slots given are not recognised')
            continue
        for f, x in lib.cases(run, e.facts, k):
            if lib.contradictory(f):
                continue
            c, p = lin_parts(x)
            conf = [y for y in p if y.op == 'init' and y.a[0].op == 'fld' and y.a[0].a[1] in ints]
            sy = [y for y in p if y.op == 'size' and y.a[0].op == 'init' and y.a[0].a[0].op == 'fld' and y.a[0].a[0].a[1] in vecs]
            conff |= {y.a[0].a[1] for y in conf}
            rest = [y for y in p if y not in conf and y not in sy]
            if sy:
                syms = sy[0].a[0].a[0]
            if len(conf) == 1 and p[conf[0]] == 1 and not rest:
                ok = len(sy) == 1 and p[sy[0]] <= -1 and c <= 0
                cx.ob('given', e, ok, 'pruning is given the configured size less the base symbols', t.show(x, 4))
            elif not conf and not rest and (c <= 0 and not sy or False):
                cx.ob('given', e, True, 'pruning is given no slots')
            else:
                ok = False if (lib.seen(run, x) or all(told(run, y) for y in p)) and not conf and not any(y.op == 'min' for y in t.walk(x)) else None
                cx.ob('given', e, ok, 'pruning is given the configured size less the base symbols', t.show(x, 4))
    if not n:
        cx.ob('given', lib.at(run), None, 'pruning is not recognised')
    if syms is not None:
        base(cx, run, syms)
    if conff:
        config(cx, conff)


def config(cx, names):
    """the configured size is set when the builder is made and never changed"""
    for u in cx.ctors(BLD) + cx.fns(BLD):
        run = cx.run(u, ('c28',), opaque=opaque, keepmem=True)
        made = cx.P.functions[u].get('ctor') or u in cx.ctors(BLD)
        for e in run.ev:
            if e.kind != 'store' or e.addr is None or e.addr.op != 'fld' or e.addr.a[1] not in names or e.addr.a[0] is not lib.SELF or e.new is None:
                continue
            if e.how == 'init' and e.new.op == 'undef':
                continue
            for f, v in lib.cases(run, e.facts, e.new):
                c, p = lin_parts(v)
                k = next(iter(p)) if len(p) == 1 else None
                ok = None
                if k is not None and not c and p[k] == 1 and (k.op == 'arg' or k.op == 'rf' and k.a[0].endswith('::size') or k.op == 'size' or k is run.I.initial(e.addr)):
                    ok = True
                elif any(x.op == 'arg' or x is run.I.initial(e.addr) for x in p) and lib.seen(run, v):
                    ok = False
                cx.ob('config', e, ok, 'the configured size is kept as it was given', t.show(v, 4))


def told(run, y):
    return y.op == 'rf' and y.a[0].rsplit('::', 1)[-1] in ('size', 'freq', 'parent') or lib.seen(run, y)


def opaque(fn):
    if fn.get('cls') in ('StatDict', 'StatDictImpl', 'IntDict', 'IntDictImpl'):
        return 'none' if fn.get('n') in ('parse', 'expand', 'reduce') else 'pure'
    return None


def base(cx, run, syms):
    """the base symbols found later are recorded"""
    I, LL, G = run.I, run.LL, run.G
    old = size(I.initial(syms))
    ms = [e for e in run.ev if e.kind == 'mut' and e.addr is syms and e.how not in ('noop', 'reserve')]
    if not ms:
        cx.ob('base', lib.at(run), None, 'base symbols found later are not recorded here')
        return
    for e in ms:
        if e.how != 'push':
            cx.ob('base', e, None, 'the base symbols are changed in another way (%s)' % e.how)
            continue
        L = LL.of_block(e.blk)
        if L is None:
            cx.ob('base', e, None, 'not in a loop')
            continue
        r = None
        for f in e.facts:
            if f[0] == 'sel' or f[0].op != 'ge0':
                continue
            x = f[0].a[0] if f[1] else sub(C(-1), f[0].a[0])
            c, p = lin_parts(x)
            ph = [k for k in p if k.op == 'phi' and k.a[0] == L.header and p[k] == 1]
            if len(ph) != 1 or p.get(old) != -1 or len(p) != 2:
                continue
            cl = counter(run, ph[0], L)
            if cl is None or cl[0].op != 'c':
                r = None
                continue
            init, alts = cl
            # the (j+1)th base symbol is recorded when init + j + c >= old
            cc = init.a[0] + c
            r = cc >= 0, 'from base symbol number %d on after those known' % (1 - cc)
        if r is None:
            cx.ob('base', e, None, 'a base symbol that is not known yet is recorded')
        else:
            cx.ob('base', e, r[0], 'every base symbol that is not known yet is recorded', r[1])
        for ed in rank.skips(run, L, [x for x in ms if x.blk in L.body]):
            f = I.out[ed][1]
            ok = any(x.op == 'rf' and x.a[0].endswith('::parent') and G.proves(f, t.ge0(x), 2) for g in f if g[0] != 'sel' for x in t.walk(g[0]))
            if not ok:
                # those known already
                for g in f:
                    if g[0] == 'sel' or g[0].op != 'ge0':
                        continue
                    x = g[0].a[0] if g[1] else sub(C(-1), g[0].a[0])
                    c, p = lin_parts(x)
                    if p.get(old) == 1 and any(k.op == 'phi' and k.a[0] == L.header and p[k] == -1 for k in p):
                        ok = True
            if not ok:
                own = [g for g in f if g[0] != 'sel' and any(x.op == 'phi' and x.a[0] == L.header for x in t.walk(g[0]))]
                odd = any(x.op in ('opq', 'ext', 'bot', 'has', 'hav') for g in own for x in t.walk(g[0]))
                ok = None if odd or not any(x.op == 'rf' and x.a[0].rsplit('::', 1)[-1] in ('freq', 'get', 'size') for g in own for x in t.walk(g[0])) else False
                ln = [g for g in own if any(x.op == 'rf' and x.a[0].endswith('::get') for x in t.walk(g[0]))]
                if ln:
                    ok = None
            cx.ob('base', (c20.loc(run, ed), run.q), ok, 'only composites and known base symbols are passed over')


def counter(run, ph, L):
    ops = run.I.phis.get(ph)
    if ops is None:
        return None
    init = [ops[e] for e in L.entry if e in ops]
    if not init or any(x is not init[0] for x in init):
        return None
    return init[0], None
