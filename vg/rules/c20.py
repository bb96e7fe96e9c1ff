"""C20: base symbols are never evicted by ranking.

The candidates growing and pruning collect are values (first, second, score, count); the obligations are about those values,
the ways on which a candidate is not made, and the arithmetic of the number of places."""
from .. import lib, rank, patterns, terms as t
from ..terms import T, raw, C, ZERO, ONE, size, sub, add, lin_parts
from . import c14


def check(cx):
    cx.rule('top', 'a candidate that may be a single symbol has the highest score there is', 3)
    cx.rule('offered', 'every entry that may be a single symbol becomes a candidate', 2)
    cx.rule('excludes', 'only entries known to be composite are left out', 1)
    cx.rule('slot', 'there is a place for every single symbol beyond the places for composites', 2)
    cx.rule('cut', 'candidates are taken from the best to the worst, and the worst are cut', 2)
    for name in (rank.GROW, rank.PRUNE):
        S = rank.side(cx, name)
        if S is None or not S.cands:
            cx.ob('top', (None, rank.CLS + '::' + name), None, 'the candidates are not recognised')
            continue
        tops(cx, S)
        offered(cx, S, name)
        order(cx, S, name)
        if name == rank.PRUNE:
            excludes(cx, S)
            slot_reduce(cx, S)
        else:
            slot_expand(cx, S)


def tops(cx, S):
    run = S.run
    for c in S.cands:
        if not rank.existing(S, c):
            # made of two entries: composite
            ok = True if any(run.G.proves(c.facts, g, 3) for g in (t.ge0(c.first),)) or 'mkey' in str(c.first) else None
            cx.ob('top', c.e, ok, 'a pair is composite')
            continue
        if rank.composite(S, c.e, c.second, facts=c.facts):
            cx.ob('top', c.e, True, 'the entry is composite')
            continue
        tp = rank.top(run, c.score)
        cx.ob('top', c.e, tp, 'a candidate that may be a single symbol has the highest score there is', t.show(c.score, 4))


def entries(S, L):
    """the entry an iteration is about, as ids: {id value} over the loop's index or the walked texts"""
    run = S.run
    return list(dict.fromkeys(c.second for c in S.cands if c.e.blk in L.body and rank.existing(S, c)))


def offered(cx, S, name):
    run = S.run
    LL, I = run.LL, run.I
    done = set()
    for c in S.cands:
        if not rank.existing(S, c):
            continue
        ls = LL.enclosing(c.e.blk)
        if not ls:
            cx.ob('offered', c.e, None, 'the candidate is not made in a loop over the entries')
            continue
        L = walk(S, c.second, ls)
        if L is None:
            cx.ob('offered', c.e, None, 'the walk over the entries is not recognised')
            continue
        if L.header in done:
            continue
        done.add(L.header)
        mine = [x.e for x in S.cands if x.e.blk in L.body and rank.existing(S, x)]
        ids = entries(S, L)
        w = whole(S, L, ids)
        cx.ob('offered', c.e, w, 'the walk goes over every entry')
        if len(set(ids)) != 1:
            cx.ob('offered', c.e, None, 'the entry of an iteration is not recognised')
            continue
        i = ids[0]
        for ed in rank.skips(run, L, mine):
            fs = I.out[ed][1]
            bf = rank.base_fact(S, fs, i)
            comp = bf is False
            ex = [f for f in fs if f[0] != 'sel' and f[0].op == 'has' and f[0].a[1] is i and f[1]]
            ok = True if comp or ex else None
            if ok is None:
                ok = False if bf is True or definite(S, fs, i) else None
            cx.ob('offered', (loc(run, ed), run.q), ok, 'an entry that is not made a candidate is composite or left out', '')
        ex = [x for x in LL.exits(L) if x]
        if len(L.exits) > 1:
            for b, k, d in L.exits:
                f = I.out.get((b, k))
                if f and not endfact(S, f[1], L):
                    cx.ob('offered', (loc(run, (b, k)), run.q), False if name else None, 'the walk over the entries does not stop early')


def loc(run, ed):
    b = run.I.blocks[ed[0]]
    for e in run.ev:
        if e.blk == ed[0] and e.loc:
            return e.loc
    return lib.at(run)[0]


def endfact(S, fs, L):
    """the loop is left at its end"""
    ends = []
    for tr in S.run.LL.traversals(L):
        ends.append(tr)
    for f in fs:
        if f[0] == 'sel' or f[0].op != 'ge0':
            continue
        x = f[0].a[0] if f[1] else sub(C(-1), f[0].a[0])
        c, d = lin_parts(x)
        for k, m in d.items():
            if k.op == 'phi' and k.a[0] == L.header and m == 1 and c == 0:
                return True
    return False


def definite(S, fs, i):
    """what is known on the way does not exclude single symbols: everything known about the entry is visible and none of it
    tells its length, its parent or the set of entries left out"""
    about = [f for f in fs if f[0] != 'sel' and any(x is i for x in t.walk(f[0])) and not (f[0].op == 'has' and not f[1])]
    if not about:
        return False
    for f in about:
        for x in t.walk(f[0]):
            if x.op in ('opq', 'ext', 'rcall', 'bot', 'undef', 'has', 'hav'):
                return False
            if x.op == 'phi' and x is not i and x not in t.walk(i):
                return False
    return True


def walk(S, i, ls):
    """the enclosing loop whose variable the entry is"""
    for L in ls:
        if any(x.op == 'phi' and x.a[0] == L.header for x in t.walk(i)):
            return L
    return None


def whole(S, L, ids):
    """the loop goes over every entry: over the table of frequencies, the ids or the alphabet"""
    run = S.run
    LL, I = run.LL, run.I
    for i in ids:
        ph = [x for x in t.walk(i) if x.op == 'phi' and x.a[0] == L.header]
        if len(ph) != 1:
            return None
        ops = I.phis.get(ph[0])
        if ops is None:
            return None
        cl = rank.steps(S, ph[0], L)
        if cl is None:
            return None
        init, st = cl
        if st == {1} and init.op == 'c':
            if init.a[0] > 0:
                return False
        elif st == {-1}:
            return None
        elif st != {1}:
            return False if init is ZERO and all(isinstance(x, int) for x in st) and 0 not in st else None
        b = ends(S, L, ph[0])
        if not b:
            return None
        r = []
        for x in b:
            c, d = lin_parts(x)
            k = next(iter(d)) if len(d) == 1 else None
            if k is None or d[k] != 1 or not (k.op == 'size' or k.op == 'rf' and k.a[0].endswith('::size')):
                return None
            r.append(c)
        return True if max(r) >= 0 else False
    return None


def ends(S, L, ph):
    """values the variable runs up to: `ph < bound` where the loop goes on"""
    r = []
    I = S.run.I
    for b, k, d in L.exits:
        f = I.out.get((b, k))
        for a in (f[1] if f else ()):
            if a[0] == 'sel' or a[0].op != 'ge0':
                continue
            x = a[0].a[0] if not a[1] else sub(C(-1), a[0].a[0])       # not (x >= 0): x = bound - ph - 1
            c, dd = lin_parts(x)
            if dd.get(ph) == -1:
                r.append(add(add(x, ph), ONE))
    return r


def excludes(cx, S):
    run = S.run
    n = 0
    for e in run.ev:
        if e.kind == 'mut' and e.how in ('ins', 'put', 'try') and e.key is not None and e.addr is not None and isset(run, e, S):
            n += 1
            ok = rank.composite(S, e, e.key)
            if ok is False:
                ok = False if definite_key(S, e) else None
            cx.ob('excludes', e, ok, 'only an entry known to be composite is left out', t.show(e.key, 3))
    if not n:
        cx.ob('excludes', lib.at(run), None, 'no set of entries to leave out is recognised')


def definite_key(S, e):
    r = [x for x in t.walk(e.key) if x.op in ('opq', 'ext', 'rcall', 'bot', 'hav')]
    if r:
        return False
    return e.key.op == 'phi' or e.key.op in ('idx', 'getf', 'c')


def isset(run, e, S):
    """the set handed to a search or asked before a candidate is made"""
    a = e.addr
    for f in [f for c in S.cands for f in c.facts]:
        if f[0] != 'sel' and f[0].op == 'has':
            for x in t.walk(f[0].a[0]):
                if x.op == 'phi' and x.a[1] is a:
                    return True
                if x is a:
                    return True
    for y in run.ev:
        if y.kind == 'call' and (y.x.get('fn') or {}).get('n') in ('weightedParse', 'search') and any(x is a or isinstance(x, T) and x.op in ('ptr', 'argp') and t.OBJ(x) is a for x in (y.val or ())):
            return True
    return False


def slot_reduce(cx, S):
    run = S.run
    for e, K in cuts(S):
        if K is None:
            cx.ob('slot', e, None, 'the number of places is not recognised')
            continue
        r = places(S, e, K)
        cx.ob('slot', e, r[0], 'every single symbol has a place of its own', r[1])
    if not cuts(S):
        cx.ob('slot', lib.at(run), True, 'nothing is cut')


def cuts(S):
    """places where candidates are cut off, with the number that stays"""
    r = []
    for e in S.run.ev:
        if e.kind != 'mut' or e.addr not in S.lists:
            continue
        if e.how == 'pop':
            b = rank.bound(S, e, e.addr)
            r.append((e, rank.strip_min(S, b[0], e.addr) if b else None))
        elif e.how == 'resize':
            r.append((e, e.key if isinstance(e.key, T) else None))
        elif e.how == 'erase':
            r.append((e, erased(S, e)))
    return r


def erased(S, e):
    return None


def places(S, e, K):
    """the number of places against slots + one for every single symbol -> (verdict, how)"""
    run = S.run
    c0, d0 = lin_parts(K)
    ph = [k for k in d0 if k.op == 'phi']
    if len(ph) == 1 and d0[ph[0]] == 1:
        rest = sub(K, ph[0])
        cl = rank.count_loop(S, ph[0])
        if cl is None:
            return None, 'places: ' + t.show(K, 4)
        init, alts, L, tr = cl
        base = sub(add(init, rest), S.slots)
        if base.op != 'c':
            return None, 'start: ' + t.show(init, 4)
        if base.a[0] < 0:
            return False, 'the count starts %d short' % -base.a[0]
        i = [x for x in run.I.phis if x.a[0] == L.header and x is not ph[0]]
        i = [x for x in i if any(z is x for d, f, ed in alts for g in f if g[0] != 'sel' for z in t.walk(g[0]))]
        if len(i) != 1:
            # counted without asking what the entry is
            if all(d >= 1 for d, f, ed in alts):
                return True, 'one for every entry'
            return (False, 'no place is added') if all(d <= 0 for d, f, ed in alts) else (None, 'the entry counted is not recognised')
        w = whole(S, L, i)
        if w is False:
            return False, 'not every entry is counted'
        for d, f, ed in alts:
            b = rank.base_fact(S, f, i[0])
            if d < 1 and b is not False:
                about = [g for g in f if g[0] != 'sel' and any(z is i[0] for z in t.walk(g[0]))]
                told = b is True or definite(S, f, i[0])
                return (False if told else None), 'an entry that may be a single symbol adds %d' % d
        return (True if w else None), 'one for every single symbol'
    if K is S.slots or sub(K, S.slots).op == 'c' and sub(K, S.slots).a[0] <= 0:
        return False, 'no place is added for single symbols'
    c, d = lin_parts(sub(K, S.slots))
    if len(d) == 1 and not c:
        k = next(iter(d))
        if d[k] == 1 and (k.op == 'rf' and k.a[0].endswith('::size') or k.op == 'size'):
            return True, 'one for every entry'
    return None, 'places: ' + t.show(K, 4)


def slot_expand(cx, S):
    run = S.run
    L, tv, tp, fp = rank.outloop(S)
    if L is None or tv[0] != 'ok':
        cx.ob('slot', lib.at(run), None, 'the loop that fills the new dictionary is not recognised')
        return
    for e in tp:
        ks = rank.allowed(S, e)
        if not ks:
            ok = True if not limited(S, L) else None
            cx.ob('slot', e, ok, 'the number of entries taken', 'not recognised' if ok is None else 'not limited')
            continue
        for K in ks:
            ok, how = grown(S, K)
            cx.ob('slot', e, ok, 'every entry that is there has a place of its own', how)


def limited(S, L):
    return len(L.exits) > 1 or True


def isall(S, k):
    """the number of entries there are"""
    if k.op == 'rf' and k.a[0].endswith('::size'):
        return True
    if k.op == 'size':
        for x in t.walk(k.a[0]):
            if x.op == 'rf' and x.a[0].endswith('::alphabet'):
                return True
            if x.op == 'phi' and x.a[1] in S.lists:
                return True         # the candidates so far: checked where they are counted
    return False


def grown(S, K):
    """-> (room for all there is, how)"""
    d = sub(K, S.slots) if S.slots is not None else K
    c, p = lin_parts(d)
    if not p:
        return (False, 'places: slots%+d' % c)
    if len(p) == 1:
        k = next(iter(p))
        if isall(S, k) and p[k] == 1:
            return (c >= 0), 'places: slots + entries%+d' % c
        if isall(S, k) and p[k] > 1:
            return True, 'places: slots + %d * entries' % p[k]
        if isall(S, k) and p[k] < 1:
            return False, 'places: slots %d * entries' % p[k]
    return None, 'places: ' + t.show(K, 4)


def order(cx, S, name):
    run = S.run
    L, tv, tp, fp = rank.outloop(S)
    if L is None:
        cx.ob('cut', lib.at(run), None, 'the loop that fills the new dictionary is not recognised')
        return
    sorts = [e for e in run.ev if e.kind == 'sort' and e.addr in S.lists]
    for e in sorts:
        cmpf = c14.target(cx, e.val) if e.val is not None else None
        ok, how = None, 'not understood'
        if cmpf is not None and cmpf.op == 'lam' and cmpf.a[0] in cx.P.functions:
            try:
                tb, rows = c14.truth(cx.run(cmpf.a[0]), 0)
                ft = c14.table(tb, rows)
                ks = [i for i, k in enumerate(tb.keys) if S.m.get('score') == c14.keyname(k) or 'score' in (c14.keyname(k) or '')]
                ds = [c14.direction(tb, ft, i) for i in ks]
                d = next((x for x in ds if x is not None), None)
                if d is not None:
                    ok = d == -1
                    how = 'highest score first' if ok else 'lowest score first'
                    if not ok and c14.flipped(run, e):
                        ok = None
                elif tb.keys and not any(c14.direction(tb, ft, i) for i in ks):
                    ok, how = False, 'the score does not decide'
            except (c14.Unknown, c14.Bad):
                pass
        cx.ob('cut', e, ok, 'the candidates are ranked by score', how)
    # everything is there when it is ranked, and it is ranked before anything is cut or taken
    for c in S.cands:
        p = run.LL.path(c.e.pos, [e.pos for e in tp], [e.pos for e in sorts])
        cx.ob('cut', c.e, True if p is None else (False if not othersort(run, S) else None), 'a candidate is ranked before any is taken')
    for e in run.ev:
        if e.kind != 'mut' or e.addr not in S.lists:
            continue
        if e.how in ('pop', 'resize'):
            ent = (run.I.L.entryblk.id, -1)
            p = any(run.LL.path(c.e.pos, [e.pos], [s.pos for s in sorts]) for c in S.cands)
            cx.ob('cut', e, False if p and not othersort(run, S) else (None if p else True), 'candidates are cut after they were ranked, at the end')
        elif e.how == 'reverse':
            cx.ob('cut', e, None, 'the candidates are turned round')
        elif e.how == 'erase':
            front = e.key is not None and e.key.op == 'it' and e.key.a[1] is ZERO
            cx.ob('cut', e, None, 'candidates are taken out')
    # ways past the push
    el = rank.item_of(S, None)
    if el is None:
        cx.ob('cut', tp[0], None, 'the walk over the candidates is not recognised')
        return
    judge = lambda fs: spared(S, fs, el)
    for ed in rank.skips(run, L, tp):
        ok = judge(run.I.out[ed][1])
        cx.ob('cut', (loc(run, ed), run.q), ok, 'a candidate that is passed over is not a single symbol')
    for b, k, d in L.exits:
        f = run.I.out.get((b, k))
        if f is None or endfact(S, f[1], L) or run.I.blocks[b] is None:
            continue
        ok = judge(f[1])
        if ok is None and slotfact(S, f[1], L, tv):
            ok = True
        cx.ob('cut', (loc(run, (b, k)), run.q), ok, 'the taking of candidates ends only at one that is not a single symbol, or when the places are used up')


def othersort(run, S):
    return any(e.kind in ('call',) and (e.x.get('fn') or {}).get('n') in c14.ALGOS for e in run.ev)


def slotfact(S, fs, L, tv):
    """the places are used up: a counter of this loop is below its limit"""
    for f in fs:
        if f[0] == 'sel' or f[0].op != 'ge0':
            continue
        x = f[0].a[0] if f[1] else sub(C(-1), f[0].a[0])
        c, d = lin_parts(x)
        for k, m in d.items():
            if k.op == 'phi' and k.a[0] == L.header and k is not tv[2]:
                st = rank.steps(S, k, L)
                if st is not None and st[1] and (max(st[1]) <= 0 and m < 0 or min(st[1]) >= 0 and m > 0):
                    return True
            rest = [y for y in d if y is not k]
            if (k is tv[2] or k.op == 'size' and k.a[0].op == 'phi' and k.a[0].a[1] is S.texts) and m > 0:
                if not any(y.op == 'size' and rank.overlist(S, y.a[0], S.lists[0]) for y in rest):
                    return True
    return False


def fieldof(S, el, n):
    return t.getf(el, S.m[n])


def spared(S, fs, el):
    """the candidate is known not to be a single symbol: True; visibly not asked: False; else None"""
    G = S.run.G
    sc, fi, se = fieldof(S, el, 'score'), fieldof(S, el, 'first'), fieldof(S, el, 'second')
    if G.proves(fs, t.ge0(fi), 3) or rank.base_fact(S, fs, se) is False:
        return True
    about = []
    for f in fs:
        if f[0] == 'sel':
            continue
        ws = list(t.walk(f[0]))
        if any(x is sc for x in ws):
            if f[0].op == 'flt':
                lo, hi = (f[0].a[0], f[0].a[1]) if f[1] else (f[0].a[1], f[0].a[0])
                # lo < hi (or lo <= hi when it is the negation)
                if lo is sc and not rank.istop(hi) and not any(x.op in ('phi', 'opq') for x in t.walk(hi)):
                    return True
            if f[0].op in ('eq', 'feq') and not f[1]:
                return True if any(rank.istop(x) for x in f[0].a) else None
            if f[0].op == 'flt' and lo.op == 'c':
                continue            # above some limit: says nothing
            return None
        if any(x is el for x in ws):
            about.append(f)
    # a branch on something else about the candidate
    if about and all(not any(x.op in ('opq', 'ext', 'rcall', 'bot', 'undef') or x.op == 'phi' and x.a[0] != fi and False for x in t.walk(f[0])) for f in about):
        own = {fieldof(S, el, 'count')}
        if all(any(x in own or x is se for x in t.walk(f[0])) for f in about):
            return False
    return None
