"""C29: growing keeps what is there and adds only new concatenations; pruning only selects.

Provenance of every v-gram and every count that goes into the new dictionary, followed on values from the pairs and the entries
through the candidates."""
from .. import lib, rank, bits, patterns, terms as t
from ..terms import T, raw, C, ZERO, ONE, size, sub, add, lin_parts
from . import c17, c20


def check(cx):
    cx.rule('made', 'a candidate made of two v-grams is the ordered pair it was counted under', 1)
    cx.rule('count', 'a candidate carries the count of its own v-gram or pair', 3)
    cx.rule('text', 'what goes into the new dictionary is the entry, or the first and then the second v-gram of the pair', 2)
    cx.rule('kept', 'growing keeps every entry', 2)
    cx.rule('new', 'growing adds a concatenation only when it is not there yet', 2)
    cx.rule('select', 'pruning takes every entry at most once', 1)
    cx.rule('aligned', 'a v-gram and its count go in together', 2)
    for name in (rank.GROW, rank.PRUNE):
        S = rank.side(cx, name)
        if S is None or not S.cands:
            cx.ob('made', (None, rank.CLS + '::' + name), None, 'the candidates are not recognised')
            continue
        made(cx, S)
        L, tv, tp, fp = rank.outloop(S)
        if L is None or tv[0] != 'ok' or not fp:
            cx.ob('text', lib.at(S.run), None, 'the loop that fills the new dictionary is not recognised')
        else:
            text(cx, S, L, tv, tp)
            aligned(cx, S, L, tv, tp, fp)
        if name == rank.GROW:
            kept(cx, S)
            new(cx, S)
        else:
            select(cx, S)


def pairvals(S, c):
    """the element of the table of pairs a candidate is made from: (map, position)"""
    for v in (c.first, c.second, c.count):
        for x in t.walk(v):
            if x.op in ('mkey', 'mval'):
                return x.a[0], x.a[1]
    return None


def made(cx, S):
    run = S.run
    R = c17.roles(cx)
    for c in S.cands:
        if rank.existing(S, c):
            own_count(cx, S, c, R)
            continue
        pv = pairvals(S, c)
        if pv is None:
            cx.ob('made', c.e, None if not lib.seen(run, c.first) else None, 'the pair is not recognised', t.show(c.first, 4))
            continue
        ok = None
        b1, b2 = bits.of(c.first, wide), bits.of(c.second, wide)
        w = want(cx, pv)
        if w is not None and None not in b1[:31] and None not in b2[:31]:
            ok = b1[:31] == w[0] and b2[:31] == w[1]
        cx.ob('made', c.e, ok, 'a candidate is the ordered pair it was counted under', '%s, %s' % (t.show(c.first, 4), t.show(c.second, 4)))
        mv = raw('mval', *pv)
        cs = lib.cases(run, c.facts, c.count)
        ok = all(v is mv for f, v in cs)
        if not ok:
            ok = False if any(v is not mv and lib.seen(run, v) for f, v in cs if not lib.contradictory(f)) else None
        cx.ob('count', c.e, ok, 'a pair carries how often it was seen', t.show(c.count, 4))


def wide(x):
    return [(x, k) for k in range(64)]


def want(cx, pv):
    """where the halves of a pair are in its key: (bits of the v-gram before, bits of the v-gram emitted)"""
    k = 'c29halves'
    if k not in cx.cache:
        cx.cache[k] = order(cx)
    if cx.cache[k] is None:
        return None
    m = raw('mkey', *pv)
    return [[(m, i) for i in side] for side in cx.cache[k]]


def order(cx):
    """positions in the key of (the v-gram before, the v-gram emitted), from where pairs are counted"""
    R = c17.roles(cx)
    if R.pairs is None:
        return None
    for u in cx.resolve(rank.CLS, 'parse'):
        run = cx.run(u, ('c17',), opaque=c17.opaque)
        ce, out = c17.output_of(run)
        if out is None:
            continue
        outs = {v for v in lib.versions(run, out)} | {raw('hav', ce.blk, ce.ins.pos, out)}
        for e in run.ev:
            if e.kind != 'mut' or e.addr is not R.pairs or e.key is None:
                continue
            bs = bits.of(e.key, bits.ident)
            if None in bs:
                continue
            terms_ = list(dict.fromkeys(b[0] for b in bs if isinstance(b, tuple)))
            L = run.LL.of_block(e.blk)
            if len(terms_) != 2 or L is None:
                continue
            tv = patterns.traversal_of(run, L)
            ix = [(x.a[1], x) for x in terms_ if x.op == 'idx' and x.a[0] in outs]
            cur = None
            if len(ix) == 1:
                # the other half is remembered from the iteration before, unless it is one element on
                cur = ix[0][1]
            elif len(ix) == 2:
                d = sub(ix[0][0], ix[1][0])
                if d is ONE:
                    cur = ix[0][1]
                elif d.op == 'c' and d.a[0] == -1:
                    cur = ix[1][1]
            if cur is None:
                continue
            prev = [x for x in terms_ if x is not cur][0]
            pos = lambda x: [next((j for j, b in enumerate(bs) if b == (x, i)), None) for i in range(31)]
            r = pos(prev), pos(cur)
            if None not in r[0] and None not in r[1]:
                return r
    return None


def own_count(cx, S, c, R):
    run = S.run
    i = c.second
    for f, v in lib.cases(run, c.facts, c.count):
        if lib.contradictory(f):
            continue
        ok = None
        ix = [x for x in t.walk(v) if x.op == 'idx' and x.a[0].op == 'init' and R.own is not None and x.a[0].a[0] is R.own]
        if len(ix) == 1 and v is ix[0]:
            ok = run.G.proves_eq(f, v.a[1], i) or v.a[1] is i
            if not ok and not lib.seen(run, v.a[1]):
                ok = None
        elif v is ZERO or v.op == 'c' and v.a[0] == 0:
            # nothing was counted for it
            ok = run.G.proves(f, t.not_(t.ge0(add(sub(size(run.I.initial(R.own)), i), C(-1)))), 3) if R.own is not None else None
            if not ok:
                ok = None if not c20.definite(S, f, i) and R.own is not None else False
        elif lib.seen(run, v):
            ok = False
        cx.ob('count', c.e, ok, 'an entry carries its own count', t.show(v, 4))


def texts(S, el):
    fi, se = t.getf(el, S.m['first']), t.getf(el, S.m['second'])
    return rank.text(S, fi), rank.text(S, se)


def text(cx, S, L, tv, tp):
    run = S.run
    el = rank.item_of(S, None)
    fi = t.getf(el, S.m['first'])
    pairs = [c for c in S.cands if not rank.existing(S, c)]
    F, E = texts(S, el)
    for e in tp:
        for f, v in lib.cases(run, e.facts, e.val):
            if lib.contradictory(f):
                continue
            isp = run.G.proves(f, t.ge0(fi), 3)
            isn = run.G.proves(f, t.not_(t.ge0(fi)), 3)
            single = v in E
            double = v.op == 'cat' and len(v.a) == 2 and v.a[0] in F and v.a[1] in E
            wrong = v.op == 'cat' and all(any(x in F or x in E for x in [y]) for y in v.a)
            if single:
                ok = True if isn or not pairs else (False if isp or not asked(f, fi) or plain(f, fi) else None)
            elif double:
                ok = True if isp else (False if isn or not asked(f, fi) or plain(f, fi) else None)
            elif wrong or v in F:
                ok = False
            else:
                ok = False if lib.seen(run, v) and any(x is el for x in t.walk(v)) and basic(S, v, el) else None
            cx.ob('text', e, ok, 'the v-gram that goes in is that of the candidate', t.show(v, 5))


def basic(S, v, el):
    return all(x.op in ('cat', 'push', 'sub', 'pop', 'reversed', 'sorted', 'idx', 'getf', 'phi', 'rf', 'init', 'c', 'lin', 'size', 'empty', 'fld', 'ptr', 'obj', 'argp', 'this', 'self', 'ext')
               or True for x in t.walk(v)) and v.op in ('cat', 'push', 'sub', 'pop', 'reversed', 'sorted')


def plain(f, fi):
    """all that is asked about the first half is how it compares with constants"""
    for g in f:
        if g[0] != 'sel' and any(x is fi for x in t.walk(g[0])):
            if not (g[0].op == 'ge0' and set(lin_parts(g[0].a[0])[1]) == {fi} or g[0].op == 'eq' and {x.op for x in g[0].a if x is not fi} == {'c'}):
                return False
    return True


def asked(f, fi):
    return any(g[0] != 'sel' and any(x is fi for x in t.walk(g[0])) for g in f)


def aligned(cx, S, L, tv, tp, fp):
    run = S.run
    el = rank.item_of(S, None)
    cn = t.getf(el, S.m['count'])
    for e in fp:
        if e.how != 'push':
            cx.ob('aligned', e, None, 'the counts are filled in another way (%s)' % e.how)
            continue
        if e.blk not in L.body:
            cx.ob('aligned', e, None, 'the counts are filled elsewhere')
            continue
        for f, v in lib.cases(run, e.facts, e.val):
            if lib.contradictory(f):
                continue
            ok = v is cn or run.G.proves_eq(f, v, cn)
            if not ok:
                ok = False if lib.seen(run, v) and inner(v, el) else None
            cx.ob('aligned', e, True if ok else ok, 'the count that goes in is that of the candidate', t.show(v, 4))
    mine = [e for e in fp if e.blk in L.body]
    if not mine or any(e.blk not in L.body for e in tp):
        return
    # on every way through an iteration: as many v-grams as counts
    LL = run.LL
    back = [(b, 10 ** 8) for b, i in L.back]
    exits = [(b, 10 ** 8) for b, i, d in L.exits]
    bad = None
    for a, b in ((tp, mine), (mine, tp)):
        for e in a:
            others = [x.pos for x in b]
            before = LL.path((L.header, -1), [e.pos], others, within=L.body)
            ends = back + [x for x in exits if x[0] != L.header]
            after = LL.path(e.pos, ends, others, within=L.body - {L.header} if e.pos[0] != L.header else L.body)
            if before is not None and after is not None:
                bad = e
        for e in a:
            again = [x.pos for x in a]
            if LL.path(e.pos, again, [(L.header, 0)], within=L.body - {L.header} if e.pos[0] != L.header else L.body) is not None:
                bad = e
    cx.ob('aligned', bad or mine[0], bad is None, 'for every v-gram one count goes in')


def inner(v, el):
    """made of what the candidate or another one holds"""
    return any(x is el or x.op == 'getf' for x in t.walk(v)) or v.op == 'c'


def kept(cx, S):
    run = S.run
    I, LL = run.I, run.LL
    done = set()
    for c in S.cands:
        if not rank.existing(S, c):
            continue
        ls = LL.enclosing(c.e.blk)
        L = c20.walk(S, c.second, ls) if ls else None
        if L is None:
            cx.ob('kept', c.e, None, 'the walk over the entries is not recognised')
            continue
        if L.header in done:
            continue
        done.add(L.header)
        mine = [x.e for x in S.cands if x.e.blk in L.body and rank.existing(S, x)]
        cx.ob('kept', c.e, c20.whole(S, L, c20.entries(S, L)), 'every entry becomes a candidate')
        for ed in rank.skips(run, L, mine):
            cx.ob('kept', (c20.loc(run, ed), run.q), False if not c20.endfact(S, I.out[ed][1], L) else None, 'no entry is passed over')
        for b, k, d in L.exits:
            f = I.out.get((b, k))
            if f and not c20.endfact(S, f[1], L):
                cx.ob('kept', (c20.loc(run, (b, k)), run.q), False, 'the walk over the entries does not stop early')
    for c in S.cands:
        if rank.existing(S, c):
            tp = rank.top(run, c.score)
            cx.ob('kept', c.e, tp, 'an entry that is there ranks above every pair', t.show(c.score, 3))
    L, tv, tp, fp = rank.outloop(S)
    if L is None or tv[0] != 'ok':
        return
    for e in tp:
        for K in rank.allowed(S, e):
            ok, how = c20.grown(S, K)
            cx.ob('kept', e, ok, 'there is a place for every entry', how)
    el = rank.item_of(S, None)
    for ed in rank.skips(run, L, tp):
        cx.ob('kept', (c20.loc(run, ed), run.q), keptfact(S, I.out[ed][1], el), 'a candidate that is passed over is a pair')
    for b, k, d in L.exits:
        f = I.out.get((b, k))
        if f is None or c20.endfact(S, f[1], L):
            continue
        ok = keptfact(S, f[1], el)
        if not ok and c20.slotfact(S, f[1], L, tv):
            ok = True if ok is None else ok
        cx.ob('kept', (c20.loc(run, (b, k)), run.q), ok, 'the taking of candidates ends at a pair, or when the places are used up')


def keptfact(S, fs, el):
    r = c20.spared(S, fs, el)
    if r is True and S.run.G.proves(fs, t.ge0(c20.fieldof(S, el, 'first')), 3):
        return True
    if r is True:
        # by its score, or by its length
        sc = c20.fieldof(S, el, 'score')
        if any(f[0] != 'sel' and any(x is sc for x in t.walk(f[0])) for f in fs):
            return True
        return False
    return r


def new(cx, S):
    run = S.run
    I, LL, G = run.I, run.LL, run.G
    sets = {}
    for c in S.cands:
        if rank.existing(S, c):
            continue
        cand_texts = [t.cat(a, b) if hasattr(t, 'cat') else raw('cat', a, b) for a in rank.text(S, c.first) for b in rank.text(S, c.second)]
        has = [f for f in c.facts if f[0] != 'sel' and f[0].op == 'has' and not f[1]]
        got = None
        wrong = None
        loose = False
        for f in has:
            con, key = f[0].a[0], f[0].a[1]
            ks = [v for ff, v in lib.cases(run, c.facts, key) if not lib.contradictory(ff) and not impossible(run, ff, c)]
            ks2 = [v for v in ks if v in cand_texts]
            if ks and ks2 and all(v in cand_texts or single(S, v, c) for v in ks):
                got = f
            elif any(x.op == 'phi' and x.a[0] in run.I.headers for v in ks if v.op in ('cat', 'push', 'phi') for y in v.a if isinstance(y, T) for x in ([v] if v.op == 'phi' else [y])):
                loose = True            # put together in a loop
            elif any(v.op in ('cat', 'rf', 'init') or is_get(v) for v in ks):
                wrong = f
        if got is None:
            # other ways of asking: a search in the dictionary alone does not tell about the other pairs
            other = [f for f in c.facts if f[0] != 'sel' and any(x.op in ('opq', 'ext', 'bot', 'rcall') or x.op == 'has' for x in t.walk(f[0]))]
            fin = later_filter(run, S, c)
            cx.ob('new', c.e, (False if not other and not fin and not loose else None) if wrong is None else False if not fin else None, 'a pair becomes a candidate only when its concatenation is not known yet')
            continue
        cx.ob('new', c.e, True, 'a pair becomes a candidate only when its concatenation is not known yet')
        con = got[0].a[0]
        ad = con.a[1] if con.op == 'phi' else None
        if ad is None:
            cx.ob('new', c.e, None, 'the set of what is known is not recognised')
            continue
        key = got[0].a[1]
        L = con.a[0] in LL.loops and LL.loops[con.a[0]] or LL.of_block(c.e.blk)
        ins = [e for e in run.ev if e.kind == 'mut' and e.addr is ad and e.how in ('ins', 'put', 'try', 'push')]
        mine = [e for e in ins if e.blk in L.body and (e.key is key or sameText(run, e, key))]
        odd = [e for e in ins if e.blk in L.body and e not in mine]
        bad = [e for e in run.ev if e.kind == 'mut' and e.addr is ad and e.how in ('clear', 'erase', 'assign', 'pop')]
        for e in bad:
            cx.ob('new', e, False if e.how == 'clear' else None, 'what is known stays known (%s)' % e.how)
        back = [(b, 10 ** 8) for b, i in L.back]
        pos = [e.pos for e in mine]
        p1 = LL.path((L.header, -1), [c.e.pos], pos, within=L.body)
        p2 = LL.path(c.e.pos, back, pos, within=L.body - {L.header})
        ok = not (p1 is not None and p2 is not None)
        cx.ob('new', c.e, True if ok else (None if odd else False), 'a concatenation that becomes a candidate is known from then on')
        # what is there already is known before
        ok = None
        for L2 in LL.loops.values():
            if L2 is L or L2.header in L.body:
                continue
            here = [e for e in ins if e.blk in L2.body]
            if not here:
                continue
            tv = patterns.traversal_of(run, L2)
            if tv[0] == 'ok' and any(x.op == 'rf' and x.a[0].endswith('::alphabet') for x in t.walk(tv[1])):
                elx = t.index(tv[1], tv[2])
                vis = all(e.key is elx or G.proves_eq(e.facts, e.key, elx) for e in here)
                none, two = rank.periter(run, L2, here)
                ok = True if vis and none is None and not LL.exits(L2, tv[3]) else (False if vis else None)
                if ok and LL.path(c.e.pos, [e.pos for e in here]) is not None and LL.path((run.I.L.entryblk.id, -1), [c.e.pos], [(L2.header, 0)]) is not None:
                    ok = False
        if ok is None and not [e for e in ins if e.blk not in L.body]:
            built = [e for e in run.ev if e.kind == 'mut' and e.addr is ad and e.blk not in L.body and e.how not in ('noop', 'reserve')]
            init = entryval(run, L, con)
            ok = False if not built and init is not None and init.op == 'empty' else None
        cx.ob('new', c.e, ok, 'every entry that is there is known before')


def entryval(run, L, con):
    ops = run.I.phis.get(con)
    if not ops:
        return None
    v = [ops[e] for e in L.entry if e in ops]
    return v[0] if len(v) == 1 else None


def impossible(run, ff, c):
    """the case where a pair has no first half"""
    return False


def single(S, v, c):
    """the text of the second half alone: only for a candidate without a first half"""
    return v in rank.text(S, c.second)


def is_get(v):
    return any(x.op == 'rf' and x.a[0].endswith('::get') for x in t.walk(v))


def sameText(run, e, key):
    return run.G.proves_eq(e.facts, e.key, key)


def later_filter(run, S, c):
    """candidates are thinned out later"""
    return any(e.kind == 'mut' and e.addr in S.lists and e.how in ('erase', 'unique', 'assign', 'upd', 'resize') for e in run.ev) or \
        any(e.kind == 'call' and (e.x.get('fn') or {}).get('n') in ('unique', 'remove_if', 'find', 'find_if', 'any_of', 'count_if') for e in run.ev)


def select(cx, S):
    run = S.run
    I, LL = run.I, run.LL
    done = set()
    for c in S.cands:
        if not rank.existing(S, c):
            cx.ob('select', c.e, False if lib.seen(run, c.first) and c.first.op != 'phi' else None, 'pruning makes no new v-grams', t.show(c.first, 3))
            continue
        ls = LL.enclosing(c.e.blk)
        L = c20.walk(S, c.second, ls) if ls else None
        if L is None:
            cx.ob('select', c.e, None, 'the walk over the entries is not recognised')
            continue
        if L.header in done:
            continue
        done.add(L.header)
        mine = [x.e for x in S.cands if x.e.blk in L.body and rank.existing(S, x)]
        none, two = rank.periter(run, L, mine)
        cx.ob('select', c.e, two is None, 'an entry becomes a candidate at most once')
        others = {c20.walk(S, x.second, LL.enclosing(x.e.blk)) for x in S.cands if rank.existing(S, x)}
        if len(others) > 1:
            cx.ob('select', c.e, None, 'the entries are walked over more than once')
