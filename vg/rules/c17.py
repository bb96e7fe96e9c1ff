"""C17: the training statistics count exactly what was parsed.

Counting is followed on values: what is added to which counter, under which index, how often per element of the parse
result and on which ways.  The key of a pair is taken apart bit by bit, symbolically."""
from .. import lib, bits, patterns, terms as t
from ..terms import T, raw, C, ZERO, ONE, EMPTY, NULL, size, sub, add
from ..cx import Broken
from . import c12

CLS = 'StatDictImpl'
BLD = 'IntVGramBuilderImpl'


def opaque(fn):
    if fn.get('n') in ('parse', 'search', 'get', 'size', 'parent', 'alphabet') and fn.get('cls') in ('IntDict', 'IntDictImpl'):
        return 'none' if fn['n'] == 'parse' else 'pure'
    return None


def check(cx):
    cx.rule('freq', 'counting a v-gram adds the given number once to its own frequency, to its parsing frequency and to the total', 3)
    cx.rule('parsed', 'every v-gram a training parse emits is counted once, with 1, in all three', 3)
    cx.rule('text', 'every input symbol is counted once in the amount of text', 1)
    cx.rule('pair', 'every two adjacent v-grams of a parse are counted once, under that ordered pair', 2)
    cx.rule('key', 'the halves of a pair are read back exactly as they were stored', 2)
    cx.rule('fresh', 'the result of a training parse starts empty, so that nothing is counted again', 1)
    cx.rule('only', 'nothing but a training parse changes what was counted', 3)
    R = roles(cx)
    for u in cx.fn(CLS, 'update_symbol'):
        one(cx, cx.run(u, ('c17',), opaque=opaque), R)
    keys = []
    for u in cx.fn(CLS, 'parse'):
        keys += parsed(cx, cx.run(u, ('c17',), opaque=opaque), R)
    roundtrip(cx, R, keys)
    fresh(cx)
    only(cx, R)


class R_:
    pass


def fields_in(run, v):
    return {x.a[0].a[1] for x in t.walk(v) if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[0] is lib.SELF}


def roles(cx):
    k = 'c17roles'
    if k in cx.cache:
        return cx.cache[k]
    R = R_()
    R.own = R.text = R.parse = R.total = R.pairs = None
    fs = {f['n']: f['t'] for f in cx.fields(CLS)}
    vec = lambda n: fs.get(n, {}).get('rc') == 'std::vector'
    for u in cx.fn(CLS, 'freq'):
        for e in cx.run(u).ev:
            a = e.c if e.kind in ('read', 'elem') else None
            if a is not None and a.op == 'init':
                a = a.a[0]
            if e.kind in ('read', 'elem'):
                for x in (e.addr, e.c):
                    if isinstance(x, T):
                        for y in t.walk(x):
                            if y.op == 'fld' and vec(y.a[1]):
                                R.own = y
    for u in cx.resolve(CLS, 'parse'):
        run = cx.run(u, ('c17',), opaque=opaque)
        for e in run.ev:
            if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == 'parse' and (e.x.get('fn') or {}).get('cls') in ('IntDict', 'IntDictImpl'):
                for x in list(e.val or ()) + list(e.a or ()):
                    if isinstance(x, T):
                        for y in t.walk(x):
                            if y.op == 'fld' and vec(y.a[1]) and fs[y.a[1]]['ta'][0].get('int') and y is not R.own:
                                R.parse = y
        for e in run.ev:
            if e.kind in ('mut', 'mapdef') and e.addr is not None and e.addr.op == 'fld' and fs.get(e.addr.a[1], {}).get('rc') in lib.MAPS:
                R.pairs = e.addr
    en = set()
    for u in cx.resolve(CLS, 'enough'):
        run = cx.run(u)
        for r in lib.returns(run):
            for f, v in lib.cases(run, r.facts, r.a[0]):
                en |= fields_in(run, v)
    cl = set()
    for u in cx.resolve(CLS, 'code_length_per_char'):
        run = cx.run(u)
        for r in lib.returns(run):
            for f, v in lib.cases(run, r.facts, r.a[0]):
                for x in t.walk(v):
                    if x.op == 'b/':
                        cl |= fields_in(run, x.a[1])
    wr = c12.powers(cx)
    d = [n for n in en if n in wr] or [n for n in wr if n in fs and not vec(n) and fs[n].get('rc') not in lib.MAPS]
    R.total = lib.fld(d[0]) if len(d) == 1 else None
    cl = {n for n in cl if R.total is None or n != R.total.a[1]}
    R.text = lib.fld(cl.pop()) if len(cl) == 1 else None
    if R.pairs is None:
        m = [n for n in fs if fs[n].get('rc') in lib.MAPS]
        R.pairs = lib.fld(m[0]) if len(m) == 1 else None
    R.tables = [x for x in (R.own, R.parse) if x is not None]
    cx.cache[k] = R
    return R


def counts(run, F):
    """events adding to an element of a table: [(event, index, amount)]; amount None when it is set to something else"""
    r = []
    for e in run.ev:
        if e.kind == 'mut' and e.addr is F and e.how == 'upd':
            r.append((e, e.key, sub(e.val, t.index(e.old, e.key))))
        elif e.kind == 'store' and e.addr is not None and e.addr.op == 'el' and e.addr.a[0] is F:
            i = e.addr.a[1]
            r.append((e, i, sub(e.new, e.old) if e.old is not None else None))
    return r


def adds(run, F):
    """events changing a number: [(event, amount)]"""
    return [(e, sub(e.new, e.old)) for e in run.ev if e.kind == 'store' and e.addr is F and e.how != 'init' and e.new is not None and e.old is not None]


def amt(run, e, d, want):
    """a value is the wanted one in every case"""
    r = []
    for f, v in lib.cases(run, e.facts, d):
        if not lib.contradictory(f):
            r.append(True if v is want or run.G.proves_eq(f, v, want) else False if lib.seen(run, v) else None)
    return False if False in r else None if None in r else True


def both(*rs):
    return False if False in rs else None if None in rs else True


def growth(cx, rule, run, F):
    """a table may grow, by zeros"""
    for e in run.ev:
        if e.kind != 'mut' or e.addr is not F or e.how in ('upd', 'noop', 'reserve'):
            continue
        if e.how in ('push', 'resize', 'append', 'insat'):
            v = e.val
            if v is not None and v.op == 'fill':
                v = v.a[1]
            z = v is not None and v.op == 'c' and v.a[0] == 0
            if e.how == 'insat':
                end = e.key is not None and (e.key is size(e.old) or (e.key.op == 'it' and e.key.a[1] is size(e.old)))
                cx.ob(rule, e, True if z and end else (False if z else None), 'a table of frequencies grows at its end, by zeros')
                continue
            cx.ob(rule, e, True if z else (False if v is not None and v.op == 'c' else None), 'new places in a table of frequencies are 0')
        else:
            cx.ob(rule, e, False if e.how in ('clear', 'pop', 'erase', 'sort', 'reverse') else None, 'counted frequencies are not removed or moved (%s)' % e.how)


def once(run, evs):
    """-> (way without, way with two)"""
    LL, I = run.LL, run.I
    ent = (I.L.entryblk.id, -1)
    ends = [r.pos for r in lib.returns(run)]
    none = LL.path(ent, ends, [e.pos for e in evs])
    two = None
    for e in evs:
        two = two or LL.path(e.pos, [x.pos for x in evs])
    return none, two


def periter(run, L, evs):
    """inside one iteration of a loop: -> (way without, way with two)"""
    LL = run.LL
    back = [(b, 10 ** 8) for b, i in L.back]
    pos = [e.pos for e in evs]
    none = LL.path((L.header, -1), back, pos, within=L.body)
    two = None
    for e in evs:
        p = LL.path(e.pos, pos, [(L.header, 0)] + [(L.header, -1 + 1)], within=L.body - {L.header} if e.pos[0] != L.header else L.body)
        two = two or p
    return none, two


def one(cx, run, R):
    ps = run.fn['params']
    ix = raw('arg', 0, ps[0]['n'])
    n = raw('arg', 1, ps[1]['n'])
    W = lib.at(run)
    for F, nm in ((R.own, 'the frequency of the v-gram'), (R.parse, 'the parsing frequency')):
        if F is None:
            cx.ob('freq', W, None, 'the table is not recognised')
            continue
        cs = counts(run, F)
        if not cs:
            cx.ob('freq', W, False, '%s is not counted' % nm)
            continue
        for e, i, d in cs:
            ok = (None if d is None else both(amt(run, e, i, ix), amt(run, e, d, n)))
            cx.ob('freq', e, ok, '%s grows by the number given, at the place of the v-gram' % nm, '[%s] += %s' % (t.show(i, 3), t.show(d, 3) if d is not None else '?'))
        w, w2 = once(run, [e for e, i, d in cs])
        cx.ob('freq', cs[0][0], not w and not w2, '%s is counted exactly once' % nm)
        growth(cx, 'freq', run, F)
    if R.total is None:
        cx.ob('freq', W, None, 'the total is not recognised')
        return
    cs = adds(run, R.total)
    for e, d in cs:
        cx.ob('freq', e, amt(run, e, d, n), 'the total grows by the number given', t.show(d, 3))
    w, w2 = once(run, [e for e, d in cs])
    cx.ob('freq', cs[0][0] if cs else W, not w and not w2, 'the total is counted exactly once')


def output_of(run):
    """what the parse of the dictionary wrote: (event, address, value after)"""
    for e in run.ev:
        if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == 'parse' and (e.x.get('fn') or {}).get('cls') in ('IntDict', 'IntDictImpl'):
            a = e.val or ()
            for x in a:
                if isinstance(x, T) and x.op in ('argp', 'ptr'):
                    ad = t.OBJ(x)
                    return e, ad
    return None, None


def parsed(cx, run, R):
    LL, I = run.LL, run.I
    W = lib.at(run)
    ce, out = output_of(run)
    if out is None:
        for r in ('parsed', 'pair', 'text'):
            cx.ob(r, W, None, 'the parse of the dictionary is not recognised')
        return []
    outs = {v for v in lib.versions(run, out)} | {raw('hav', ce.blk, ce.ins.pos, out)}
    loops = []
    for L in LL.loops.values():
        tv = patterns.traversal_of(run, L)
        if tv[0] == 'ok' and tv[1] in outs:
            loops.append((L, tv))
    for F, nm in ((R.own, 'its own frequency'), (R.parse, 'the parsing frequency')):
        if F is None:
            cx.ob('parsed', W, None, 'the table is not recognised')
            continue
        cs = counts(run, F)
        if not cs:
            cx.ob('parsed', W, False, 'what a training parse emits is not counted in %s' % nm)
            continue
        done = []
        for L, tv in loops:
            mine = [(e, i, d) for e, i, d in cs if e.blk in L.body]
            if not mine:
                continue
            el = t.index(tv[1], tv[2])
            for e, i, d in mine:
                ok = None if d is None else both(amt(run, e, i, el), amt(run, e, d, ONE))
                cx.ob('parsed', e, ok, 'a v-gram emitted is counted with 1 in %s' % nm, '[%s] += %s' % (t.show(i, 3), t.show(d, 3) if d is not None else '?'))
            w, w2 = periter(run, L, [x[0] for x in mine])
            cx.ob('parsed', mine[0][0], not w and not w2, 'every v-gram emitted is counted exactly once in %s' % nm)
            ex = LL.exits(L, tv[3])
            if ex:
                cx.ob('parsed', mine[0][0], False, 'the counting stops before the end of what was emitted')
            done += [x[0] for x in mine]
        for e, i, d in cs:
            if e not in done:
                enc = [L for L in LL.enclosing(e.blk)]
                cx.ob('parsed', e, wrongwalk(run, enc, outs), 'what is counted in %s is not one element after the other of what was emitted' % nm)
        if len([1 for L, tv in loops if any(e.blk in L.body for e, i, d in cs)]) > 1:
            cx.ob('parsed', cs[0][0], False, 'v-grams are counted in more than one loop')
    if R.total is not None:
        cs = adds(run, R.total)
        inl = [(L, tv, e, d) for e, d in cs for L, tv in loops if e.blk in L.body]
        for L, tv, e, d in inl:
            cx.ob('parsed', e, amt(run, e, d, ONE), 'the total grows by 1 for a v-gram emitted', t.show(d, 3))
        if inl:
            w, w2 = periter(run, inl[0][0], [x[2] for x in inl])
            cx.ob('parsed', inl[0][2], not w and not w2, 'every v-gram emitted is counted exactly once in the total')
        rest = [(e, d) for e, d in cs if not any(e is x[2] for x in inl)]
        for e, d in rest:
            ok = None
            if not LL.enclosing(e.blk):
                ok = (d.op == 'size' and d.a[0] in outs and not inl) or (False if inl else None)
            else:
                ok = wrongwalk(run, LL.enclosing(e.blk), outs)
            cx.ob('parsed', e, ok, 'the total grows by the number of v-grams emitted', t.show(d, 3))
        if not cs:
            cx.ob('parsed', W, False, 'the total is not counted')
    else:
        cx.ob('parsed', W, None, 'the total is not recognised')
    amount(cx, run, R)
    return pairs(cx, run, R, loops, outs)


def wrongwalk(run, loops, outs):
    """a loop over what was emitted that visibly leaves some of it out"""
    for L in loops:
        tv = patterns.traversal_of(run, L)
        if tv[0] == 'bad':
            return False
    return None


def amount(cx, run, R):
    W = lib.at(run)
    if R.text is None:
        cx.ob('text', W, None, 'the amount of text is not recognised')
        return
    ps = run.fn['params']
    n = size(run.I.initial(t.OBJ(raw('argp', 0, ps[0]['n']))))
    cs = adds(run, R.text)
    for e, d in cs:
        inl = run.LL.enclosing(e.blk)
        if inl:
            tv = patterns.traversal_of(run, inl[0])
            ok = True if tv[0] == 'ok' and size(tv[1]) is n and d is ONE else None
        else:
            ok = d is n or (None if not lib.seen(run, d) else False)
        cx.ob('text', e, ok, 'the amount of text grows by the length of the input', t.show(d, 3))
    flat = [e for e, d in cs if not run.LL.enclosing(e.blk)]
    if not cs:
        cx.ob('text', W, False, 'the amount of text is not counted')
    elif flat:
        w, w2 = once(run, flat)
        cx.ob('text', flat[0], not w and not w2, 'the amount of text is counted exactly once')


def pairs(cx, run, R, loops, outs):
    LL, I, G = run.LL, run.I, run.G
    W = lib.at(run)
    if R.pairs is None:
        cx.ob('pair', W, None, 'the table of pairs is not recognised')
        return []
    ms = [e for e in run.ev if e.kind == 'mut' and e.addr is R.pairs and e.how not in ('noop', 'reserve')]
    ms = [e for e in ms if not (e.how in ('try', 'ins') and e.val is not None and e.val.op == 'c' and e.val.a[0] == 0)]   # only makes a place
    keys = []
    if not ms:
        cx.ob('pair', W, False, 'pairs are not counted')
    for e in ms:
        if e.how not in ('put', 'ins', 'try', 'updkey'):
            cx.ob('pair', e, False if e.how in ('clear', 'erase', 'assign') else None, 'counted pairs stay (%s)' % e.how)
            continue
        at = [(L, tv) for L, tv in loops if e.blk in L.body]
        walk = None
        if at:
            L, tv = at[0]
            src, iv = tv[1], tv[2]
            lo_want, prevs = t.index(src, iv), {t.index(src, add(iv, C(-1)))}
            walk = 'whole'
        else:
            for L in LL.enclosing(e.blk):
                for ph, init, step in LL.counters(L):
                    if step == 1 and init is ONE and not at:
                        for b, i, d in L.exits:
                            f = I.out.get((b, i))
                            for a, pol in [x for x in (f[1] if f else ()) if x[0] != 'sel']:
                                c, dd = t.lin_parts(a.a[0]) if a.op == 'ge0' else (None, {})
                                o = [k for k in dd if k is not ph]
                                if not pol and c == -1 and dd.get(ph) == -1 and len(o) == 1 and o[0].op == 'size' and o[0].a[0] in outs:
                                    src, iv, walk = o[0].a[0], ph, 'second'
                                    lo_want, prevs = t.index(src, iv), {t.index(src, add(iv, C(-1)))}
                if walk is None:
                    for ph, init, step in LL.counters(L):
                        if step == 1 and init is ZERO:
                            for b, i, d in L.exits:
                                f = I.out.get((b, i))
                                for a, pol in [x for x in (f[1] if f else ()) if x[0] != 'sel']:
                                    c, dd = t.lin_parts(a.a[0]) if a.op == 'ge0' else (None, {})
                                    o = [k for k in dd if k is not ph]
                                    if not pol and c == -2 and dd.get(ph) == -1 and len(o) == 1 and o[0].op == 'size' and o[0].a[0] in outs:
                                        src, iv, walk = o[0].a[0], ph, 'second'
                                        lo_want, prevs = t.index(src, add(iv, ONE)), {t.index(src, iv)}
                if walk:
                    break
        key = e.key
        bs = bits.of(key, lambda x: bits.ident(x))
        his = [b[0] if isinstance(b, tuple) else b for b in bs]
        terms_ = [x for x in dict.fromkeys(b[0] for b in bs if isinstance(b, tuple))]
        if None in bs or len(terms_) != 2 and not (len(terms_) == 1):
            cx.ob('key', e, False if None in bs and bits.combination(key) and plainkey(key) else None, 'the two halves of a key do not overlap', t.show(key, 4))
            continue
        whole = {x: [k for k, b in enumerate(bs) if isinstance(b, tuple) and b[0] is x] for x in terms_}
        ok = all(len(v) == 31 or (len(terms_) == 1 and len(v) == 62) for v in whole.values())
        cx.ob('key', e, ok, 'the key of a pair holds both halves completely')
        if not ok:
            continue
        keys.append((bs, terms_))
        if walk is None:
            cx.ob('pair', e, wrongwalk(run, LL.enclosing(e.blk), outs), 'pairs are counted while walking over what was emitted')
            continue
        other = [x for x in terms_ if x is not lo_want]
        if lo_want not in terms_ or len(other) != 1:
            cx.ob('pair', e, None if any(x.op == 'phi' for x in terms_) and lo_want not in terms_ else False, 'a pair is the v-gram emitted and the one before it', t.show(key, 4))
            continue
        h = other[0]
        prevok = None
        needguard = walk == 'whole'
        if h in prevs:
            prevok = True
        elif h.op == 'phi' and h in I.phis and h.a[0] == L.header:
            ops = I.phis[h]
            vals = set()
            for ed in L.back:
                vals |= set(LL.leaves(ops[ed], h)) if ed in ops else {None}
            init = [ops[x] for x in L.entry if x in ops]
            if vals == {lo_want}:
                prevok = True
            else:
                prevok = False if all(v is not None and (v is h or lib.seen(run, v)) for v in vals) else None
            if walk == 'second' and prevok:
                prevok = True if all(x is t.index(src, ZERO) for x in init) else None
            if walk == 'whole' and prevok and not all(x.op == 'c' and x.a[0] < 0 for x in init):
                needguard = 'other'
        elif lib.seen(run, h):
            prevok = False
        cx.ob('pair', e, prevok, 'the first half of a pair is the v-gram emitted just before', t.show(h, 4))
        # which half is the first: order of halves is a matter of the reader (key), but both readers and writers agree
        d = amountof(e)
        cx.ob('pair', e, d is ONE or (None if d is None else False), 'a pair is counted with 1', t.show(d, 3) if d is not None else t.show(e.val, 3))
        mine = [x for x in ms if x.blk in L.body]
        none, two = periter(run, L, mine)
        if two:
            cx.ob('pair', e, False, 'a pair is counted twice')
        if none is None:
            cx.ob('pair', e, True, 'no pair is left out')
        else:
            skip = skips(run, L, mine)
            first = lambda fs: (G.proves(fs, t.not_(t.ge0(h)), 3) or G.proves(fs, t.not_(t.ge0(iv)), 3) or G.proves(fs, t.eq(iv, ZERO), 3)
                                or G.proves(fs, t.not_(t.ge0(add(iv, C(-1)))), 3))
            bad = [ed for ed in skip if not first(I.out[ed][1])]
            flagged = any(x.op == 'phi' and x is not h and x is not iv for ed in bad for f in I.out[ed][1] if f[0] != 'sel' for x in t.walk(f[0]))
            cx.ob('pair', e, True if not bad else (None if flagged else False), 'only the first v-gram of a parse has no pair before it')
        if LL.exits(L) and len(LL.exits(L)) > 1:
            cx.ob('pair', e, False, 'the counting of pairs stops before the end')
    return keys


def plainkey(v):
    return not any(x.op in ('opq', 'ext', 'rcall', 'hav') and False for x in t.walk(v))


def skips(run, L, evs):
    """edges inside the loop that lead past the events: reachable from the other side of the branch only"""
    LL = run.LL
    back = [(b, 10 ** 8) for b, i in L.back]
    pos = [e.pos for e in evs]
    r = []
    for b in L.body:
        ss = [(d, i) for d, i in LL.succ.get(b, ()) if d in L.body]
        if len(ss) < 2:
            continue
        reach = {i: LL.path((d, -1), pos, back, within=L.body - {L.header}) is not None for d, i in ss}
        if any(reach.values()) and not all(reach.values()):
            # not when an event lies before it on every way
            if LL.path((L.header, -1), [(b, 0), (b, 10 ** 7)], pos, within=L.body) is not None:
                r += [(b, i) for i in reach if not reach[i]]
    return r


def amountof(e):
    v = e.val
    c, d = t.lin_parts(v)
    g = [x for x in d if x.op == 'get' and x.a[1] is e.key]
    if len(g) == 1 and d[g[0]] == 1:
        return sub(v, g[0])
    if v.op == 'c' and e.how == 'put' and isinstance(v.a[0], int):
        # set without looking: the count of this pair is lost
        f = [x for x in e.facts if x[0] != 'sel' and x[0].op == 'has' and x[0].a[1] is e.key and not x[1]]
        return v if f else ZERO
    return None


def roundtrip(cx, R, keys):
    """every reader of the pairs takes the keys apart as they were put together"""
    if R.pairs is None or not keys:
        return
    n = 0
    for u in cx.fns(CLS):
        if cx.P.functions[u].get('defaulted') or cx.P.functions[u]['fn'].get('ctor'):
            continue
        run = cx.run(u, ('s',), opaque=lib.opq('search'))
        seen = set()
        for e in run.ev:
            xs = [e.idx] if e.kind in ('elem', 'read') and e.idx is not None else []
            if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.new is not None:
                xs.append(e.new)
            if e.kind == 'mut' and e.val is not None and e.val.op in ('sv', 'setf'):
                xs += [y for y in e.val.a if isinstance(y, T)]
            for x in xs:
                for m in tops(x):
                    ks = [y for y in t.walk(m) if y.op == 'mkey' and frompairs(run, R, y)]
                    if len(ks) != 1:
                        continue
                    for bs, tm in keys:
                        got = bits.of(m, lambda y: bs if y is ks[0] else None)
                        low = got[:32]
                        want = [bits.ident(z)[:32] for z in tm]
                        ok = any(low == w for w in want)
                        if (m, e.loc) in seen:
                            continue
                        seen.add((m, e.loc))
                        n += 1
                        cx.ob('key', e, True if ok else (None if None in low and not bits.combination(m) else False),
                              'a half read from a key is a half stored', t.show(m, 4))
    # both halves are read
    return n


def tops(v):
    """largest subterms made of bit operations over a key"""
    if bits.combination(v) and v.op != 'lin' or v.op == 'mkey':
        return [v]
    r = []
    for y in v.a:
        if isinstance(y, T) and y.op in ('lin', 'getf', 'sv') or (isinstance(y, T) and bits.combination(y)) or (isinstance(y, T) and y.op == 'mkey'):
            r += tops(y)
    return r


def frompairs(run, R, y):
    for x in t.walk(y.a[0]):
        if x.op == 'fld' and x.a[1] == R.pairs.a[1]:
            return True
        if x.op == 'phi' and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] == R.pairs.a[1]:
            return True
    return False


def fresh(cx):
    f = lambda fn: 'none' if fn.get('cls') in (CLS, 'StatDict') and fn.get('n') in ('parse', 'enough') else None
    for u in cx.fn(BLD, 'accept'):
        run = cx.run(u, ('c17f',), opaque=f)
        n = 0
        for e in run.ev:
            if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == 'parse' and (e.x.get('fn') or {}).get('cls') in (CLS, 'StatDict'):
                for x in e.val or ():
                    if isinstance(x, T) and x.op in ('ptr', 'argp'):
                        ad = t.OBJ(x)
                        v = current(run, e, ad)
                        n += 1
                        ok = True if v is EMPTY else False if v is None or v.op in ('init', 'push', 'fill') else None
                        cx.ob('fresh', e, ok, 'a training parse writes into an empty result', t.show(v, 3) if v is not None else t.show(ad, 3))
                src = [x for x in e.a or () if isinstance(x, T)]
                cx.ob('fresh', e, True if any(x is t.OBJ(raw('argp', 0, run.fn['params'][0]['n'])) for x in src) else None, 'what is parsed is the sequence given')
        calls_ = [e for e in run.ev if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == 'parse' and (e.x.get('fn') or {}).get('cls') in (CLS, 'StatDict')]
        if calls_:
            w, w2 = once(run, calls_)
            cx.ob('fresh', calls_[0], not w and not w2, 'a sequence is parsed exactly once')
        else:
            cx.ob('fresh', lib.at(run), None, 'the training parse is not recognised')


def current(run, e, ad):
    """value of a location just before an event (in straight-line order)"""
    best = None
    for x in run.ev:
        if x.addr is ad and x.new is not None and x.pos[0] == e.pos[0] and x.pos < e.pos and not (ad.a[-1] == 'G' and x.how == 'init'):
            best = x.new
    if best is None:
        vs = {x.new for x in run.ev if x.addr is ad and x.new is not None and x.pos != e.pos and x.new.op != 'hav' and not (ad.a[-1] == 'G' and x.how == 'init')}
        if len(vs) == 1:
            return vs.pop()
        return run.I.initial(ad) if not vs else raw('opq', 'several')
    return best


def only(cx, R):
    names = {}
    for F, nm in ((R.own, 'frequencies'), (R.parse, 'parsing frequencies'), (R.total, 'total'), (R.text, 'amount of text'), (R.pairs, 'pairs')):
        if F is not None:
            names[F.a[1]] = nm
    seen = set()
    for run in lib.surface(cx):
        for e in run.ev:
            if e.kind not in ('mut', 'store') or e.addr is None or e.how in ('noop', 'reserve', 'init'):
                continue
            a = e.addr
            el = False
            if a.op in ('el', 'mval', 'mel'):
                a, el = a.a[0], True
            if a.op != 'fld' or a.a[1] not in names:
                continue
            if builds(run, e):
                continue
            fs = [run.fn['fn']['q']] + [f for f in stack(e)]
            if any(f.startswith(CLS + '::') and f.split('::')[-1] in ('update_symbol', 'parse') for f in fs):
                continue
            if (e.loc, e.how) in seen:
                continue
            seen.add((e.loc, e.how))
            nm = names[a.a[1]]
            v = e.val
            if v is not None and v.op == 'fill':
                v = v.a[1]
            if not el and e.how in ('push', 'resize') and v is not None and v.op == 'c' and v.a[0] == 0:
                cx.ob('only', e, True, 'the %s only get places with 0' % nm)
            elif e.new is not None and e.new is e.old:
                continue
            else:
                bad = e.how in ('clear', 'pop', 'erase', 'sort', 'reverse', 'upd', 'put', 'updkey', 'asg', 'assign') or (e.how == 'push' and v is not None and v.op == 'c')
                cx.ob('only', e, False if bad else None, 'the %s are changed outside of a training parse (%s)' % (nm, e.how))
    for n in sorted(names.values()):
        cx.ob('only', ('-', CLS), True, 'all writes of the %s were looked at' % n)


def stack(e):
    return [q for _, q in e.ins.stack]


def builds(run, e):
    """in a constructor of the statistics"""
    return any(s.split('(')[0].endswith('::' + CLS) or s == CLS + '::' + CLS for s in [run.fn['fn']['q']] + stack(e))
