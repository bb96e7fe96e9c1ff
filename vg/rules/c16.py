"""C16: frequencies line up with the dictionary.

Which number goes where is followed on values: tables filled from a list of v-grams and a list of numbers, tables handed
out or written, the total kept beside a table, the pair of table and total a parse gets, and the places an index reaches."""
from .. import lib, dictx, rank, terms as t
from ..terms import T, raw, size, EMPTY, ZERO, ONE, C, NULL, sub, add, lin_parts
from ..cx import Broken
from . import c17, c30, c20

SV = 'vgram_core::IntStreamVGram'
IV = 'vgram_core::IntVGram'
ST = 'StatDictImpl'
BLD = 'IntVGramBuilderImpl'
DICT = ('IntDict', 'IntDictImpl')


def opaque(fn):
    n, c = fn.get('n'), fn.get('cls')
    if n == 'search' and c in DICT:
        return 'pure'
    if n == 'parse' and c in DICT:
        return 'none'
    if n in ('encode', 'accept', 'isTerminated', 'result_freqs', 'result', 'decode') and c not in DICT:
        return 'none'
    return None


def opaque2(fn):
    n, c = fn.get('n'), fn.get('cls')
    if n in ('search', 'get', 'size', 'parent', 'alphabet') and c in DICT:
        return 'pure'
    if n == 'parse' and c in DICT:
        return 'none'
    return None


def check(cx):
    cx.rule('reorder', 'numbers given with a list of v-grams go to the places these v-grams have in the dictionary made of them', 3)
    cx.rule('total', 'the total kept with a table is the sum of its entries whenever an operation is done', 4)
    cx.rule('paired', 'a parse gets a table together with the total of that table', 3)
    cx.rule('recount', 'after fitting, every v-gram of every parse is counted once, starting from zeros', 2)
    cx.rule('within', 'a table is as long as an index used to write to it requires', 3)
    cx.rule('handed', 'the frequencies handed out are those of the dictionary handed out, in its order and as many', 4)
    cx.rule('saved', 'a v-gram is written and read together with its own number', 2)
    reorder(cx)
    F, TOT = stream_roles(cx)
    total(cx, F, TOT)
    paired(cx, F, TOT)
    recount(cx, F)
    within(cx)
    handed(cx, F)
    saved(cx)


def cdiff(a, b):
    x = sub(a, b)
    return x.a[0] if x.op == 'c' and isinstance(x.a[0], int) else None


def ints(ty):
    return ty.get('rc') == 'std::vector' and (ty.get('ta') or [{}])[0].get('int')


def seqs(ty):
    return ty.get('rc') == 'std::vector' and (ty.get('ta') or [{}])[0].get('rc') == 'std::vector'


# -- reorder ----------------------------------------------------------------------------------------------------------

def params(run, k, ty):
    p = run.fn['params'][k]
    o = t.OBJ(raw('argp', k, p['n']))
    return o


def reorder(cx):
    for cls in (SV, ST):
        for u in cx.ctors(cls):
            f = cx.P.functions[u]
            A = [k for k, p in enumerate(f['params']) if seqs(p['t'])]
            F = [k for k, p in enumerate(f['params']) if ints(p['t'])]
            if not A or not F:
                continue
            run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
            fill(cx, run, A, F)


def owner(a):
    """object a member belongs to"""
    return a.a[0] if a.op == 'fld' else None


def walked(run, L, i):
    """the loop goes over everything, from the first to the last"""
    r = c20.whole(W(run), L, [i])
    if r:
        for ph in [x for x in t.walk(i) if x.op == 'phi' and x.a[0] == L.header]:
            for b, k, d in L.exits:
                f = run.I.out.get((b, k))
                for a in (f[1] if f else ()):
                    if a[0] == 'sel' or a[0].op != 'ge0' or a[1]:
                        continue
                    c, dd = lin_parts(a[0].a[0])
                    o = [z for z in dd if z is not ph]
                    if dd.get(ph) == -1 and len(o) == 1 and dd[o[0]] == 1 and o[0].op == 'size' and c < -1:
                        return False
    return r


class W:
    def __init__(self, run):
        self.run = run


def fill(cx, run, A, F):
    I = run.I
    pa = {I.initial(params(run, k, None)) for k in A}
    pf = {I.initial(params(run, k, None)) for k in F}
    ups = []
    for e in run.ev:
        if e.kind == 'mut' and e.how == 'upd' and e.addr is not None and e.addr.op == 'fld':
            v = sub(e.val, t.index(e.old, e.key)) if e.val.op not in ('idx',) else e.val
            if v.op == 'idx' and base(v.a[0]) is not e.addr:
                ups.append((e, v))
    done = set()
    good = {}           # aligned: address of a table -> dictionary object
    for e, v in sorted(ups, key=lambda x: (x[1].a[0] not in pf, I.num.get(x[0].blk, 0))):
        src, k = v.a
        done.add(e.addr)
        key = e.key
        if not (key.op == 'rf' and key.a[0].endswith('::search')):
            if key is k:
                cx.ob('reorder', e, False if src in pf else None, 'a number is stored at the place of its v-gram in the dictionary, not in the list')
            else:
                cx.ob('reorder', e, None, 'the place of a number is not found by looking up its v-gram', t.show(key, 3))
            continue
        D, s = key.a[1], key.a[2]
        if s.op != 'idx':
            cx.ob('reorder', e, None, 'what is looked up is not an element of the list', t.show(s, 3))
            continue
        lst, k2 = s.a
        if k is not k2:
            cx.ob('reorder', e, False if cdiff(k, k2) else (False if k.op == 'c' or k2.op == 'c' else None), 'the number and the v-gram looked up have the same position')
            continue
        ok = None
        if src in pf and lst in pa:
            ok = True
        else:
            b = base(src)
            if b in good and dictvalue(run, good[b], lst):
                ok = True
            elif b in good and lst in pa or src in pf and any(dictvalue(run, d, lst) for d in alldicts(run)):
                ok = False      # one of them in the order of the dictionary, the other in that of the list
        cx.ob('reorder', e, ok, 'the list of v-grams and the numbers are in the same order', '%s with %s' % (t.show(lst, 3), t.show(src, 3)))
        held = holds(run, owner(e.addr), D)
        cx.ob('reorder', e, held, 'the v-gram is looked up in the dictionary the table belongs to', t.show(D, 3))
        ex = key.a[3] if len(key.a) > 3 else NULL
        cx.ob('reorder', e, True if ex is NULL else None, 'nothing is excluded from the lookup')
        L = run.LL.enclosing(e.blk)
        if L:
            L0 = [l for l in L if any(x.op == 'phi' and x.a[0] == l.header for x in t.walk(k))]
            for l in L0[:1]:
                cx.ob('reorder', e, walked(run, l, k), 'all of the list is gone through')
                none, two = rank.periter(run, l, [e])
                cx.ob('reorder', e, not none, 'every number is stored')
                ph = [p for p in I.phis if p.a[0] == l.header and p.a[1] is e.addr]
                for p in ph:
                    for ed in l.entry:
                        b0 = I.phis[p].get(ed)
                        if b0 is not None:
                            cx.ob('reorder', e, zeros(run, b0, pf), 'the table starts with zeros', t.show(b0, 3))
        if ok:
            good[e.addr] = D
    for ret in lib.returns(run):
        for a, v in ret.mem.items():
            if a.op != 'fld':
                continue
            for f, x in lib.cases(run, ret.facts, v):
                if lib.contradictory(f):
                    continue
                if x in pf and owner(a) is lib.SELF or strip(x) in pf and owner(a) is lib.SELF:
                    cx.ob('reorder', ret, False if sorts(run) else None, 'the numbers are not stored as they came, in the order of the list', t.show(a, 3))
    if not ups:
        cx.ob('reorder', lib.at(run), None, 'how the numbers are stored is not recognised')


def strip(x):
    while x.op in ('resize', 'push', 'cat'):
        x = x.a[0]
    return x


def sorts(run):
    return any(e.kind == 'sort' for e in run.ev)


def base(v):
    return v.a[1] if v.op == 'phi' else (v.a[0] if v.op == 'init' else None)


def alldicts(run):
    return {o for o in {owner(e.addr) for e in run.ev if e.addr is not None and e.addr.op == 'fld'} if o is not None and o.op == 'new'}


def dictvalue(run, D, v):
    """v is what the dictionary D holds: a value of one of its members"""
    return any(v in lib.versions(run, a) for a in {e.addr for e in run.ev if e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is D})


def holds(run, o, D):
    for ret in lib.returns(run):
        for a, v in ret.mem.items():
            if a.op == 'fld' and a.a[0] is o and v.op == 'ptr' and v.a[0] is D:
                return True
    others = [v for ret in lib.returns(run) for a, v in ret.mem.items() if a.op == 'fld' and a.a[0] is o and v.op == 'ptr' and v.a[0].op == 'new' and 'Dict' in t.show(v, 3)]
    return False if others else None


def zeros(run, v, pf=()):
    if v.op == 'phi' and v in run.I.phis and v.a[0] not in run.I.headers:
        r = [zeros(run, x, pf) for e, x in run.I.phis[v].items() if e in run.I.out]
        return False if False in r else None if None in r else True
    if v is EMPTY:
        return True
    if v.op == 'fill':
        return True if v.a[1].op == 'c' and v.a[1].a[0] == 0 else (False if v.a[1].op == 'c' else None)
    if v.op == 'resize':
        return c17.both(zeros(run, v.a[0], pf), True if v.a[2].op == 'c' and v.a[2].a[0] == 0 else None)
    if v in pf:
        return False
    return False if v.op == 'init' else None


# -- totals -----------------------------------------------------------------------------------------------------------

def stream_roles(cx):
    k = 'c16roles'
    if k in cx.cache:
        return cx.cache[k]
    F = TOT = None
    for u in cx.fn(SV, 'freqs'):
        run = cx.run(u)
        for r in lib.returns(run):
            for f, v in lib.cases(run, r.facts, r.a[0]):
                x = strip(v)
                if x.op in ('fld', 'mv'):
                    x = run.I.initial(x)
                if x.op == 'init' and x.a[0].op == 'fld':
                    F = x.a[0]
    if F is None:
        c = [f['n'] for f in cx.fields(SV) if ints(f['t'])]
        F = lib.fld(c[0]) if len(c) == 1 else None
    if F is None:
        raise Broken('the frequencies of %s are not recognised' % SV)
    c = set()
    for cls in (SV, IV):
        for u in cx.ctors(cls) + lib.entries(cx, cls):
            run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
            for e in run.ev:
                if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF and e.new is not None:
                    if any(x.op == 'sum' for x in t.walk(e.new)):
                        c.add(e.addr)
    if len(c) == 1:
        TOT = c.pop()
    cx.cache[k] = F, TOT
    return F, TOT


def summed(v):
    """contents that sum up to the same: zeros appended"""
    while True:
        if v.op == 'resize' and v.a[2].op == 'c' and v.a[2].a[0] == 0:
            v = v.a[0]
        elif v.op == 'push' and v.a[1].op == 'c' and v.a[1].a[0] == 0:
            v = v.a[0]
        else:
            return v


def unnum(v):
    while v.op in ('cast', 'num', 'flt', 'i2f', 'f2i', 'conv'):
        v = v.a[0] if isinstance(v.a[0], T) else v.a[1]
    return v


def istotal(run, facts, tab, tot, pairs, assumed=()):
    """tot is the sum of tab"""
    I = run.I
    if (tab, tot) in assumed:
        return True
    hs = [x.a[0] for x in (tab, tot) if x.op == 'phi' and x in I.phis and x.a[0] in I.headers]
    if len(hs) == 2 and hs[0] == hs[1]:
        r = []
        for e in I.blocks[hs[0]].pred:
            if e in I.out:
                for f, v in lib.cases(run, I.out[e][1], raw('pair2', I.phis[tab].get(e, tab), I.phis[tot].get(e, tot))):
                    if not lib.contradictory(f):
                        r.append(istotal(run, f, v.a[0], v.a[1], pairs, assumed + ((tab, tot),)))
        return c17.both(*r)
    tab = summed(tab)
    tot = unnum(tot)
    I = run.I
    if tot.op == 'sum':
        if summed(tot.a[0]) is tab:
            return True
        if run.G.proves_eq(facts, tot.a[0], tab):
            return True
        return False if tot.a[0].op in ('phi', 'hav', 'init', 'sub', 'fill', 'idx', 'resize', 'empty') and tab.op in ('phi', 'hav', 'init', 'fill', 'resize', 'empty') else None
    for f, s in pairs:
        if tab is I.initial(f) and tot is I.initial(s):
            return True
    if tot.op == 'c' and tot.a[0] == 0:
        if zeros(run, tab):
            return True
        return False if tab.op in ('init', 'hav') or tab.op == 'phi' and counted(run, tab) else None
    if tot.op == 'init' and any(s is tot.a[0] for f, s in pairs):
        # the table changed, its total did not
        return False if tab.op in ('hav', 'empty', 'fill') or tab.op == 'phi' and counted(run, tab) else None
    return None


def counted(run, ph):
    """a loop adds to entries of the table"""
    a = ph.a[1]
    return any(e.kind == 'mut' and e.addr is a and e.how == 'upd' for e in run.ev)


def total(cx, F, TOT):
    if TOT is None:
        cx.ob('total', (cx.fn(SV, 'freqs') and cx.P.functions[cx.fn(SV, 'freqs')[0]]['l'], SV), None, 'the member with the total is not recognised')
        return
    for cls in (SV, IV):
        for u in cx.ctors(cls) + lib.entries(cx, cls):
            if cx.P.functions[u].get('defaulted'):
                continue
            run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
            touched = [e for e in run.ev if e.addr in (F, TOT) and e.kind in ('store', 'mut') and e.how not in ('init', 'noop', 'reserve')]
            ctor = run.fn['fn'].get('ctor')
            if not touched and not ctor:
                continue
            for blk, facts, f, s in ends(run, F, TOT):
                ok = istotal(run, facts, f, s, [(F, TOT)])
                if not ctor and f is run.I.initial(F) and s is run.I.initial(TOT):
                    ok = True
                if s.op == 'undef' or s.op == 'init' and ctor:
                    ok = False
                cx.ob('total', (place(run, blk), run.q), ok, 'the total is the sum of the frequencies', '%s for %s' % (t.show(s, 3), t.show(f, 3)))


def place(run, blk):
    ls = [e.loc for e in run.ev if e.blk == blk and e.loc]
    return ls[-1] if ls else run.fn['l']


def ends(run, F, TOT):
    """[(block, facts, table, total)] at the ways out, joins told apart together"""
    I = run.I
    r, seen = [], set()

    def go(b, facts, f, s, d):
        k = (b, f, s)
        if k in seen:
            return
        seen.add(k)
        js = [x for x in (f, s) if x.op == 'phi' and x in I.phis and x.a[0] not in I.headers]
        if not js or d > 30:
            r.append((b, facts, f, s))
            return
        jb = max((x.a[0] for x in js), key=lambda z: I.num.get(z, 0))
        for e in I.blocks[jb].pred:
            if e not in I.out or any(g[0] == 'sel' and g[1] == jb and e not in g[2] for g in facts):
                continue
            f2 = I.phis[f].get(e, f) if f.op == 'phi' and f in I.phis and f.a[0] == jb else f
            s2 = I.phis[s].get(e, s) if s.op == 'phi' and s in I.phis and s.a[0] == jb else s
            go(e[0], I.out[e][1], f2, s2, d + 1)
    for ret in lib.returns(run):
        go(ret.blk, ret.facts, ret.mem.get(F, I.initial(F)), ret.mem.get(TOT, I.initial(TOT)), 0)
    return r


# -- parses -----------------------------------------------------------------------------------------------------------

def tparses(run):
    r = []
    for e in run.ev:
        fn = (e.x or {}).get('fn') or {}
        if e.kind == 'call' and e.x.get('repo') and fn.get('n') in ('parse', 'weightedParse') and len(e.val or ()) >= 4:
            r.append(e)
    return r


def paired(cx, F, TOT):
    R = c17.roles(cx)
    init = initpower(cx, R)
    for cls in (SV, IV, ST):
        for u in lib.entries(cx, cls):
            op = opaque
            if cls == ST:
                op = lambda fn: 'none' if fn.get('n') == 'weightedParse' and fn.get('cls') == ST else opaque(fn)
            run = cx.run(u, ('c16', cls == ST), keepmem=True, opaque=op)
            for e in tparses(run):
                tab, tot = e.val[1], e.val[2]
                if not isinstance(tab, T) or not isinstance(tot, T):
                    cx.ob('paired', e, None, 'table and total are not seen')
                    continue
                if cls != ST:
                    for f, v in both(run, e, tab, tot):
                        cx.ob('paired', e, istotal(run, f, v.a[0], v.a[1], [(F, TOT)] if TOT is not None else []),
                              'the total given to a parse is that of the table given to it', '%s for %s' % (t.show(v.a[1], 3), t.show(v.a[0], 3)))
                    continue
                I = run.I
                ok = None
                c, d = lin_parts(tot)
                have = {k.a[0]: w for k, w in d.items() if k.op == 'init'}
                if tab.op == 'init' and R.own is not None and R.total is not None and lib.visible(tot):
                    if tab.a[0] is R.parse and R.parse is not None and init is not None:
                        ok = c == 0 and len(have) == len(d) and have == {R.total: 1, init: 1}
                    elif tab.a[0] is R.own:
                        ok = c == 0 and len(have) == len(d) and have == {R.total: 1}
                cx.ob('paired', e, ok, 'the total given to a parse is that of the table given to it', '%s for %s' % (t.show(tot, 3), t.show(tab, 3)))
    if init is not None and R.parse is not None:
        for u in cx.ctors(ST):
            if cx.P.functions[u].get('defaulted'):
                continue
            run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
            for blk, facts, f, s in ends(run, R.parse, init):
                cx.ob('total', (place(run, blk), run.q), istotal(run, facts, f, s, []), 'the total of the initial parsing frequencies is their sum', '%s for %s' % (t.show(s, 3), t.show(f, 3)))


def both(run, e, a, b):
    return [(f, v) for f, v in lib.cases(run, e.facts, raw('pair2', a, b)) if not lib.contradictory(f)]


def initpower(cx, R):
    """the member with the total of the initial parsing frequencies"""
    c = set()
    for u in cx.ctors(ST):
        run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
        for e in run.ev:
            if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF and e.new is not None and any(x.op == 'sum' for x in t.walk(e.new)):
                c.add(e.addr)
    if not c:
        return None
    return c.pop() if len(c) == 1 else None


# -- counting again -----------------------------------------------------------------------------------------------------

def recount(cx, F):
    for u in cx.fn(IV, 'fit'):
        run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
        I = run.I
        cs = [(e, k, d) for e, k, d in c17.counts(run, F)]
        seen = set()
        for e, k, d in cs:
            if k.op != 'idx':
                cx.ob('recount', e, None, 'what is counted is not an element of a parse')
                continue
            ps = tparses(run)
            out = k.a[0]
            mine = [p for p in ps if out.op == 'hav' and any(x.op in ('ptr', 'argp') and t.OBJ(x) is out.a[-1] for x in p.val or () if isinstance(x, T))]
            cx.ob('recount', e, True if mine else None, 'what is counted is what a parse emitted', t.show(out, 3))
            cx.ob('recount', e, c17.amt(run, e, d, ONE) if d is not None else None, 'a v-gram counts once', t.show(d, 3) if d is not None else '')
            Ls = [l for l in run.LL.enclosing(e.blk) if any(x.op == 'phi' and x.a[0] == l.header for x in t.walk(k.a[1]))]
            for l in Ls[:1]:
                cx.ob('recount', e, walked(run, l, k.a[1]), 'all of the parse is gone through')
                none, two = rank.periter(run, l, [e])
                cx.ob('recount', e, not two, 'a v-gram is counted once only')
                for ed in rank.skips(run, l, [e]):
                    f = I.out[ed][1]
                    ok = run.G.proves(f, t.lt(k, ZERO), 4)
                    if not ok:
                        own = [a for a in f if a[0] != 'sel' and any(x is k for x in t.walk(a[0]))]
                        ok = False if not own or all(a[0].op in ('ge0', 'eq') and set(lin_parts(a[0].a[0])[1]) == {k} for a in own if a[0].op == 'ge0') else None
                    cx.ob('recount', (place(run, ed[0]), run.q), ok, 'only what is no v-gram is left out')
                outer = [x for x in run.LL.enclosing(e.blk) if x.header != l.header and mine and mine[0].blk in x.body]
                for o in outer[:1]:
                    for p in [p for p in I.phis if p.a[0] == o.header and p.a[1] is F]:
                        for ed in o.entry:
                            b0 = I.phis[p].get(ed)
                            if b0 is not None:
                                cx.ob('recount', e, zeros(run, b0), 'counting starts from zeros', t.show(b0, 3))
            for m in mine[:1]:
                # room for every entry of the dictionary
                n = dsize(cx, run, m)
                if n is not None:
                    tab = e.old
                    ok = run.G.proves(e.facts, t.le(n, size(tab)), 4) or lib.always(run, e, t.le(n, size(tab)))
                    if not ok:
                        grow = [x for x in run.ev if x.addr is F and x.kind in ('mut', 'store') and x.how in ('resize', 'push', 'insat', 'append', 'assign', 'fill') and x.pos != m.pos and
                                run.LL.path(m.pos, [x.pos], [m.pos]) is not None and run.LL.path(x.pos, [e.pos], [m.pos]) is not None]
                        ok = None if any(run.LL.path(m.pos, [x.pos], [e.pos]) is not None for x in grow) else False
                    elif c30.grows(cx, m):
                        # the parse itself may add entries: the table has to be lengthened between it and the counting
                        between = [x for x in run.ev if x.addr is F and x.kind in ('mut', 'store') and x.pos != m.pos and x is not e and x.how != 'upd' and
                                   run.LL.path(m.pos, [x.pos], [m.pos]) is not None and run.LL.path(x.pos, [e.pos], [m.pos]) is not None]
                        if not between:
                            ok = False
                    cx.ob('within', e, ok, 'the table has a place for every entry the dictionary has after the parse')
        if not cs:
            cx.ob('recount', lib.at(run), None, 'the counting is not recognised')


def dsize(cx, run, m):
    o = m.a[0] if m.a else None
    if o is None:
        return None
    for e in run.ev:
        for v in (e.new, e.key):
            if isinstance(v, T):
                for x in t.walk(v):
                    if x.op == 'size' and x.a[0].op in ('init', 'hav') and any(y is o for y in t.walk(x.a[0])):
                        return x
    for f in [f for e in run.ev for f in e.facts if f[0] != 'sel']:
        for x in t.walk(f[0]):
            if x.op == 'size' and x.a[0].op in ('init', 'hav') and any(y is o for y in t.walk(x.a[0])):
                return x
    return size(run.I.initial(raw('fld', o, dictx.roles(cx).S.a[1])))


# -- room -----------------------------------------------------------------------------------------------------------------

def within(cx):
    R = c17.roles(cx)
    for u in cx.fns(ST, 'parse'):
        run = cx.run(u, ('c16w',), opaque=opaque2)
        for tab in R.tables:
            for e, k, d in c17.counts(run, tab):
                if e.kind != 'mut':
                    cx.ob('within', e, None, 'not understood')
                    continue
                goal = t.lt(k, size(e.old))
                known = frozenset(e.facts) | lib.lockstep(run)
                ok = run.G.proves(known, goal, 4) or lib.always(run, e, goal, facts=known)
                if not ok:
                    ok = False if apart(cx, R, tab) or short(run, tab, k) or not any(x.addr is tab and x.how in ('push', 'resize', 'insat', 'append') for x in run.ev if x.kind == 'mut') else None
                cx.ob('within', e, ok, 'the table reaches as far as the v-gram that is counted', t.show(tab, 2))


def short(run, tab, k):
    """the table is lengthened, but not so far"""
    r = []
    for x in run.ev:
        if x.kind != 'mut' or x.addr is not tab or x.how not in ('push', 'resize'):
            continue
        if x.how == 'resize':
            r.append(cdiff(x.key, k))
            continue
        for l in run.LL.enclosing(x.blk)[:1]:
            for ph, init, step in run.LL.counters(l):
                r += [cdiff(b, k) for b in c20.ends(W(run), l, ph)]
    return bool(r) and all(d is not None and d <= 0 for d in r)


def apart(cx, R, tab):
    """another table is lengthened somewhere without this one"""
    for run in lib.surface(cx, 'c16a', classes=[BLD], opaque=opaque2):
        g = {}
        for e in run.ev:
            if e.kind == 'mut' and e.how in ('push', 'resize', 'append', 'insat') and e.addr is not None and e.addr.op == 'fld' and \
                    e.addr.a[1] in {x.a[1] for x in R.tables} and e.addr.a[0].op != 'new':
                g.setdefault(e.addr.a[0], set()).add(e.addr.a[1])
        for o, names in g.items():
            if tab.a[1] not in names:
                return True
    return False


# -- handed out -----------------------------------------------------------------------------------------------------------

def chosen(run, v):
    """which member a value comes through, when it is a part of what a member points to"""
    for x in t.walk(v):
        if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[0] is lib.SELF:
            return x.a[0]
    return None


def handed(cx, F):
    R = c17.roles(cx)
    # the dictionary handed out
    pick = []
    for u in cx.fn(BLD, 'result'):
        run = cx.run(u, ('c16r',), opaque=opaque2)
        for ret in lib.returns(run):
            for blk, facts, v in lib.valts(run, ret, ret.a[0]):
                m = chosen(run, v)
                if m is not None:
                    pick.append((run, ret, blk, facts, m))
    for u in cx.fns(BLD, 'result_freqs'):
        f = cx.P.functions[u]
        if f.get('acc') not in ('public', None) or not f['params'] or not ints(f['params'][-1]['t']):
            continue
        k = len(f['params']) - 1
        run = cx.run(u, ('c16r',), keepmem=True, opaque=opaque2)
        I = run.I
        out = t.OBJ(raw('argp', k, f['params'][k]['n']))
        ws = [e for e in run.ev if e.addr is out and e.kind in ('mut', 'store') and e.how not in ('noop', 'reserve', 'clear', 'init')]
        pads = [e for e in ws if e.how in ('push', 'resize') and e.val is not None and e.val.op == 'c' and e.val.a[0] == 0]
        ps = [e for e in ws if e not in pads]
        for e in ps:
            if e.how != 'push' or e.val is None or e.val.op != 'idx':
                v = e.val if e.val is not None else e.new
                x = None
                if e.how == 'push' and v is not None:
                    c, d = lin_parts(v)
                    if c and len(d) == 1 and next(iter(d)).op == 'idx':
                        x = False
                if e.how in ('append', 'assign', 'insat') and v is not None:
                    w = src_table(v)
                    x = picked(run, e, w, pick, R) if w is not None else None
                cx.ob('handed', e, x, 'the frequencies are handed out as they are', t.show(v, 3) if v is not None else '')
                continue
            tab, i = e.val.a
            a = base(tab)
            cx.ob('handed', e, picked(run, e, a, pick, R), 'the frequencies handed out belong to the dictionary handed out', t.show(a, 3) if a is not None else t.show(tab, 3))
            Ls = [l for l in run.LL.enclosing(e.blk) if any(x.op == 'phi' and x.a[0] == l.header for x in t.walk(i))]
            if not Ls:
                cx.ob('handed', e, None, 'the walk over the table is not understood')
            for l in Ls[:1]:
                cx.ob('handed', e, walked(run, l, i), 'all of the table is handed out in order')
                none, two = rank.periter(run, l, [e])
                cx.ob('handed', e, not none and not two, 'every frequency is handed out once')
        grown(cx, run, R, out, ps, pads)
        if not ws:
            cx.ob('handed', lib.at(run), None, 'nothing is handed out')
    # asked with an empty table
    for cls, n in ((SV, 'update_dict'), (IV, 'fit')):
        for u in cx.fn(cls, n):
            run = cx.run(u, ('c16',), keepmem=True, opaque=opaque)
            for e in run.ev:
                if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == 'result_freqs' and e.x.get('repo'):
                    for x in (e.val or ()):
                        if isinstance(x, T) and x.op in ('ptr', 'argp'):
                            ad = t.OBJ(x)
                            v = c17.current(run, e, ad)
                            ok = True if v is EMPTY else False if v.op in ('init', 'push', 'fill') else None
                            cx.ob('handed', e, ok, 'the frequencies are put into an empty table', t.show(v, 3))
                            if n == 'update_dict':
                                r = lib.returns(run)
                                fin = [y.mem.get(F) for y in r]
                                good = all(y is not None and (y.op == 'hav' and y.a[-1] is ad) for y in fin)
                                cx.ob('handed', e, good or (False if all(y is None for y in fin) else None), 'what is handed out becomes the table of the model')


def src_table(v):
    for x in t.walk(v):
        if x.op in ('init', 'phi'):
            b = base(x)
            if b is not None and b.op == 'fld':
                return b
    return None


def grown(cx, run, R, out, ps, pads):
    """as many numbers as entries"""
    evs = [e for e in run.ev if e.kind == 'mut' and e.how in ('push', 'resize', 'insat', 'append') and e.addr is not None and
           (e in pads or e.addr.op == 'fld' and R.own is not None and e.addr.a[1] == R.own.a[1])]
    # entry by entry: every entry gets its number as it comes
    each = [e for e in ps if e.how == 'push' and (e.val is None or e.val.op != 'idx')]
    ok = True if evs else None if each or any(e.how != 'push' for e in ps) else False
    for e in each:
        for l in run.LL.enclosing(e.blk)[:1]:
            for ph, init, step in run.LL.counters(l):
                for b in c20.ends(W(run), l, ph):
                    c, d = lin_parts(b)
                    k = next(iter(d)) if len(d) == 1 else None
                    if c == 0 and k is not None and d[k] == 1 and (k.op == 'size' or k.op == 'rf' and k.a[0].endswith('::size')) and init is ZERO and step == 1:
                        ok = True
    cx.ob('handed', evs[0] if evs else lib.at(run), ok, 'entries without a number get one')
    for e in evs:
        if e.how == 'resize':
            n = e.key
            d = n is not None and (n.op == 'size' or n.op == 'rf' and n.a[0].endswith('::size') or n.op == 'max')
            cx.ob('handed', e, True if d else None, 'the table reaches as far as the dictionary')
        elif e.how == 'push':
            Ls = run.LL.enclosing(e.blk)
            r = None
            for l in Ls[:1]:
                for ph, init, step in run.LL.counters(l):
                    for b in c20.ends(W(run), l, ph):
                        c, d = lin_parts(b)
                        k = next(iter(d)) if len(d) == 1 else None
                        if k is not None and d[k] == 1 and (k.op == 'size' or k.op == 'rf' and k.a[0].endswith('::size')):
                            r = True if c >= 0 and (r is None or r) else False
                            if step == 1 and cdiff(init, size(c17.current(run, e, e.addr))) and (cdiff(init, size(e.old)) or 0) > 0:
                                r = False
                            # what has to hold for it to be lengthened at all
                            for g in e.facts:
                                if g[0] == 'sel' or g[0].op != 'ge0' or k is None:
                                    continue
                                d2 = lin_parts(g[0].a[0])[1]
                                z = [y for y in d2 if y.op == 'size' and y is not k]
                                if len(d2) == 2 and len(z) == 1 and abs(d2.get(k, 0)) == 1 and d2[z[0]] == -d2[k] and not t.phis(z[0]) and \
                                        not run.G.proves(frozenset({(g[0], not g[1])}), t.le(k, z[0]), 3):
                                    r = False
            cx.ob('handed', e, r, 'the table is lengthened to the size of the dictionary')


def picked(run, e, a, pick, R):
    """the table belongs to the statistics whose dictionary is handed out in this case"""
    if a is None or a.op != 'fld':
        return None
    if R.own is not None and a.a[1] != R.own.a[1]:
        return False if R.parse is not None and a.a[1] == R.parse.a[1] else None
    m = chosen(run, a)
    if m is None or not pick:
        return None
    I = run.I
    # cases in which the dictionary comes through another member
    r = []
    for prun, ret, blk, facts, pm in pick:
        # facts about members being null carry over
        w = frozenset((f[0], f[1]) for f in facts if f[0] != 'sel' and f[0].op == 'eq' and any(x is NULL for x in f[0].a))
        bad = frozenset(e.facts) | w
        feasible = not (run.G.contradictory(bad) or lib.always(run, e, t.FALSE, facts=bad))
        if feasible:
            r.append(pm is m)
    return True if r and all(r) else False if False in r and r else None


# -- file -------------------------------------------------------------------------------------------------------------------

def jkey(a):
    return str(a.a[1]) if a.op in ('jel', 'jat') else None


def saved(cx):
    op = lambda fn: 'none' if fn.get('n') in ('decode', 'encode', 'accept') or fn.get('n') in ('IntVGram', 'IntStreamVGram') else None
    S = dictx.roles(cx).S
    F, _ = stream_roles(cx)
    for u in cx.fns('vgram_core::Saver', 'save'):
        run = cx.run(u, ('c16s',), opaque=op)
        objs = {}
        for e in run.ev:
            if e.kind == 'json' and e.how == 'set' and e.addr is not None and jkey(e.addr) and isinstance(e.val, T):
                objs.setdefault(e.addr.a[0], []).append((e, e.val))
        for o, vs in objs.items():
            g = w = None
            for e, v in vs:
                x = v.a[0] if v.op == 'json' else v
                if isinstance(x, T) and x.op == 'idx':
                    b = strip(x.a[0])
                    if b.op == 'init' and b.a[0].op == 'fld' and b.a[0].a[1] == S.a[1]:
                        g = (e, x)
                    elif b.op == 'init' and b.a[0].op == 'fld' and b.a[0].a[1] == F.a[1]:
                        w = (e, x)
            if g and w:
                i, j = g[1].a[1], w[1].a[1]
                js = [v for f, v in lib.cases(run, w[0].facts, j) if not lib.contradictory(f)]
                cx.ob('saved', w[0], True if all(x is i for x in js) else (False if any(cdiff(i, x) or x.op == 'c' for x in js) else None), 'a v-gram is written with the number at the same place', '%s / %s' % (t.show(i, 3), t.show(j, 3)))
                n = size(strip(g[1].a[0]))
                ok = run.G.proves(w[0].facts, t.lt(j, size(w[1].a[0])), 4) or lib.always(run, w[0], t.lt(j, size(w[1].a[0])))
                cx.ob('within', w[0], True if ok else (False if w[1].a[0].op == 'init' else None), 'the table has a number for every v-gram that is written')
    for n in ('load_int_stream_vgram', 'load_int_vgram'):
        for u in cx.fns('vgram_core::Loader', n):
            run = cx.run(u, ('c16s',), opaque=op)
            ps = []
            for e in run.ev:
                if e.kind == 'mut' and e.how in ('push', 'insat') and e.val is not None:
                    j = [x for x in t.walk(e.val) if x.op == 'jget']
                    if len(j) == 1 and e.val is j[0] and jkey(j[0].a[0]):
                        ps.append((e, j[0].a[0]))
            el = {}
            for e, a in ps:
                el.setdefault(a.a[0], []).append((e, jkey(a)))
            two = [v for v in el.values() if len({e.addr for e, _ in v}) == 2]
            for v in two:
                for e, _ in v:
                    oth = [x for x, _ in v if x.addr is not e.addr]
                    L = run.LL.enclosing(e.blk)
                    if not L:
                        continue
                    none, twice = rank.periter(run, L[0], [e])
                    o0, o2 = rank.periter(run, L[0], oth)
                    # each without the other
                    skip = [ed for ed in rank.skips(run, L[0], [e])]
                    skip2 = [ed for ed in rank.skips(run, L[0], oth)]
                    cx.ob('saved', e, True if not (none or twice) and not (o0 or o2) else (True if bool(none) == bool(o0) and set(skip) == set(skip2) and not twice and not o2 else False),
                          'a v-gram and its number are read together')
                hows = {e.how for e, _ in v}
                if len(hows) > 1:
                    cx.ob('saved', v[0][0], False, 'the v-grams and their numbers are kept in the same order')
            if not two:
                cx.ob('saved', lib.at(run), None, 'how v-grams and numbers are read is not recognised')
