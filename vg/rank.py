"""Growing and pruning of the training dictionary: the candidates, where they are put, how many are taken."""
from . import lib, patterns, terms as t
from .terms import T, raw, C, ZERO, ONE, EMPTY, NULL, size, sub, add, lin_parts

CLS = 'StatDictImpl'
ITEM = 'StatItem'
GROW, PRUNE = 'expand', 'reduce'


def opaque(fn):
    if fn.get('cls') in ('IntDict', 'IntDictImpl'):
        return 'none' if fn.get('n') == 'parse' else 'pure'
    if fn.get('n') in ('next_dirichlet', 'weightedParse', 'code_length_per_char'):
        return 'none'
    return None


class Side:
    pass


def members(cx):
    """names of the members of a candidate by what its accessors return"""
    k = 'itemmembers'
    if k in cx.cache:
        return cx.cache[k]
    r = {}
    for n in ('first', 'second', 'score', 'count'):
        for u in cx.resolve(ITEM, n):
            run = cx.run(u)
            for ret in lib.returns(run):
                v = ret.a[0]
                if v.op == 'init' and v.a[0].op == 'fld':
                    r[n] = v.a[0].a[1]
                elif v.op == 'fld':
                    r[n] = v.a[1]
    cx.cache[k] = r
    return r


class Cand:
    """one way a candidate is made"""
    def __init__(self, e, facts, first, second, score, count):
        self.e, self.facts, self.first, self.second, self.score, self.count = e, facts, first, second, score, count


def side(cx, name):
    k = ('rank', name)
    if k in cx.cache:
        return cx.cache[k]
    fs = cx.resolve(CLS, name)
    S = None
    if fs:
        S = Side()
        S.u = fs[0]
        S.run = run = cx.run(fs[0], ('rank',), opaque=opaque, keepmem=True)
        S.m = members(cx)
        S.cands, S.lists = [], []
        for e in run.ev:
            if e.kind == 'mut' and e.how in ('push', 'insat', 'append') and e.val is not None and e.val.op in ('sv', 'setf', 'phi') and len(S.m) == 4:
                for f, v in lib.cases(run, e.facts, e.val):
                    if v.op in ('sv', 'setf') and any(x.op == 'sv' and x.a[0] == ITEM for x in t.walk(v)) and not lib.contradictory(f):
                        S.cands.append(Cand(e, f, *[t.getf(v, S.m[n]) for n in ('first', 'second', 'score', 'count')]))
                        if e.addr not in S.lists:
                            S.lists.append(e.addr)
        S.dict = S.texts = S.freqs = None
        ps = run.fn['params']
        S.slots = None
        for i, p in enumerate(ps):
            if p['t'].get('int') and not p['t'].get('ptr') and S.slots is None:
                S.slots = raw('arg', i, p['n'])
        outs = {}
        for e in run.ev:
            if e.kind == 'mut' and e.addr is not None and e.addr.op == 'obj' and e.addr.a[0].op == 'argp':
                outs.setdefault(e.addr, []).append(e)
        for a, es in outs.items():
            p = ps[a.a[0].a[0]]
            ta = (p['t'].get('pta') or p['t'].get('ta') or [{}])
            vec = any(not x['int'] if False else (x.get('rc') == 'std::vector') for x in ta)
            pushes = [e for e in es if e.how == 'push' and e.val is not None]
            nested = any(is_text(e.val) for e in pushes) or vec
            if nested:
                S.texts = a
            else:
                S.freqs = a
        S.outs = outs
        S.gets = set()
        for e in run.ev:
            for x in (e.addr, e.new, e.val, e.c):
                if isinstance(x, T):
                    for y in t.walk(x):
                        if y.op == 'rf' and y.a[0].endswith('::get') and len(y.a) == 3:
                            S.gets.add((y.a[0], y.a[1]))
    cx.cache[k] = S
    return S


def is_text(v):
    return any(x.op == 'rf' and x.a[0].endswith('::get') for x in t.walk(v)) or v.op == 'phi' and isinstance(v.a[1], T) and False


def text(S, i):
    """the v-gram of an id, as the run sees it"""
    return [S.run.I.initial(raw('rf', q, d, i)) for q, d in S.gets]


def parents(S, i):
    return [raw('rf', q.rsplit('::', 1)[0] + '::parent', d, i) for q, d in S.gets]


def composite(S, e, i, facts=None, blk=None):
    """known to have more than one symbol (or a parent, which then is shorter)"""
    for x in text(S, i):
        if lib.always(S.run, e, t.ge0(add(size(x), C(-2))), facts=facts, blk=blk):
            return True
    for p in parents(S, i):
        if lib.always(S.run, e, t.ge0(p), facts=facts, blk=blk):
            return True
    return False


def base_fact(S, fs, i):
    """facts of an edge about an entry: True: base symbol, False: composite, None: not told"""
    G = S.run.G
    for x in text(S, i):
        if G.proves(fs, t.ge0(add(size(x), C(-2))), 3):
            return False
        if G.proves(fs, t.not_(t.ge0(add(size(x), C(-2)))), 3):
            return True
        if G.proves(fs, t.not_(t.eq(size(x), ONE)), 3):
            return False            # no v-gram is empty
    for p in parents(S, i):
        if G.proves(fs, t.ge0(p), 3):
            return False
        if G.proves(fs, t.not_(t.ge0(p)), 3):
            return True
    return None


def istop(v):
    if v.op == 'lim':
        return str(v.a[0]) in ('max', 'infinity')
    if v.op == 'c' and isinstance(v.a[0], float):
        return v.a[0] > 1e300
    return False


def top(run, v):
    """the score is the highest there is: True / False / None"""
    s = lib.sources(run, v)
    if all(istop(x) for x in s):
        return True
    if not any(istop(x) for x in s) and not any(x.op in ('ext', 'opq', 'load', 'bot', 'undef') for x in s):
        return False
    return None


def periter(run, L, evs):
    """inside one iteration of a loop: -> (way without, way with two)"""
    LL = run.LL
    back = [(b, 10 ** 8) for b, i in L.back]
    pos = [e.pos for e in evs]
    none = LL.path((L.header, -1), back, pos, within=L.body)
    two = None
    for e in evs:
        p = LL.path(e.pos, pos, [(L.header, 0)], within=L.body - {L.header} if e.pos[0] != L.header else L.body)
        two = two or p
    return none, two


def skips(run, L, evs):
    """edges inside a loop after which the events are no longer reached in that iteration, though they could have been"""
    LL = run.LL
    back = [(b, 10 ** 8) for b, i in L.back]
    pos = [e.pos for e in evs]
    r = []
    for b in L.body:
        ss = [(d, i) for d, i in LL.succ.get(b, ()) if d in L.body]
        if len(ss) < 2:
            continue
        reach = {i: d != L.header and LL.path((d, -1), pos, back, within=L.body - {L.header}) is not None for d, i in ss}
        if any(reach.values()) and not all(reach.values()):
            if LL.path((L.header, -1), [(b, 10 ** 7)], pos, within=L.body) is not None:
                r += [(b, i) for i in reach if not reach[i]]
    return r


def count_loop(S, v):
    """v = start + number of entries of some kind: -> (start, [(delta, facts, edge)], loop, index) or None"""
    run = S.run
    I, LL = run.I, run.LL
    if v.op != 'phi' or v not in I.phis or v.a[0] not in LL.loops:
        return None
    L = LL.loops[v.a[0]]
    ops = I.phis[v]
    init = [ops[e] for e in L.entry if e in ops]
    if not init or any(x is not init[0] for x in init):
        return None
    alts = []
    for e in L.back:
        if e not in ops:
            return None
        for f, x in lib.alts(run, ops[e], I.out[e][1]):
            d = sub(x, v)
            if d.op != 'c':
                return None
            alts.append((d.a[0], f, e))
    tr = LL.traversals(L)
    return init[0], alts, L, tr


def bound(S, e, addr, facts=None):
    """how many elements the list may have where `e` takes one off: the other side of `size > bound`"""
    r = []
    for f in (facts if facts is not None else e.facts):
        if f[0] == 'sel' or f[0].op != 'ge0':
            continue
        c, d = lin_parts(f[0].a[0])
        for k, m in d.items():
            if k.op == 'size' and f[1] and m == 1 and overlist(S, k.a[0], addr):
                r.append(sub(sub(k, C(1)), f[0].a[0]))
            elif k.op == 'size' and not f[1] and m == -1 and overlist(S, k.a[0], addr):
                # not (bound - size >= 0): size > bound
                r.append(add(f[0].a[0], k))
    return r


def overlist(S, c, addr):
    while c.op in ('pop', 'push', 'sorted'):
        c = c.a[0]
    return c.op == 'phi' and c.a[1] is addr


def strip_min(S, b, addr):
    """min(size of the list, x) -> x"""
    if b.op == 'min':
        o = [x for x in b.a if isinstance(x, T) and not (x.op == 'size' and overlist(S, x.a[0], addr))]
        if len(o) == 1:
            return o[0]
    return b


def outloop(S):
    """the loop that fills the new dictionary: (loop, traversal, text pushes, count pushes)"""
    run = S.run
    tp = [e for e in S.outs.get(S.texts, []) if e.how not in ('noop', 'reserve')] if S.texts is not None else []
    fp = [e for e in S.outs.get(S.freqs, []) if e.how not in ('noop', 'reserve')] if S.freqs is not None else []
    L = run.LL.of_block(tp[0].blk) if tp else None
    # a loop that only copies characters is not the one
    tv = patterns.traversal_of(run, L) if L is not None else None
    return L, tv, tp, fp


def item_of(S, e):
    """the candidate an iteration of the filling loop is about"""
    L, tv, tp, fp = outloop(S)
    if L is None or tv[0] != 'ok':
        return None
    vals = [x.val for x in tp + fp if x.val is not None and x.blk in L.body]
    for v in vals:
        for f, w in [(None, v)] + ([] if v.op != 'phi' else lib.cases(S.run, frozenset(), v)):
            for x in t.walk(w):
                if x.op == 'idx' and x.a[1] is tv[2] and base(x.a[0]) is base(tv[1]):
                    return x
    return t.index(tv[1], tv[2])


def base(x):
    while x.op in ('sorted',):
        x = x.a[0]
    return x


def allowed(S, e):
    """how many entries the push `e` into the new dictionary can make: a value, or None when nothing bounds it"""
    run = S.run
    L, tv, tp, fp = outloop(S)
    r = []
    for f in e.facts:
        if f[0] == 'sel' or f[0].op != 'ge0':
            continue
        x = f[0].a[0] if f[1] else sub(C(-1), f[0].a[0])       # x >= 0
        c, d = lin_parts(x)
        for k, m in d.items():
            if k.op == 'phi' and k in run.I.phis and k.a[0] == L.header and k is not tv[2]:
                cl = steps(S, k, L)
                if cl is None:
                    continue
                init, st = cl
                if m == 1 and st == {-1} and len(d) == 1:
                    # k - j + c >= 0 in the j-th turn
                    r.append(add(init, C(c + 1)))
                elif m == -1 and st == {1}:
                    # rest - (init + j) >= 0
                    r.append(add(sub(add(x, k), init), ONE))
            elif k.op == 'phi' and k is tv[2] and m == -1:
                rest = add(x, k)
                if any(y.op == 'size' and overlist(S, y.a[0], S.lists[0]) for y in lin_parts(rest)[1]):
                    continue
                r.append(add(rest, ONE))
            elif k.op == 'size' and m == -1 and (k.a[0].op == 'phi' and k.a[0].a[1] is S.texts):
                r.append(add(add(x, k), ONE))
    return r


def steps(S, k, L):
    run = S.run
    ops = run.I.phis[k]
    init = [ops[e] for e in L.entry if e in ops]
    if not init or any(x is not init[0] for x in init):
        return None
    st = set()
    for e in L.back:
        if e not in ops:
            return None
        for f, x in lib.alts(run, ops[e], run.I.out[e][1]):
            d = sub(x, k)
            if d.op != 'c':
                return None
            st.add(d.a[0])
    return init[0], st


def existing(S, c):
    """a candidate for an entry that is there (no first half)"""
    return c.first.op == 'c' and c.first.a[0] < 0


def source(S, c):
    """(text, walk) of the entry a candidate is for: how its id was found"""
    L = S.run.LL.of_block(c.e.blk)
    return L
