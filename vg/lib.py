"""Helpers shared by the rules."""
from . import terms as t
from .terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts
from . import invariants as inv, logic, patterns
from .logic import rebuild

THIS = raw('this')
SELF = t.OBJ(THIS)
MAPS = {'std::unordered_map', 'std::map'}
SETS = {'std::unordered_set', 'std::set'}
VECS = {'std::vector', 'std::deque', 'std::list'}
END = 10 ** 9


def fld(name, base=SELF):
    return raw('fld', base, name)


def versions(run, addr):
    """initial value and every value a location takes during a run"""
    I = run.I
    r = {I.initial(addr)}
    for e in run.ev:
        if e.addr is addr and e.new is not None:
            r.add(e.new)
            if e.old is not None:
                r.add(e.old)
    for p in I.phis:
        if p.a[1] is addr:
            r.add(p)
    return r


def returns(run):
    return [e for e in run.ev if e.kind == 'return' and not e.ins.stack]


def alts(run, v, facts=frozenset(), depth=0, cross=False):
    """values a join can have: [(facts, value)] (not through loop headers)"""
    I = run.I
    if v.op == 'phi' and v in I.phis and v.a[0] not in I.headers and depth < 20:
        r = []
        sel = [f[2] for f in facts if f[0] == 'sel' and f[1] == v.a[0]]
        for e, x in I.phis[v].items():
            if e not in I.out or any(e not in s for s in sel):
                continue
            r += alts(run, x, facts | I.out[e][1], depth + 1)
        return r
    return [(facts, v)]


def cases(run, facts, v, limit=64):
    """[(facts, value)] with every join in the value decided, joins of one block together"""
    I = run.I
    num = I.num
    done, todo = [], [(frozenset(facts), v)]
    while todo:
        f, x = todo.pop()
        ps = {p.a[0] for p in t.phis(x) if p in I.phis and p.a[0] not in I.headers}
        if not ps or len(done) + len(todo) > limit:
            done.append((f, x))
            continue
        b = max(ps, key=lambda z: num.get(z, 0))
        es = [e for e in I.blocks[b].pred if e in I.out]
        for g in f:
            if g[0] == 'sel' and g[1] == b:
                es = [e for e in es if e in g[2]]
        for e in es:
            mp = run.G.subst_map(b, e)
            mp = {k: w for k, w in mp.items()}
            f2 = frozenset(g for g in f if not (g[0] != 'sel' and any(y.a[0] == b for y in t.phis(g[0])))) | I.out[e][1]
            if contradictory(f2):
                continue
            y = rebuild(x, mp)
            (todo if y is not x else done).append((f2, y))
    return done


def settle(run, facts, v):
    """a value under facts: joins decided by the facts are replaced, 'insert if absent' is decided"""
    I = run.I
    for _ in range(6):
        mp = {}
        for x in t.walk(v):
            if x.op == 'phi' and x in I.phis and x.a[0] not in I.headers:
                a = {y for f, y in alts(run, x, frozenset(facts))}
                if len(a) == 1:
                    mp[x] = a.pop()
            elif x.op == 'try':
                h = t.has(x.a[0], x.a[1])
                if (h, False) in facts:
                    mp[x] = raw('ins', *x.a)
                elif (h, True) in facts:
                    mp[x] = x.a[0]
        if not mp:
            return v
        w = rebuild(v, mp)
        if w is v:
            return v
        v = w
    return v


def contradictory(facts):
    return any(f[0] != 'sel' and (f[0], not f[1]) in facts for f in facts)


def avoidable(run, at, via):
    """a way from the start to an exit through event `at` that passes none of the events `via`; None when there is
    none.  (All of via before or after at.)"""
    LL = run.LL
    I = run.I
    av = [e.pos for e in via if e is not at]
    ent = (I.L.entryblk.id, -1)
    before = LL.path(ent, [at.pos], av)
    if before is None:
        return None
    ends = [(b.id, END) for b in I.rpo if b.id in I.reach and not LL.succ.get(b.id)]
    after = path_to_end(run, at.pos, av)
    if after is None:
        return None
    return before, after


def path_to_end(run, src, avoid):
    """path from src to an exit of the function (return or throw) or back to src itself"""
    LL, I = run.LL, run.I
    ends = [(b.id, 10 ** 8) for b in I.rpo if b.id in I.reach and not LL.succ.get(b.id)]
    return LL.path(src, ends + [src], avoid)


def must_follow(run, at, via):
    """every way on from event `at` passes one of `via` before leaving the function or coming back to at"""
    return path_to_end(run, at.pos, [e.pos for e in via]) is None


def must_precede(run, at, via):
    ent = (run.I.L.entryblk.id, -1)
    return run.LL.path(ent, [at.pos], [e.pos for e in via if e is not at]) is None


def where(run, v):
    """place to report for a value"""
    for e in run.ev:
        if e.new is v:
            return e
    r = returns(run)
    return r[0] if r else (run.fn['l'], run.q)


def at(run):
    return (run.fn['l'], run.q)


def entries(cx, cls, public=True):
    """methods of a class, without constructors and destructor"""
    r = []
    for u in cx.fns(cls):
        f = cx.P.functions[u]
        if f['fn'].get('ctor') or f['fn'].get('dtor') or f.get('defaulted') or f['fn'].get('lambda'):
            continue
        if public and f.get('acc') not in ('public', None):
            continue
        r.append(u)
    return r


def invariants(cx, cls):
    k = ('inv', cls)
    if k not in cx.cache:
        ct = [cx.run(u, ('km',), keepmem=True) for u in cx.ctors(cls)]
        en = [cx.run(u, ('km',), keepmem=True) for u in entries(cx, cls)]
        cx.cache[k] = inv.infer(cx, cls, ct, en)
    return cx.cache[k]


def always(run, ev, goal, limit=4000, facts=None, blk=None):
    """goal (a boolean term) holds whenever the event happens: the ways back from it are told apart at every join as
    far as they contradict what is known at the event"""
    I, G = run.I, run.G
    left = [limit]
    seen = set()

    def back(b, fs, g):
        at, pol = t.atom(g)
        if at.op == 'c':
            if bool(at.a[0]) == pol:
                return True
        elif G.proves(fs, g, 3):
            return True
        if infeasible(G, fs):
            return True
        left[0] -= 1
        if left[0] < 0 or b == I.L.entryblk.id:
            return False
        key = (b, fs, g)
        if key in seen:
            return True
        seen.add(key)
        es = [e for e in I.blocks[b].pred if e in I.out]
        if b in I.headers:
            body = G.loopbody(b)
            if G.defs(g) & body:
                return False
            fs = frozenset(G.outside(fs, b))
            es = [e for e in es if e not in I.backedge]
        if not es:
            return True
        for e in es:
            if any(f[0] == 'sel' and f[1] == b and e not in f[2] for f in fs):
                continue
            mp = G.subst_map(b, e)
            memo = {}
            f2 = G.subst_facts(fs, mp, memo, b)
            if f2 is None:
                continue
            f2 |= I.out[e][1]
            if G.contradictory(f2):
                continue
            if not back(e[0], frozenset(f2), rebuild(g, mp, memo)):
                return False
        return True
    return back(blk if blk is not None else ev.blk, frozenset(facts if facts is not None else ev.facts) | G.hyps, goal)


def everyway(run, ev, pred, limit=4000, facts=None, blk=None):
    """on every way to the event something is known that pred accepts: pred(set of facts)"""
    I, G = run.I, run.G
    left = [limit]
    seen = set()

    def back(b, fs):
        if pred(fs) or infeasible(G, fs):
            return True
        left[0] -= 1
        if left[0] < 0 or b == I.L.entryblk.id:
            return False
        key = (b, fs)
        if key in seen:
            return True
        seen.add(key)
        es = [e for e in I.blocks[b].pred if e in I.out]
        if b in I.headers:
            fs = frozenset(G.outside(fs, b))
            es = [e for e in es if e not in I.backedge]
        if not es:
            return True
        for e in es:
            if any(f[0] == 'sel' and f[1] == b and e not in f[2] for f in fs):
                continue
            f2 = G.subst_facts(fs, G.subst_map(b, e), {}, b)
            if f2 is None:
                continue
            f2 |= I.out[e][1]
            if G.contradictory(f2):
                continue
            if not back(e[0], frozenset(f2)):
                return False
        return True
    return back(blk if blk is not None else ev.blk, frozenset(facts if facts is not None else ev.facts) | G.hyps)


def onward(run, edge, targets, limit=3000):
    """can one of the target events be reached after taking an edge?  Joins remember how they were entered, so that a
    flag set on the way is still known.  None when it is too much to tell."""
    I, LL = run.I, run.LL
    tb = {}
    for e in targets:
        tb.setdefault(e.blk, []).append(e)
    joins = {f[1] for o in I.out.values() for f in o[1] if f[0] == 'sel'}
    start = I.blocks[edge[0]].succ[edge[1]].id
    st, seen = [(start, ((start, edge),) if start in joins else ())], set()
    while st:
        b, sel = st.pop()
        if (b, sel) in seen:
            continue
        seen.add((b, sel))
        if len(seen) > limit:
            return None
        if b in tb:
            return tb[b][0]
        d = dict(sel)
        for s, i in LL.succ.get(b, ()):
            if any(f[0] == 'sel' and f[1] in d and d[f[1]] not in f[2] for f in I.out[(b, i)][1]):
                continue
            d2 = dict(d)
            if s in joins:
                d2[s] = (b, i)
            st.append((s, tuple(sorted(d2.items()))))
    return False


def infeasible(G, fs):
    if G.contradictory(fs):
        return True
    for f in fs:
        if f[0] != 'sel' and f[0].op in ('has', 'prefix'):
            q = G.quick(fs - {f}, f[0])
            if q is not None and q != f[1]:
                return True
    return False


OPQ = {'opq', 'ext', 'rcall', 'hav', 'load', 'bot', 'bot2', 'undef', 'jget', 'rf', 'stream', 'sstr'}


def visible(v):
    """the making of the value is fully seen: it is not another when it is not the expected one"""
    return not any(x.op in OPQ or x.op == 'phi' for x in t.walk(v))


def seen(run, v, but=('hav',)):
    """the making of the value is fully seen, also through joins and loops"""
    todo, done = [v], set()
    while todo:
        for x in t.walk(todo.pop()):
            if x in done:
                continue
            done.add(x)
            if x.op in OPQ and x.op not in but:
                return False
            if x.op == 'phi':
                if x not in run.I.phis:
                    return False
                todo += [y for e, y in run.I.phis[x].items() if e in run.I.out]
    return True


def valts(run, ev, v, depth=0):
    """[(block, facts, value)]: the values a result can have and where the way with each of them leaves its branch"""
    I = run.I
    r = []

    def go(b, facts, v, d):
        if v.op == 'phi' and v in I.phis and v.a[0] not in I.headers and d < 20:
            sel = [f[2] for f in facts if f[0] == 'sel' and f[1] == v.a[0]]
            for e, x in I.phis[v].items():
                if e not in I.out or any(e not in s for s in sel):
                    continue
                go(e[0], I.out[e][1], x, d + 1)
        else:
            r.append((b, facts, v))
    go(ev.blk, ev.facts, v, 0)
    return r


def conds(run):
    """conditions the run branches on"""
    r = []
    for e in run.ev:
        if e.kind in ('br', 'cmp'):
            for a in e.a:
                if isinstance(a, T):
                    r.append((e, a))
    return r


KNOWNPRED = {'prefix', 'eq', 'ge0', 'not', 'has', 'c', 'size'}


def strange_test(run, x):
    """a condition looks into x in a way the rules do not understand (a loop over its elements, a helper)"""
    for e, a in conds(run):
        for y in t.walk(a):
            if y.op in ('idx', 'el') and y.a[0] is x:
                return True
            if y.op in ('rf', 'rcall', 'opq', 'ext', 'and', 'or') and any(z is x for z in t.walk(y)):
                return True
    return False


def opq(*names, cls=None):
    """treat calls of these functions as opaque values"""
    def f(fn):
        if fn.get('n') in names and (cls is None or fn.get('cls') in cls):
            return 'pure'
        return None
    return f


def calls(run, name):
    """opaque calls of a function of the program"""
    return [e for e in run.ev if e.kind == 'call' and (e.x.get('fn') or {}).get('n') == name and e.x.get('repo') == 'pure']


def sources(run, v):
    """what a value comes from, through all joins and loops"""
    seen, st, r = set(), [v], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in run.I.phis:
            st += [y for e, y in run.I.phis[x].items() if e in run.I.out]
        else:
            r.append(x)
    return r


CORE = ['IntDictImpl', 'StatDictImpl', 'IntVGramBuilderImpl', 'vgram_core::SeqCoder', 'vgram_core::BaseTokenizer', 'vgram_core::CharTokenizer',
        'vgram_core::WordTokenizer', 'vgram_core::IntStreamVGram', 'vgram_core::IntVGram', 'vgram_core::StringStreamVGram', 'vgram_core::StringVGram',
        'vgram_core::Saver', 'vgram_core::Loader']


def surface(cx, key=None, classes=None, **kw):
    """runs of every public operation and constructor, and of whatever these do not reach"""
    k = ('surface', key, tuple(classes or ()))
    if k in cx.cache:
        return cx.cache[k]
    runs, rest = [], []
    for c in classes or CORE + sorted(x for x in cx.P.records if x.startswith('Py')):
        if c not in cx.P.records:
            continue
        for u in cx.fns(c):
            f = cx.P.functions[u]
            if f.get('defaulted'):
                continue
            if f.get('acc') in ('public', None) or f['fn'].get('ctor'):
                runs.append(cx.run(u, key, **kw))
            else:
                rest.append(u)
    done = set()
    for r in runs:
        done |= set(r.L.inlined)
    for u in rest:
        if cx.P.functions[u]['fn']['q'] not in done:
            runs.append(cx.run(u, key, **kw))
    cx.cache[k] = runs
    return runs


def spread(work, tasks, procs=6):
    """work(task) for every task, in several processes"""
    import multiprocessing as mp
    global _WORK
    _WORK = work
    with mp.get_context('fork').Pool(procs) as pool:
        return pool.map(_call, tasks, 1)


def _call(z):
    return _WORK(z)


def lockstep(run):
    """facts: a counter that runs with the length of a list, in loops that append one element per step"""
    if getattr(run, '_lockstep', None) is not None:
        return run._lockstep
    I, G, LL = run.I, run.G, run.LL
    r = set()
    ls = LL.loops.values() if isinstance(LL.loops, dict) else LL.loops
    for L in ls:
        cs = [(ph, i, s) for ph, i, s in LL.counters(L)]
        vs = [p for p in I.phis if p.a[0] == L.header and any(x.op in ('push', 'pop') for x in I.phis[p].values())]
        for ph, i, s in cs:
            for v in vs:
                ok, init = True, None
                for e, x in I.phis[v].items():
                    y = I.phis[ph].get(e)
                    if y is None:
                        ok = False
                    elif e in I.backedge:
                        n = 0
                        while x.op == 'push':
                            x, n = x.a[0], n + 1
                        ok = ok and x is v and sub(y, ph) is C(n)
                    else:
                        d = sub(y, size(x))
                        ok = ok and (init is None or init is d)
                        init = d
                if ok and init is not None and not any(z.op == 'phi' and z.a[0] == L.header for z in t.walk(init)):
                    d = sub(sub(ph, size(v)), init)
                    r |= {(t.ge0(d), True), (t.ge0(sub(ZERO, d)), True)}
    run._lockstep = frozenset(f for f in r if f[0].op != 'c')
    return run._lockstep
