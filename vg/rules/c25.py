"""C25: a dictionary entry's parent is its longest proper prefix in the dictionary.

Building is recognised by its stack: in sorted order, the entries that are prefixes of an entry and precede it are nested;
the stack keeps those that are prefixes of the last entry.  Decided: what is put on the stack, when something is taken off
it, what a parent is set to and under which test, and that the search for it does not stop early.  Walking up the parents
of the preceding entry is recognised as well."""
from .. import lib, logic, patterns, dictx, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts

CLS = 'IntDictImpl'


def check(cx):
    cx.rule('sorted', 'parents are found for all entries in sorted order', 1)
    cx.rule('none', 'an entry has no parent until one is found', 1)
    cx.rule('parent', 'the parent set is the entry on top of the stack, which was found to be a prefix of the entry', 1)
    cx.rule('longest', 'entries are only taken off the stack when they are no prefix of the entry, and looking for a parent goes on until one is found or none is left', 1)
    cx.rule('stack', 'every entry is put on the stack once, with its own id', 1)
    cx.rule('kept', 'a parent never changes after the dictionary was built, an appended symbol has none, and asking for it gives what was recorded', 1)
    R = dictx.roles(cx)
    seen = set()
    for u in cx.ctors(CLS):
        run = cx.run(u, ('km',), keepmem=True)
        build(cx, run, R, seen)
    for u in cx.fns(CLS):
        f = cx.P.functions[u]
        if f['fn'].get('ctor') or f['fn'].get('dtor') or f.get('defaulted') or f.get('acc') not in ('public', None):
            continue
        run = cx.run(u)
        for e in run.muts():
            if e.addr is not R.P or (e.loc, run.q) in seen or e.how == 'noop':
                continue
            seen.add((e.loc, run.q))
            if e.how in ('reserve',):
                continue
            if e.how == 'push':
                v = lib.settle(run, e.facts, e.val)
                cx.ob('kept', e, True if v is C(-1) else False if lib.visible(v) else None, 'an appended symbol has no parent', t.show(v, 3))
            elif e.how in ('upd', 'clear', 'pop', 'erase', 'sort', 'reverse', 'fill', 'assign', 'put', 'insat'):
                cx.ob('kept', e, False, 'parents change after the dictionary was built')
            else:
                cx.ob('kept', e, None, 'parents are changed in a way that is not followed: %s' % (e.how or e.kind))
    for u in cx.resolve(CLS, 'parent'):
        run = cx.run(u)
        p = raw('arg', 0, run.fn['params'][0]['n'])
        for r in lib.returns(run):
            v = r.a[0] if r.a and isinstance(r.a[0], T) else None
            if v is None:
                continue
            b, i = dictx.loaded(run, v)
            ok = b is run.I.initial(R.P) and i is p
            if not ok:
                ok = False if all(lib.visible(x) for f, x in lib.alts(run, v, r.facts)) and not agree(run, R, v, r, p) else None
            cx.ob('kept', r, ok, 'the parent given is the one recorded')


def agree(run, R, v, r, p):
    return any(x is t.index(run.I.initial(R.P), p) or dictx.loaded(run, x) == (run.I.initial(R.P), p) for f, x in lib.alts(run, v, r.facts))


def build(cx, run, R, seen):
    I, LL, G = run.I, run.LL, run.G
    sets = [e for e in run.ev if e.kind == 'mut' and e.addr is R.P and e.how in ('upd', 'push') and LL.enclosing(e.blk)]
    if not sets:
        # nothing is set in a loop: an empty dictionary, a copy, or an unfinished one
        for r in lib.returns(run):
            s, p = r.mem.get(R.S), r.mem.get(R.P)
            if s is not None and any(x.op == 'sorted' for x in t.walk(s)) and p is not None and p.op == 'fill':
                cx.ob('parent', lib.at(run), False, 'no parents are found for a dictionary that is built')
        return
    # the loop over the entries
    loop = None
    for e in sets:
        for L in LL.enclosing(e.blk):
            for n, ph, ed in LL.traversals(L):
                if n.op == 'size' and (loop is None or len(L.body) > len(loop[0].body)):
                    loop = (L, ph, ed)
    if loop is None:
        bad = None
        for L in LL.enclosing(sets[0].blk)[-1:]:
            for ph, init, st in LL.counters(L):
                if any(x is ph for x in t.walk(sets[0].key or ZERO)) and init.op == 'c' and init.a[0] > 1 or st not in (1, -1) and init.op == 'c':
                    bad = (ph, init, st)
        # the first entry needs no parent: a walk from the second one is fine for a chain of parents
        cx.ob('sorted', sets[0], False if bad else None, 'the loop over the entries is not recognised')
        return
    M, i, end = loop
    srcs = {x.a[0] for e in run.ev for v in (e.val, e.key, e.new) if e.blk in M.body and isinstance(v, T) for x in t.walk(v)
            if x.op == 'idx' and x.a[1] is i and x.a[0].op in ('sorted', 'init', 'phi', 'sub', 'reversed', 'hav')
            and x.a[0] in lib.versions(run, R.S)}
    place = lib.at(run)
    for e in sets:
        place = (e.loc, e.fn)
    if len(srcs) != 1:
        cx.ob('sorted', place, None, 'the entry looked at is not recognised')
        return
    S = srcs.pop()
    E = t.index(S, i)
    ok = S.op == 'sorted' and S.a[1].op == 'lessthan'
    if not ok:
        ok = False if S.op in ('init', 'reversed') and any(x.op == 'argp' for x in t.walk(S)) else None
    cx.ob('sorted', place, ok, 'the entries are sorted before parents are looked for')
    n = [x for x, ph, ed in LL.traversals(M) if ph is i]
    cx.ob('sorted', place, True if any(x is size(S) or G.proves_eq(I.out[end][1], x, size(S)) for x in n) else None, 'all entries are gone through')
    if LL.exits(M, end):
        cx.ob('sorted', place, None, 'the loop over the entries can be left early')
    for e in sets:
        one(cx, run, R, M, i, S, E, e, seen)
    unset(cx, run, R, M, i, S, sets, place)


def unset(cx, run, R, M, i, S, sets, place):
    """what an entry has when nothing is found"""
    I = run.I
    if any(e.how == 'push' for e in sets):
        return
    ph = [p for p in I.phis if p.a[0] == M.header and p.a[1] is R.P]
    init = [I.phis[p].get(x) for p in ph for x in M.entry]
    if not init:
        cx.ob('none', place, None, 'the initial parents are not seen')
        return
    for v in init:
        if v.op == 'fill':
            ok = v.a[1] is C(-1) and run.G.proves_eq((), v.a[0], size(S))
            if not ok:
                ok = False if v.a[1].op == 'c' and v.a[1] is not C(-1) and not all_set(run, M, sets) else None
            cx.ob('none', place, ok, 'an entry has no parent until one is found', None if ok else t.show(v, 3))
        else:
            cx.ob('none', place, True if all_set(run, M, sets) else None, 'an entry has no parent until one is found', t.show(v, 3))


def all_set(run, M, sets):
    return run.LL.path((M.header, -1), [(b[0], 10 ** 8) for b in M.back], [e.pos for e in sets], M.body) is None


def prefixes(facts, E):
    """[(X, known)] what is known about X being a prefix of the entry"""
    return [(f[0].a[0], f[1]) for f in facts if f[0] != 'sel' and f[0].op == 'prefix' and f[0].a[1] is E]


def tested(facts, E):
    return [f for f in facts if f[0] != 'sel' and any(x is E for x in t.walk(f[0]))]


def top(v):
    """(stack, field) when v is the top of a stack or one of its parts"""
    fd = None
    if v.op == 'getf':
        v, fd = v.a[0], v.a[1]
    if v.op == 'idx' and v.a[0].op == 'phi':
        c, d = lin_parts(v.a[1])
        if v.a[1] is sub(size(v.a[0]), ONE):
            return v.a[0], fd, 'top'
        return v.a[0], fd, 'other'
    return None


def one(cx, run, R, M, i, S, E, e, seen):
    I, LL, G = run.I, run.LL, run.G
    seen.add((e.loc, run.q))
    w = lib.settle(run, e.facts, e.val)
    if e.how == 'upd' and e.key is not i:
        d = sub(e.key, i)
        cx.ob('parent', e, False if d.op == 'c' else None, 'the parent is recorded for another entry: %s' % t.show(e.key, 3))
        return
    if w.op == 'phi' and w in I.phis:
        chain(cx, run, R, M, i, S, E, e, w)
        return
    if w is C(-1):
        return
    tp = top(w)
    if tp is None:
        ok = False if w.op == 'c' or w.op == 'lin' or w is i else None
        cx.ob('parent', e, ok, 'the parent set is %s' % t.show(w, 3))
        return
    st, fd, which = tp
    if which != 'top':
        cx.ob('parent', e, False if e_visible(w) else None, 'the parent is not taken from the top of the stack')
        return
    # the test
    ps = prefixes(e.facts, E)
    if lib.everyway(run, e, lambda fs: any(k is True and same(x, w, st, fd, S) for x, k in prefixes(fs, E))):
        cx.ob('parent', e, True, 'the parent is the top of the stack, tested to be a prefix of the entry')
    elif any(k is False and same(x, w, st, fd, S) for x, k in ps):
        cx.ob('parent', e, False, 'the parent set is one that is no prefix of the entry')
    elif [f for f in tested(e.facts, E)] or any(lib.strange_test(run, x) for x in (E,)):
        cx.ob('parent', e, None, 'how the parent is tested is not recognised')
    else:
        cx.ob('parent', e, False, 'the parent is not tested to be a prefix of the entry')
    stack(cx, run, M, i, S, E, e, st, w)


def e_visible(w):
    return all(x.op not in lib.OPQ for x in t.walk(w))


def same(x, w, st, fd, S):
    """x is the entry whose id is w"""
    if x.op == 'idx' and x.a[1] is w and (x.a[0] is S):
        return True
    tx = top(x)
    return tx is not None and tx[0] is st and tx[2] == 'top' and tx[1] != fd


def stack(cx, run, M, i, S, E, e, st, w):
    I, LL, G = run.I, run.LL, run.G
    A = st.a[1]
    ev = [x for x in run.ev if x.kind in ('mut', 'store') and x.addr is A and x.how not in ('noop', 'reserve')]
    mine = [x for x in ev if x.blk in M.body]
    pushes = [x for x in mine if x.how == 'push']
    pops = [x for x in mine if x.how == 'pop']
    for x in mine:
        if x not in pushes and x not in pops:
            cx.ob('stack', x, False if x.how in ('clear', 'assign', 'init', 'asg') or x.kind == 'store' else None, 'the stack is changed otherwise (%s)' % (x.how or x.kind))
    # what is put on it
    if not pushes:
        cx.ob('stack', e, None, 'nothing is put on the stack')
    for x in pushes:
        v = x.val
        if v.op == 'sv':
            parts = [v.a[k] for k in range(1, len(v.a))]
            vals = [p for p in parts if isinstance(p, T)]
            ok = any(p is i for p in vals) and (any(p is E for p in vals) or len(vals) < 2 or True)
            seqs = [p for p in vals if p is not i]
            ok = i in vals and all(p is E for p in seqs)
            if not ok:
                ok = False if all(e_visible(p) for p in vals) else None
        else:
            ok = v is i
            if not ok:
                ok = False if e_visible(v) and sub(v, i).op == 'c' else None
        cx.ob('stack', x, ok, 'an entry is put on the stack with its own id', None if ok else t.show(v, 4))
    back = [(b[0], 10 ** 8) for b in M.back]
    p = LL.path((M.header, -1), back, [x.pos for x in pushes], M.body)
    if pushes:
        if p is None:
            cx.ob('stack', pushes[0], True, 'every entry is put on the stack')
        else:
            # left out when?
            ins = [x for x in pushes if any(f[0] != 'sel' and not e_visible(f[0]) for f in x.facts)]
            cx.ob('stack', pushes[0], None if ins else False, 'an entry may not be put on the stack')
        for x in pushes:
            if LL.path(x.pos, [y.pos for y in pushes], back, M.body) is not None:
                cx.ob('stack', x, None, 'an entry may be put on the stack twice')
    # the initial stack
    for ph in [q for q in I.phis if q.a[0] == M.header and q.a[1] is A]:
        for ed in M.entry:
            v = I.phis[ph].get(ed)
            if v is not None and v is not EMPTY:
                cx.ob('stack', e, None, 'the stack does not start empty')
    # when something is taken off
    for x in pops:
        tops = [(y, k) for y, k in prefixes(x.facts, E)]
        if lib.everyway(run, x, lambda fs: noprefix(run, fs, x.old, E)):
            cx.ob('longest', x, True, 'only what is no prefix of the entry is taken off the stack')
        elif any(k is True and topof(y, x.old) for y, k in tops):
            cx.ob('longest', x, False, 'a prefix of the entry is taken off the stack')
        else:
            cx.ob('longest', x, None if tested(x.facts, E) or any(f[0] != 'sel' and not e_visible(f[0]) for f in x.facts) else False,
                  'something is taken off the stack without knowing that it is no prefix of the entry')
    # the search goes on
    inner = [N for N in LL.loops.values() if N.header != M.header and N.header in M.body and st.a[0] == N.header]
    if not inner:
        cx.ob('longest', e, False if pops and all(LL.of_block(x.blk) is M for x in pops) else None, 'only one entry of the stack is looked at')
        return
    N = inner[0]
    setters = [x.pos for x in run.ev if x.kind == 'mut' and x.addr is e.addr and x.how == e.how]
    for b, k, d in N.exits:
        if (b, k) not in I.out or d not in LL.returning():
            continue
        f = I.out[(b, k)][1]
        if lib.infeasible(G, frozenset(f)):
            continue
        if G.proves(f, t.ge0(sub(ZERO, size(st)))):
            cx.ob('longest', e, True, 'the search ends when the stack is empty')
            continue
        ps = prefixes(f, E)
        if any(y is True and topof(x, st) for x, y in ps):
            # found: it must be recorded
            direct = LL.path((b, -1), [(b, 10 ** 8)], [z for z in setters if z[0] == b])
            before = any(z[0] == b for z in setters) or LL.path((N.header, -1), [(b, 10 ** 8)], setters, N.body) is None
            after = LL.path((d, -1), back, setters, M.body) is None
            cx.ob('longest', e, True if before or after else None, 'a prefix that was found is recorded')
            continue
        if cutoff(LL, f, N, st):
            cx.ob('longest', e, False, 'the search for the parent gives up after a number of steps')
            continue
        own = {y for x in f if x[0] != 'sel' for y in t.phis(x[0]) if y.a[0] == N.header and y is not st}
        if own or any(x[0] != 'sel' and not e_visible(x[0]) for x in f) or tested(f, E) and not ps:
            cx.ob('longest', e, None, 'the search for the parent can end otherwise')
        else:
            cx.ob('longest', e, False, 'the search for the parent can end before one is found or none is left')


def cutoff(LL, f, N, st):
    """the way is taken because a counter of the rounds has reached a constant"""
    for x in f:
        if x[0] == 'sel' or x[0].op not in ('ge0', 'eq'):
            continue
        ps = [y for y in t.phis(x[0]) if y.a[0] == N.header]
        if len(ps) == 1 and ps[0] is not st and LL.counter(ps[0]) is not None and x[0].op == 'ge0':
            c, d = lin_parts(x[0].a[0])
            init, step = LL.counter(ps[0])
            if set(d) == {ps[0]} and init.op == 'c' and d[ps[0]] * step < 0 and not x[1]:
                return True
    return False


def noprefix(run, fs, st, E):
    """the top of the stack is known to be no prefix of the entry"""
    for f in fs:
        if f[0] == 'sel':
            continue
        if f[0].op == 'prefix' and f[0].a[1] is E and not f[1] and topof(f[0].a[0], st):
            return True
        if f[0].op == 'ge0':
            for x in t.walk(f[0]):
                if x.op == 'size' and x is not size(E) and topof(x.a[0], st) and run.G.proves(fs, t.ge0(sub(x, add(size(E), ONE)))):
                    return True
    return False


def topof(x, st):
    """x is (a part of, or the entry of) the top of this stack"""
    if x.op == 'getf':
        x = x.a[0]
    if x.op == 'idx' and x.a[0] is st and x.a[1] is sub(size(st), ONE):
        return True
    if x.op == 'idx':
        y = x.a[1]
        return y.op in ('idx', 'getf') and topof(y, st)
    return False


def chain(cx, run, R, M, i, S, E, e, w):
    """walking up the parents of the preceding entry"""
    I, LL, G = run.I, run.LL, run.G
    cand = [p for p in lib.sources(run, w)]
    hs = [p for p in t.phis(w) if p.a[0] in I.headers] if w.a[0] in I.headers else \
         [x for f, x in lib.alts(run, w, e.facts) if x.op == 'phi' and x.a[0] in I.headers and x.a[0] != M.header]
    if not hs:
        vs = [x for f, x in lib.alts(run, w, e.facts)]
        if all(x is C(-1) or top(x) for x in vs):
            cx.ob('parent', e, None, 'the parent is chosen on the way: not followed')
        else:
            cx.ob('parent', e, None, 'where the parent comes from is not recognised')
        return
    ph = hs[0]
    N = LL.loops.get(ph.a[0])
    ok = True
    for ed in N.entry:
        v = I.phis[ph].get(ed)
        if v is not sub(i, ONE):
            ok = False if sub(v, i).op == 'c' or v.op == 'c' else None
    cx.ob('longest', e, ok, 'the search starts with the preceding entry')
    X = t.index(S, ph)
    for ed in N.back:
        for f, v in lib.cases(run, I.out[ed][1], I.phis[ph][ed]):
            up = v.op == 'idx' and v.a[1] is ph and v.a[0] in lib.versions(run, R.P)
            no = any(x is X and k is False for x, k in prefixes(f, E))
            yes = any(x is X and k is True for x, k in prefixes(f, E))
            cx.ob('longest', e, True if up and no else False if yes else None, 'the search goes on with the parent of an entry that is no prefix')
    for b, k, d in N.exits:
        if (b, k) not in I.out or d not in LL.returning():
            continue
        f = I.out[(b, k)][1]
        if G.proves(f, t.ge0(sub(C(-1), ph))):
            cx.ob('longest', e, True, 'the search ends where there is no parent')
        elif any(x is X and y is True for x, y in prefixes(f, E)):
            cx.ob('parent', e, True, 'the parent found is a prefix of the entry')
        else:
            cx.ob('longest', e, None, 'the search for the parent can end otherwise')
