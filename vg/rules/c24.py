"""C24: a parse advances through the input by exactly what it emits.

Lookups are opaque (C05 says what they return).  In the loops that look up what is left of the input: how far the position
moves, what is emitted, and when the loop ends; in the table that is filled for the weighted parse: what an entry links, and
how the links are read back."""
from .. import lib, logic, patterns, dictx, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts

CLASSES = ['IntDictImpl', 'StatDictImpl']


def opaque(fn):
    return 'pure' if fn.get('n') == 'search' else None


def check(cx):
    cx.rule('advance', 'the position moves on by the length of the entry that matched, and by one where nothing matched', 2)
    cx.rule('start', 'the parse starts with the whole input', 1)
    cx.rule('emit', 'an entry that matched is appended to the output once, and nothing else is', 1)
    cx.rule('finish', 'the parse ends when, and only when, nothing is left of the input', 1)
    cx.rule('link', 'the table links a position with the one that lies behind an entry that matched there, and records that entry', 2)
    cx.rule('readback', 'the links are read back from the end to the start, each entry once, and appended in the order of the input', 1)
    R = dictx.roles(cx)
    done = set()
    for run in lib.surface(cx, ('c24',), CLASSES, opaque=opaque, keepmem=True):
        for e in run.ev:
            if e.kind != 'call' or (e.x.get('fn') or {}).get('n') != 'search' or e.x.get('repo') != 'pure' or e.r is None:
                continue
            ls = run.LL.enclosing(e.blk)
            if not ls or (e.loc, run.q) in done:
                continue
            p = position(run, e, ls)
            if p is None:
                continue
            done.add((e.loc, run.q))
            if p[0] == 'table':
                table(cx, run, e, p, R)
            else:
                linear(cx, run, e, p, R)


def place(run, e):
    return (e.loc, e.fn)


def argseq(e):
    """the sequence that is looked up"""
    for v in e.val or ():
        if isinstance(v, T) and v.op in ('sub', 'phi', 'erased', 'init', 'push', 'load'):
            return v
    return None


def position(run, e, ls):
    """('rest', loop, phi) the rest of the input is a container | ('at', loop, phi, S) a position in S | ('table', …)"""
    I = run.I
    v = argseq(e)
    if v is None:
        return None
    for L in ls:
        if v.op == 'phi' and v.a[0] == L.header and v in I.phis:
            return 'rest', L, v
        if v.op == 'sub':
            S, p, q = v.a
            ph = [x for x in t.walk(p) if x.op == 'phi' and x.a[0] == L.header and x in I.phis]
            if len(ph) == 1 and S.op != 'phi' and p is ph[0]:
                c = run.LL.counter(p)
                if c is not None and c[1] == 1:
                    return 'table', L, p, S, q
                if c is None or c[1] != 0:
                    return 'at', L, p, S, q
    return None


def params(run):
    """input and output: the sequences handed in"""
    r = []
    for i, p in enumerate(run.fn['params']):
        r.append(t.OBJ(raw('argp', i, p['n'])))
    return r


def isparam(v):
    return v.op == 'init' and t.root(v.a[0]).op in ('obj', 'argp') and any(x.op == 'argp' for x in t.walk(v))


# ---------------------------------------------------------------- step by step
def left(p):
    """how much is left, as a term"""
    if p[0] == 'rest':
        return size(p[2])
    return sub(size(p[3]), p[2])


def moves(run, p, facts, v):
    """how far a step goes: term, or None"""
    ph = p[2]
    if p[0] == 'at':
        return sub(v, ph)
    if v is ph:
        return ZERO
    if v.op == 'sub' and v.a[0] is ph:
        if run.G.proves_eq(facts, v.a[2], size(ph)):
            return v.a[1]
        return 'cut'
    if v.op == 'erased' and v.a[0] is ph and len(v.a) >= 3 and v.a[1] is ZERO:
        return v.a[2]
    return None


def steps(run, p):
    """[(facts, amount)] of the ways round the loop"""
    I, L, ph = run.I, p[1], p[2]
    r = []
    for e in L.back:
        v = I.phis[ph].get(e)
        if v is None or e not in I.out:
            continue
        for f, x in lib.cases(run, I.out[e][1], v):
            r.append((f, moves(run, p, f, x), x))
    return r


def hit(run, facts, s):
    """True: the lookup found something, False: it found nothing, None: not known"""
    fs = frozenset(facts) | {(t.ge0(add(s, ONE)), True)}
    if run.G.proves(fs, t.ge0(s)):
        return True
    if run.G.proves(fs, t.ge0(sub(C(-1), s))):
        return False
    return None


def entrylen(run, R, facts, k, s):
    """k is the length of entry s"""
    return run.G.proves_eq(facts, k, size(t.index(run.I.initial(R), s)))


def seqsof(cx, run, R):
    return R.S


def islen(v, s):
    """v is the size of element s of some list"""
    return v.op == 'size' and v.a[0].op == 'idx' and v.a[0].a[1] is s


def linear(cx, run, e, p, R):
    I, LL, G = run.I, run.LL, run.G
    L, ph, s = p[1], p[2], e.r
    W = place(run, e)
    init = [I.phis[ph].get(x) for x in L.entry]
    if p[0] == 'rest':
        ok = all(x is not None and isparam(x) for x in init)
        why = [x for x in init if x is not None and not isparam(x)]
        if not ok:
            ok = False if why and why[0].op == 'sub' and isparam(why[0].a[0]) else None
    else:
        ok = all(x is ZERO for x in init) and isparam(p[3])
        if not ok:
            ok = False if isparam(p[3]) and all(x is not None and x.op == 'c' for x in init) else None
        if not G.proves_eq(e.facts, p[4], size(p[3])):
            cx.ob('start', W, None if not lib.visible(p[4]) and p[4].op != 'lin' else False, 'what is looked up does not reach to the end of the input')
    cx.ob('start', W, ok, 'the parse starts with the whole input', None if ok else str([t.show(x, 3) for x in init if x is not None]))
    for f, k, v in steps(run, p):
        h = hit(run, f, s)
        if k == 'cut':
            cx.ob('advance', W, None, 'the end of what is left moves too')
            continue
        if k is None:
            cx.ob('advance', W, None, 'the position moves to %s' % t.show(v, 3))
            continue
        ln = size(t.index(I.initial(R.S), s)) if True else None
        if h is True:
            ok = islen(k, s) or entrylen_any(run, f, k, s)
            if not ok:
                ok = False if definite(run, k, s) else None
            cx.ob('advance', W, ok, 'after a match the position moves on by the length of the entry', None if ok else 'it moves by %s' % t.show(k, 3))
        elif h is False:
            ok = k is ONE or G.proves_eq(f, k, ONE)
            if not ok:
                ok = False if definite(run, k, s) else None
            cx.ob('advance', W, ok, 'where nothing matched the position moves on by one', None if ok else 'it moves by %s' % t.show(k, 3))
        else:
            ok = False if k.op == 'c' else None
            cx.ob('advance', W, ok, 'the step does not depend on whether something matched: %s' % t.show(k, 3))
    # the end
    for b, i, d in L.exits:
        if d not in LL.returning() or (b, i) not in I.out:
            continue
        f = I.out[(b, i)][1]
        goal = t.ge0(sub(ZERO, left(p)))
        if G.proves(f, goal):
            cx.ob('finish', W, True, 'the loop is left when nothing is left of the input')
            continue
        if lib.infeasible(G, frozenset(f)):
            continue
        own = [x for x in f if x[0] != 'sel']
        strange = any(not visible_but(x[0], s) for x in own)
        cx.ob('finish', W, None if strange else False, 'the loop can be left while something is left of the input')
    emits(cx, run, e, p, s)


def visible_but(v, s):
    """understood, up to the lookup's answer, loop values and the state of the caller"""
    for x in t.walk(v):
        if x is s or x.op == 'phi':
            continue
        if x.op in lib.OPQ and not any(x is y for y in t.walk(s)):
            return False
    return True


def entrylen_any(run, facts, k, s):
    """the step is provably the length of entry s"""
    for x in t.walk(k):
        if islen(x, s) and run.G.proves_eq(facts, k, x):
            return True
    return False


def definite(run, k, s):
    """a step that is plainly something else than the length of entry s: sizes and constants"""
    for x in t.walk(k):
        if x.op in lib.OPQ and x is not s and not any(x is y for y in t.walk(s)):
            return False
        if x.op == 'phi' and x.a[0] not in run.I.headers:
            return False
    return True


def emits(cx, run, e, p, s):
    """what goes to the output"""
    I, LL, G = run.I, run.LL, run.G
    L = p[1]
    W = place(run, e)
    outs = [o for o in params(run) if any(x.addr is o and x.kind == 'mut' for x in run.ev)]
    if not outs:
        cx.ob('emit', W, None, 'no output is written')
        return
    for o in outs:
        vals = []
        for r in lib.returns(run):
            v = r.mem.get(o) if r.mem else None
            if v is not None:
                vals += [(f, x) for f, x in lib.alts(run, v, r.facts)]
        if not vals:
            cx.ob('emit', W, None, 'the output is not followed')
        for f, v in vals:
            base = None
            if v.op == 'cat':
                base, v = v.a[0], v.a[1]
            if v is I.initial(o):
                ok = G.proves(f, t.ge0(sub(ZERO, size(p[3] if p[0] == 'at' else inputof(run, p)))))
                cx.ob('emit', W, True if ok else None, 'nothing is emitted only for an empty input')
                continue
            acc = LL.accumulation(v) if v.op == 'phi' else None
            if acc is None or acc[2] is not L:
                bad = v.op in ('reversed', 'sorted') and v.a[0].op == 'phi' or grows(run, v, L) == 'front'
                cx.ob('emit', W, False if bad else None, 'the output is %s' % (v.op if bad else 'not an accumulation of this loop'))
                continue
            init, alts, _ = acc
            start = base if base is not None else init
            ok = start is I.initial(o) and (base is None or init is EMPTY)
            if not ok:
                ok = False if start in (EMPTY,) or start.op == 'fill' or init.op == 'fill' else None
            cx.ob('emit', W, ok, 'results are appended to what the output had')
            for af, items in alts:
                for c in split(run, af, s):
                    h = hit(run, c, s)
                    n = len(items)
                    if h is None:
                        cx.ob('emit', W, False if n == 1 and items[0][0] == 'one' and items[0][1] is s and plain(run, c, s) else None,
                              'it is not known whether something matched')
                    elif h is False:
                        cx.ob('emit', W, n == 0 or (False if all(x[0] in ('one', 'seq') for x in items) else None), 'nothing is emitted where nothing matched')
                    else:
                        vs = [lib.settle(run, c, x[1]) for x in items if x[0] == 'one']
                        ok = n == 1 and len(vs) == 1 and vs[0] is s
                        if not ok:
                            ok = None if any(x[0] not in ('one', 'seq') for x in items) or any(not visible_but(x, s) for x in vs) or n == 0 and not plain(run, c, s) else False
                        cx.ob('emit', W, ok, 'the entry that matched is emitted once', None if ok else str([t.show(x[1], 3) for x in items if len(x) == 2]))


def grows(run, v, L):
    """'front': elements are put at the front in the loop"""
    for x in run.ev:
        if x.kind == 'mut' and x.how == 'insat' and x.blk in L.body and x.addr is v.a[1] if v.op == 'phi' else False:
            k = x.key
            if isinstance(k, T) and k.op == 'it' and k.a[1] is ZERO or k is ZERO:
                return 'front'
    return None


def plain(run, facts, s):
    return all(x[0] == 'sel' or visible_but(x[0], s) for x in facts)


def inputof(run, p):
    for x in p[1].entry:
        v = run.I.phis[p[2]].get(x)
        if v is not None:
            return v
    return p[2]


def split(run, facts, s):
    if hit(run, facts, s) is not None:
        return [facts]
    g = t.ge0(s)
    return [facts]


# ---------------------------------------------------------------- the table
def table(cx, run, e, p, R):
    I, LL, G = run.I, run.LL, run.G
    L, ph, S, q = p[1], p[2], p[3], p[4]
    s = e.r
    W = place(run, e)
    ini = LL.counter(ph)[0]
    ends = [n for n, c, ed in LL.traversals(L) if c is ph]
    whole = S.op in ('init', 'idx', 'load', 'rf')
    ok = ini is ZERO and whole and any(n is size(S) for n in ends)
    if not ok:
        ok = False if whole and (ini.op == 'c' and ini is not ZERO or patterns.traversal_of(run, L)[0] == 'bad') else None
    cx.ob('start', W, ok, 'every position of the input is tried')
    if not G.proves_eq(e.facts, q, size(S)):
        cx.ob('start', W, False if lin_visible(q) else None, 'what is looked up reaches to the end of the input', t.show(q, 3))
    ups = [x for x in run.ev if x.kind == 'mut' and x.how == 'upd' and x.blk in L.body and x.addr.op in ('var', 'obj', 'fld') and x.key is not None]
    syms = [x for x in ups if chain(run, x.val, s) is not None]
    if not syms:
        cx.ob('link', W, None, 'the table of entries is not recognised')
        cx.ob('readback', W, None, 'the table of entries is not recognised')
        return
    A = syms[0].addr
    others = [x for x in ups if x.addr is not A and x.addr is not None]
    # the scores: the other table written at the same places
    for x in syms:
        k = sub(x.key, ph)
        ok = islen(k, x.val)
        if not ok:
            ok = False if definite(run, k, x.val) and not any(y.op == 'phi' and y is not ph and y is not x.val and y.a[0] not in I.headers for y in t.walk(k)) else None
        cx.ob('link', x, ok, 'the entry is recorded where it ends', None if ok else 'at %s' % t.show(x.key, 3))
        c = chain(run, x.val, s)
        cx.ob('link', x, c, 'the entry recorded is the one that matched here or one of its parents', None if c else t.show(x.val, 4))
        h = hit(run, x.facts, x.val)
        cx.ob('link', x, True if h else None, 'only entries are recorded')
        mates = [y for y in others if y.key is x.key or G.proves_eq(x.facts, y.key, x.key)]
        if not mates:
            el = [y for y in others if definite(run, y.key, x.val)]
            cx.ob('link', x, False if el else None, 'the score is recorded at the same place', str([t.show(y.key, 3) for y in el]) or None)
            continue
        y = mates[0]
        fx = {z for z in x.facts if z[0] != 'sel'}
        fy = {z for z in y.facts if z[0] != 'sel'}
        within = LL.enclosing(x.blk)[0]
        both = together(run, x, y, within) and together(run, y, x, within)
        if not both:
            a = fx - fy
            b = fy - fx
            both = False if (not a or not b) and (a or b) else None
        cx.ob('link', x, both, 'score and entry are recorded together')
    for y in others:
        if any(y.key is x.key for x in syms):
            continue
        if y.val.op == 'c' or not any(z.op == 'idx' for z in t.walk(y.val)):
            continue
        if any(G.proves_eq(x.facts, y.key, x.key) for x in syms):
            continue
        cx.ob('link', y, False if definite(run, y.key, s) and samearray(run, y, syms) else None, 'a score is recorded elsewhere than its entry')
    readback(cx, run, e, p, R, A)


def samearray(run, y, syms):
    return any(x.blk == y.blk for x in syms)


def lin_visible(v):
    return lib.visible(v) or all(x.op in ('lin', 'c', 'size', 'phi', 'init', 'obj', 'argp', 'fld') for x in t.walk(v))


def together(run, x, y, L):
    """every time round the loop in which x happens, y does"""
    LL = run.LL
    bef = LL.path((L.header, -1), [x.pos], [y.pos], L.body)
    if bef is None:
        return True
    ends = [(e[0], 10 ** 8) for e in L.back]
    return LL.path(x.pos, ends, [y.pos], L.body) is None


def chain(run, v, s, depth=0):
    """v is the entry found or one of its parents: True, None (not seen)"""
    I = run.I
    seen, st = set(), [v]
    hits = False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is s:
            hits = True
        elif x.op == 'phi' and x in I.phis:
            st += [y for e, y in I.phis[x].items() if e in I.out]
        elif x.op in ('idx', 'rf', 'rcall') and isparent(x):
            st.append(x.a[1] if x.op == 'idx' else x.a[-1])
        elif x.op == 'c':
            pass
        else:
            if any(y is s for y in t.walk(x)) and x.op in ('lin',):
                return False
            return None
    return True if hits else None


def isparent(x):
    if x.op == 'idx':
        b = x.a[0]
        return b.op in ('init', 'hav', 'phi') and x.a[1].op in ('phi', 'rf')
    return 'parent' in str(x.a[0])


def readback(cx, run, e, p, R, A):
    I, LL, G = run.I, run.LL, run.G
    S = p[3]
    W = place(run, e)
    done = False
    av = lib.versions(run, A)
    for M in LL.loops.values():
        if M.header in p[1].body:
            continue
        for ph in [x for x in I.phis if x.a[0] == M.header]:
            sym = [x for v in [I.phis[ph].get(b) for b in M.back] if v is not None for x in t.walk(v)
                   if x.op == 'idx' and x.a[0] in av]
            sym = sym or [x for y in run.ev if y.blk in M.body and isinstance(y.val, T) for x in t.walk(y.val)
                          if x.op == 'idx' and x.a[0] in av and x.a[1] is ph]
            if not sym or ph.a[1].op not in ('var',) or ph in av:
                continue
            ini = [I.phis[ph].get(b) for b in M.entry]
            if any(x is None for x in ini) or not (any(sym[0].a[1] is z for z in t.walk(sym[0])) and any(z is ph for z in t.walk(sym[0].a[1]))):
                continue
            if any(x.op in ('fill', 'empty', 'push', 'upd', 'cat') for x in ini):
                continue
            done = True
            read(cx, run, e, p, M, ph, ini, sym[0])
    if not done:
        cx.ob('readback', W, None, 'reading the table back is not recognised')


def read(cx, run, e, p, M, ph, ini, sym):
    I, LL, G = run.I, run.LL, run.G
    S = p[3]
    W = place(run, e)
    ok = all(x is size(S) for x in ini)
    if not ok:
        ok = False if all(lin_visible(x) for x in ini) else None
    cx.ob('readback', W, ok, 'reading starts at the end of the input', None if ok else str([t.show(x, 3) for x in ini]))
    ok = sym.a[1] is ph
    cx.ob('readback', W, ok or (False if lin_parts(sub(sym.a[1], ph))[1] == {} else None), 'the entry read is the one recorded at the position')
    for b in M.back:
        for f, v in lib.cases(run, I.out[b][1], I.phis[ph][b]):
            k = sub(ph, v)
            ok = islen(k, sym)
            if not ok:
                ok = False if definite(run, k, sym) else None
            cx.ob('readback', W, ok, 'the position moves back by the length of the entry', None if ok else 'by %s' % t.show(k, 3))
    for b, i, d in M.exits:
        if d not in LL.returning() or (b, i) not in I.out:
            continue
        f = I.out[(b, i)][1]
        if G.proves(f, t.ge0(sub(ZERO, ph))):
            cx.ob('readback', W, True, 'reading ends at the start of the input')
        elif not lib.infeasible(G, frozenset(f)):
            cx.ob('readback', W, None if any(x[0] != 'sel' and not visible_but(x[0], e.r) for x in f) else False, 'reading can end before the start of the input')
    # what is handed out
    sols = [x for x in run.ev if x.blk in M.body and x.kind == 'mut' and x.how in ('upd', 'push', 'ins', 'insat') and x.val is sym]
    stray = [x for x in run.ev if x.blk in M.body and x.kind == 'mut' and x.how in ('upd', 'push', 'insat') and x.val is not sym and any(z is sym for z in t.walk(x.val or ZERO))]
    for x in stray:
        cx.ob('readback', x, False if definite(run, x.val, sym) else None, 'what is recorded is %s' % t.show(x.val, 3))
    if not sols:
        if not stray:
            cx.ob('readback', W, None, 'the entries read are not collected')
        return
    x = sols[0]
    if not (together_loop(run, x, M)):
        cx.ob('readback', x, None, 'not every entry read is collected')
    apps = [y for y in run.ev if y.kind == 'mut' and y.how in ('append', 'insat', 'insrange', 'assign', 'cat', 'push') and y.blk not in M.body and
            isinstance(y.val, T) and any(z.op == 'phi' and z.a[0] == M.header and z.a[1] is x.addr for z in t.walk(y.val)) and y.addr is not x.addr]
    seen = False
    for y in apps:
        if t.root(y.addr).op == 'var' and y.addr is x.addr:
            continue
        sol = [z for z in t.walk(y.val) if z.op == 'phi' and z.a[0] == M.header and z.a[1] is x.addr][0]
        seen = True
        if y.how == 'append':
            atend = y.key is None or y.key.op == 'it' and y.key.a[1] is size(y.old)
            cx.ob('readback', y, True if atend else False if y.key.op == 'it' and y.key.a[1] is ZERO else None, 'the entries are appended at the end of the output')
        elif y.how == 'assign':
            cx.ob('readback', y, False if any(z.op == 'argp' for z in t.walk(y.addr)) else None, 'the output is replaced')
            continue
        elif y.how == 'push':
            cx.ob('readback', y, None, 'entries are handed out one by one')
            continue
        else:
            cx.ob('readback', y, False if y.key is not None and y.key.op == 'it' and y.key.a[1] is ZERO else None, 'the entries are put elsewhere than at the end')
            continue
        v = y.val
        if x.how == 'push':
            ok = v.op == 'reversed' and v.a[0] is sol
            if not ok:
                ok = False if v is sol or v.op == 'sub' and v.a[0] is sol else None
            cx.ob('readback', y, ok, 'the entries, read from the end, are handed out in reverse')
        elif x.how == 'upd':
            ranges(cx, run, M, x, y, sol, v)
        else:
            cx.ob('readback', y, None, 'the order of the entries is not followed')
    if not seen:
        cx.ob('readback', W, None, 'the entries read are not handed out in a way that is followed')


def together_loop(run, x, M):
    LL = run.LL
    ends = [(e[0], 10 ** 8) for e in M.back]
    return LL.path((M.header, -1), ends, [x.pos], M.body) is None


def ranges(cx, run, M, x, y, sol, v):
    """stored at falling places: the range handed out starts with the last one and ends after the first one"""
    I, LL, G = run.I, run.LL, run.G
    idx = [(ph, i, s) for ph, i, s in LL.counters(M) if any(z is ph for z in t.walk(x.key))]
    if len(idx) != 1 or v.op != 'sub' or v.a[0] is not sol:
        if v is sol:
            cx.ob('readback', y, False if len(idx) == 1 else None, 'the whole buffer is handed out, not only what was stored')
            return
        cx.ob('readback', y, None, 'the range handed out is not followed: %s' % t.show(v, 3))
        return
    ph, i0, st = idx[0]
    c, d = lin_parts(x.key)
    k = d.get(ph)
    if k is None or k * st != -1:
        cx.ob('readback', y, False if k is not None and k * st == 1 else None, 'the entries, read from the end, are stored from the end to the front')
        return
    from ..logic import rebuild
    first = rebuild(x.key, {ph: i0})
    last = add(x.key, ONE)      # one before the place the next one would go to
    ok = v.a[1] is last or G.proves_eq(y.facts, v.a[1], last)
    if not ok:
        ok = False if sub(v.a[1], last).op == 'c' or lin_visible(v.a[1]) and not any(z.op == 'phi' for z in t.walk(v.a[1])) else None
    cx.ob('readback', y, ok, 'what is handed out starts with the entry stored last', None if ok else t.show(v.a[1], 4))
    hi = resolve_size(run, sol, v.a[2])
    ok = hi is add(first, ONE) or G.proves_eq(y.facts, hi, add(first, ONE))
    if not ok:
        ok = False if sub(hi, add(first, ONE)).op == 'c' else None
    cx.ob('readback', y, ok, 'what is handed out ends with the entry stored first', None if ok else t.show(hi, 4))


def resolve_size(run, sol, v):
    """the size of a buffer that is only overwritten is the size it was made with"""
    from ..logic import rebuild
    acc = run.LL.accumulation(sol)
    if acc is None or any(z[0] != 'at' for f, its in acc[1] for z in its):
        return v
    return rebuild(v, {size(sol): size(acc[0])})
