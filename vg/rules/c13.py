"""C13: fitting happens once, and an interrupted fit is not recorded as done.

Fitting is analysed with training, parsing and the interruption poll opaque: what must be known where the model is marked
fitted, counted, or returned, on every way there; and where training is reached."""
from .. import lib, patterns, terms as t
from ..terms import T, raw, C, NULL, ONE, size, lin_parts
from ..cx import Broken
from .c11 import ispoll, POLL

CLS = 'vgram_core::IntVGram'
EFF = {'accept': 'none', 'update_dict': 'none', POLL: 'const', 'parse': 'none', 'result_freqs': 'none', 'encode': 'pure', 'encode_immutable': 'pure', 'size': 'pure'}


def opaque(fn):
    return EFF.get(fn.get('n'))


def check(cx):
    cx.rule('fitted', 'a model is marked fitted only after the last of its iterations', 1)
    cx.rule('iterations', 'all iterations are run, each over as many sequences as there are, unless interrupted', 1)
    cx.rule('computed', 'frequencies are marked computed only after a pass over all the data', 1)
    cx.rule('once', 'a fitted model is not trained again', 1)
    cx.rule('reported', 'fitting returns the model when it is complete, and something else when it was interrupted', 2)
    cx.rule('marks', 'the marks are set by nothing but fitting and loading', 1)
    F = flags(cx)
    for u in cx.fn(CLS, 'fit'):
        fit(cx, cx.run(u, ('c13',), opaque=opaque, keepmem=True), F)
    marks(cx, F)


def name(e):
    return (e.x.get('fn') or {}).get('n') if isinstance(e.x, dict) else None


class Flags:
    fitted = computed = None


def flags(cx):
    F = Flags()
    bs = [f['n'] for f in cx.fields(CLS) if f['t'].get('s') == 'bool']
    run = cx.run(cx.fn(CLS, 'fit')[0], ('c13',), opaque=opaque, keepmem=True)
    acc = [e for e in run.ev if e.kind == 'call' and name(e) == 'accept']
    for b in bs:
        x = run.I.initial(lib.fld(b))
        if acc and all(lib.always(run, e, t.not_(x)) for e in acc):
            F.fitted = lib.fld(b) if F.fitted is None else F.fitted
    if F.fitted is None:
        c = [b for b in bs if 'fit' in b.lower()]
        F.fitted = lib.fld(c[0]) if len(c) == 1 else None
    rest = [b for b in bs if F.fitted is None or b != F.fitted.a[1]]
    if len(rest) > 1:
        rest = [b for b in rest if 'freq' in b.lower() or 'comp' in b.lower()]
    F.computed = lib.fld(rest[0]) if len(rest) == 1 else None
    return F


def seqs(run):
    return run.I.initial(t.OBJ(raw('argp', 0, run.fn['params'][0]['n'])))


def fit(cx, run, F):
    I, LL, G = run.I, run.LL, run.G
    W = lib.at(run)
    acc = [e for e in run.ev if e.kind == 'call' and name(e) == 'accept']
    upd = [e for e in run.ev if e.kind == 'call' and name(e) == 'update_dict']
    data = seqs(run)
    if not acc or F.fitted is None:
        for r in ('fitted', 'iterations', 'computed', 'once', 'reported'):
            cx.ob(r, W, None, 'training is not recognised')
        return
    fit0 = I.initial(F.fitted)
    for e in acc + upd:
        ok = lib.always(run, e, t.not_(fit0))
        cx.ob('once', e, ok or (None if blind(e, F) else False), '%s is only reached by a model that is not fitted' % name(e))
    # the loop over the iterations: around the loop over the sequences
    outer = inner = None
    encl = LL.enclosing(acc[0].blk)
    if encl:
        inner = encl[0]
        outer = encl[-1]
    ends = iterations(cx, run, acc, inner, outer, data, fit0)
    stops(cx, run, F, acc)
    st = [e for e in run.ev if e.kind == 'store' and e.addr is F.fitted]
    for e in st:
        vs = lib.sources(run, e.new)
        if all(v.op == 'c' and not v.a[0] for v in vs):
            cx.ob('once', e, False, 'the model is marked as not fitted again')
            continue
        later = [a for a in acc if LL.path(e.pos, [a.pos]) is not None]
        if later:
            cx.ob('fitted', e, False, 'training goes on after the model is marked fitted')
            continue
        ok = lib.everyway(run, e, ends) if ends else None
        if not ok and ends:
            ok = False
        cx.ob('fitted', e, ok, 'the model is marked fitted after its last iteration')
    if not st:
        cx.ob('fitted', W, False, 'a completed training is not recorded')
    # complete: every way out that returns the model without an interruption has the mark
    count(cx, run, F, data, st, ends)


def blind(e, F):
    return any(f[0] != 'sel' and any(x.op in ('opq', 'hav', 'load') or (x.op in ('rcall', 'rf') and not ispoll(x)) for x in t.walk(f[0])) for f in e.facts)


def pollfact(run, fs):
    from .c11 import polled_fact
    return any(polled_fact(run, f) for f in fs)


def stops(cx, run, F, acc):
    """an interruption that was noticed is not forgotten: nothing is trained or marked after it"""
    I = run.I
    marks = [e for e in run.ev if e.kind == 'store' and e.addr in (F.fitted, F.computed) and not (e.new.op == 'c' and not e.new.a[0])]
    seen = set()
    for (b, i), o in sorted(I.out.items()):
        last = [f for f in o[1] if f[0] != 'sel' and ispoll(f[0]) and f[1] and f not in pre(I, b)]
        if not last:
            continue
        hit = lib.onward(run, (b, i), acc + marks)
        if hit:
            if hit.kind == 'store' and any(x.op == 'phi' for x in lib.sources(run, hit.new)) or hit.kind == 'store' and hit.new.op == 'phi':
                vs = lib.valts(run, hit, hit.new)
                if all(v.op == 'c' for _, _, v in vs):
                    continue
            cx.ob('iterations' if hit.kind == 'call' else 'fitted' if hit.addr is F.fitted else 'computed', hit, False, 'this is reached after an interruption was noticed')
        elif hit is None:
            cx.ob('fitted', lib.at(run), None, 'what follows an interruption is not decided')
        else:
            cx.ob('fitted', lib.at(run), True, 'nothing is trained or marked after an interruption was noticed')


def pre(I, b):
    """facts at the start of a block: those of all its ways in"""
    es = [I.out[e][1] for e in I.blocks[b].pred if e in I.out]
    r = set(es[0]) if es else set()
    for x in es[1:]:
        r &= set(x)
    return r


def iterations(cx, run, acc, inner, outer, data, fit0):
    """checks the bounds of the training loops; -> predicate on facts: the last iteration is over"""
    I, LL, G = run.I, run.LL, run.G
    W = acc[0]
    if outer is None:
        cx.ob('iterations', W, False, 'training happens once, not once per iteration and sequence')
        return None
    if outer is inner:
        cx.ob('iterations', W, None, 'the iterations are one loop')
        return None
    its = [f['n'] for f in cx.fields(CLS) if f['t'].get('int') and 'iter' in f['n'].lower()]
    n = [I.initial(lib.fld(x)) for x in its]
    endfacts = None
    for ph, init, step in LL.counters(outer):
        for b, i, d in outer.exits:
            for a, pol in [x for x in I.out[(b, i)][1] if x[0] != 'sel']:
                if a.op != 'ge0' or pol:
                    continue
                c, dd = lin_parts(a.a[0])
                k = [x for x in dd if x is not ph]
                if len(k) == 1 and k[0] in n and ph in dd and isinstance(c, int):
                    # runs are counted: up from init while ph + .. < n, or down
                    runs = None
                    if step == 1 and dd[ph] == -1 and dd[k[0]] == 1 and init.op == 'c':
                        runs = (c + 1) - init.a[0]          # n + runs iterations
                    elif step != 1:
                        runs = 99
                    cx.ob('iterations', W, runs == 0 if runs is not None else None, 'there are as many iterations as asked for')
                    endfacts = (a, False)
                elif step == -1 and len(dd) == 1 and dd.get(ph) == 1 and isinstance(c, int):
                    # down from n + ci while ph + c >= 0
                    ci, di = lin_parts(init)
                    if len(di) == 1 and next(iter(di)) in n and next(iter(di.values())) == 1:
                        cx.ob('iterations', W, ci + c == -1, 'there are as many iterations as asked for')
                        endfacts = (a, False)
    if endfacts is None:
        cx.ob('iterations', W, None, 'the loop over the iterations is not recognised')
        return None
    tv = patterns.traversal_of(run, inner, [data])
    ok = tv[0] == 'ok' and tv[1] is data
    cx.ob('iterations', W, True if ok else (False if tv[0] == 'bad' else None), 'an iteration trains with as many sequences as there are', None if ok else str(tv[1]))
    # ways out of both loops other than the end
    end_in = tv[3] if tv[0] == 'ok' else None
    for L in (inner, outer):
        for b, i, d in L.exits:
            fs = I.out[(b, i)][1]
            if (b, i) == end_in or (endfacts in fs and L is outer):
                continue
            if b not in LL.returning() and d not in LL.returning():
                continue
            if L is inner and d in outer.body and not pollfact(run, fs):
                sure = tv[0] == 'ok' and not any(f[0] != 'sel' and any(x.op in ('rcall', 'opq', 'hav') for x in t.walk(f[0])) for f in fs)
                cx.ob('iterations', W, False if sure else None, 'an iteration is left early only when interrupted')
                continue
            if pollfact(run, fs) or (fit0, True) in fs:
                cx.ob('iterations', W, True, 'training is left early only when interrupted')
            elif L is outer:
                odd = any(f[0] != 'sel' and any(x.op in ('rcall', 'opq', 'hav', 'rf') for x in t.walk(f[0])) for f in fs)
                cx.ob('iterations', W, None if odd else False, 'training is left early only when interrupted', '; '.join(t.show(f[0], 3) for f in fs if f[0] != 'sel')[:300])
    # every iteration trains: nothing leads around the training of an iteration
    backs = [(b, 10 ** 9 - 1) for b, i in inner.back]
    hdr = (inner.header, -1)
    p = LL.path(hdr, backs, [e.pos for e in acc], within=inner.body)
    cx.ob('iterations', W, p is None, 'every turn trains with a sequence')
    return lambda fs: endfacts in fs or (fit0, True) in fs


def count(cx, run, F, data, fitted, ends):
    I, LL, G = run.I, run.LL, run.G
    W = lib.at(run)
    # counting loops: walk the data, parse each sequence
    ps = [e for e in run.ev if e.kind == 'call' and name(e) == 'parse']
    loops = {}
    for e in ps:
        for L in LL.enclosing(e.blk):
            tv = patterns.traversal_of(run, L, [data])
            if tv[0] == 'ok' and tv[1] is data:
                loops[L.header] = (L, tv)
            elif tv[0] == 'bad' or tv[0] == 'unk':
                short = partial_walk(run, L, data)
                if short:
                    cx.ob('computed', e, False, 'the count leaves out part of the data: %s' % short)
    endf = set()
    for L, tv in loops.values():
        a = [f for f in I.out[tv[3]][1] if f[0] != 'sel' and f[0].op == 'ge0' and not f[1] and tv[2] in lin_parts(f[0].a[0])[1]]
        endf |= set(a)
        # every sequence of the walk is counted
        pp = [e for e in ps if e.blk in L.body]
        backs = [(b, 10 ** 9 - 1) for b, i in L.back]
        miss = LL.path((L.header, -1), backs, [e.pos for e in pp], within=L.body)
        cx.ob('computed', pp[0], miss is None, 'every sequence is counted')
        for e in LL.exits(L, tv[3]):
            fs = I.out[e][1]
            odd = any(f[0] != 'sel' and any(x.op in ('rcall', 'opq', 'hav') for x in t.walk(f[0])) for f in fs)
            cx.ob('computed', pp[0], True if pollfact(run, fs) else (None if odd else False), 'the count is left early only when interrupted')
    done = (lambda fs: any(f in endf for f in fs)) if endf else None
    if F.computed is None:
        cx.ob('computed', W, None, 'the mark for the count is not recognised')
        return
    c0, f0 = I.initial(F.computed), I.initial(F.fitted)
    none = (t.ge0(t.add(size(data), C(-1))), False)
    st = [e for e in run.ev if e.kind == 'store' and e.addr is F.computed]
    for e in st:
        vs = lib.valts(run, e, e.new)
        for b, fs, v in vs:
            if v.op == 'c' and not v.a[0]:
                continue
            ok = None
            if v.op == 'c':
                ok = lib.everyway(run, e, done, facts=fs | e.facts if b == e.blk else fs, blk=b) if done else None
            cx.ob('computed', e, ok if ok or ok is None else (None if odd_way(run, e) else False), 'the frequencies are marked computed after a pass over all the data')
    if not st:
        cx.ob('computed', W, None, 'nothing marks the frequencies as computed')
    for r in lib.returns(run):
        for b, fs, v in lib.valts(run, r, r.a[0]):
            if lib.contradictory(fs) or not fs_ok(run, fs):
                continue
            if v is NULL or (v.op == 'c' and v.a[0] == 0):
                ok = lib.everyway(run, r, lambda g: pollfact(run, g), facts=fs, blk=b)
                cx.ob('reported', r, ok or None, 'nothing is returned only when interrupted')
            else:
                def complete(g):
                    return (done and done(g)) or (c0, True) in g or none in g
                ok = lib.everyway(run, r, complete, facts=fs, blk=b) if done else None
                cx.ob('reported', r, ok if ok or ok is None else False, 'the model is returned only when training and counting are complete')


def odd_way(run, e):
    return any(f[0] != 'sel' and any(x.op in ('opq', 'hav', 'load') for x in t.walk(f[0])) for f in e.facts)


def fs_ok(run, fs):
    return not lib.infeasible(run.G, fs)


def partial_walk(run, L, data):
    tv = patterns.traversal_of(run, L)
    if tv[0] == 'bad' and 'walks backwards' not in tv[1]:
        return tv[1]
    return None


def marks(cx, F):
    n = 0
    for c in [CLS] + [x for x in cx.subs(CLS) if x != CLS] + ['vgram_core::IntStreamVGram']:
        for u in lib.entries(cx, c, public=False):
            f = cx.P.functions[u]
            if f['fn']['n'] == 'fit' or (f.get('acc') not in ('public', None)):
                continue
            run = cx.run(u, ('c13m',), opaque=opaque)
            for e in run.ev:
                if e.kind == 'store' and e.addr in (F.fitted, F.computed):
                    n += 1
                    cx.ob('marks', e, False, '%s changes %s' % (run.q, e.addr.a[1]))
    for u in cx.ctors(CLS):
        run = cx.run(u, ('km',), keepmem=True)
        for r in lib.returns(run):
            for a in (F.fitted, F.computed):
                if a is None:
                    continue
                v = r.mem.get(a)
                if v is None:
                    continue
                for b, fs, x in lib.valts(run, r, v):
                    ok = None
                    if x.op == 'c':
                        ok = not x.a[0]
                    elif x.op == 'arg':
                        nm = str(x.a[1]).lower()
                        ok = True if same_role(nm, a.a[1]) else False if same_role(nm, (F.computed if a is F.fitted else F.fitted).a[1]) else None
                    cx.ob('marks', (run.fn['l'], run.q), ok, 'a new model starts with %s as told' % a.a[1])


def same_role(arg, member):
    m = member.lower().strip('_')
    return arg.strip('_') == m
