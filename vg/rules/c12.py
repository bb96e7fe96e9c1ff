"""C12: training alternates growing and pruning and publishes only pruned results.

The training step is analysed once with growing and pruning left opaque: what is known about the phase where each is
called, what happens to the phase and to the published dictionary on every way on from there, and on which ways a step is
reached at all."""
from .. import lib, terms as t
from ..terms import T, raw, C, NULL
from ..cx import Broken

CLS = 'IntVGramBuilderImpl'
STAT = 'StatDictImpl'
GROW, PRUNE = 'expand', 'reduce'
EFF = {GROW: 'none', PRUNE: 'none', 'enough': 'pure', 'parse': 'none', 'freq': 'pure', 'size': 'pure', 'get': 'pure', 'parent': 'pure'}


def opaque(fn):
    if fn.get('cls') in (STAT, 'StatDict', 'IntDict', 'IntDictImpl'):
        return EFF.get(fn.get('n'))
    return None


def check(cx):
    cx.rule('phase', 'growing happens in one phase and pruning in the other', 2)
    cx.rule('flip', 'every training step changes the phase exactly once, and nothing else does', 2)
    cx.rule('enough', 'a phase ends only when there are enough statistics or the power limit is passed', 2)
    cx.rule('publish', 'what is published came out of pruning, and whatever comes out of pruning is published', 2)
    cx.rule('choose', 'once there is a result it is what is shown, not the dictionary in training', 4)
    cx.rule('model', 'a model takes over what its builder publishes', 1)
    R = roles(cx)
    for u in cx.fn(CLS, 'accept'):
        step(cx, cx.run(u, ('c12',), opaque=opaque, keepmem=True), R)
    for u in cx.fn(STAT, 'enough'):
        enough(cx, cx.run(u))
    for n in ('result', 'alpha', 'result_freqs', 'code_length', 'get_min_probability'):
        for u in cx.fn(CLS, n):
            if cx.P.functions[u].get('acc') not in ('public', None):
                continue
            choose(cx, cx.run(u), R)
    for u in lib.entries(cx, CLS):
        run = cx.run(u, ('c12',), opaque=opaque, keepmem=True)
        if cx.P.functions[u]['fn']['n'] != 'accept':
            others(cx, run, R)
    model(cx)


class R_:
    pass


def roles(cx):
    ps = [f['n'] for f in cx.fields(CLS) if f['t'].get('rc') == 'std::shared_ptr' and STAT in str((f['t'].get('ta') or [{}])[0].get('rc'))]
    res = set()
    for u in cx.fn(CLS, 'result'):
        run = cx.run(u)
        for ret in lib.returns(run):
            for blk, facts, v in lib.valts(run, ret, ret.a[0]):
                for f in facts:
                    if f[0] != 'sel':
                        for x in t.walk(f[0]):
                            if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] in ps:
                                res.add(x.a[0].a[1])
    R = R_()
    R.flags = [f['n'] for f in cx.fields(CLS) if f['t'].get('s') == 'bool']
    R.res = lib.fld(res.pop()) if len(res) == 1 else (lib.fld([p for p in ps if 'res' in p][0]) if [p for p in ps if 'res' in p] else None)
    cur = [p for p in ps if R.res is None or p != R.res.a[1]]
    R.cur = lib.fld(cur[0]) if len(cur) == 1 else None
    return R


def name(e):
    return (e.x.get('fn') or {}).get('n') if isinstance(e.x, dict) else None


def step(cx, run, R):
    I, G = run.I, run.G
    W = lib.at(run)
    grow = [e for e in run.ev if e.kind == 'call' and name(e) == GROW]
    prune = [e for e in run.ev if e.kind == 'call' and name(e) == PRUNE]
    if not grow or not prune:
        # one of them is gone: only half of the training is left, or it is written another way
        for r in ('phase', 'flip', 'enough', 'publish'):
            cx.ob(r, W, None, 'growing and pruning are not recognised')
        return
    # the phase: a member that is known at both, with opposite values
    flag = None
    for n in R.flags:
        x = I.initial(lib.fld(n))
        g = [decided(run, e, x) for e in grow]
        p = [decided(run, e, x) for e in prune]
        if None not in g + p and len(set(g)) == 1 and len(set(p)) == 1 and g[0] != p[0]:
            flag, gv = lib.fld(n), g[0]
    written = [n for n in R.flags if any(e.addr is lib.fld(n) for e in run.ev if e.kind == 'store')]
    if flag is None:
        unk = not R.flags or any(other_flag(f) for e in grow + prune for f in e.facts)
        cx.ob('phase', grow[0], None if unk else False, 'growing and pruning are told apart by the phase')
        if len(written) == 1:
            flag, gv = lib.fld(written[0]), True
        elif len(R.flags) == 1:
            flag, gv = lib.fld(R.flags[0]), True
    else:
        for e in grow + prune:
            cx.ob('phase', e, True, '%s happens only while %s is %s' % (name(e), flag.a[1], decided(run, e, I.initial(flag))))
    if flag is not None:
        flips(cx, run, flag, grow, prune, I.initial(flag))
    else:
        cx.ob('flip', W, None, 'the phase is not recognised')
    gate(cx, run, grow + prune)
    publish(cx, run, R, grow, prune)


def other_flag(f):
    return f[0] != 'sel' and f[0].op in ('rcall', 'rf', 'opq', 'hav', 'load', 'b&', 'b%', 'i%')


def decided(run, e, x):
    a, pol = t.atom(x)
    if lib.always(run, e, x):
        return True
    if lib.always(run, e, t.not_(x)):
        return False
    return None


def flips(cx, run, flag, grow, prune, old):
    fl = [e for e in run.ev if e.kind == 'store' and e.addr is flag]
    good = []
    for e in fl:
        v = e.new
        vs = {x for x in lib.sources(run, v)}
        inv = t.not_(old)
        ok = True if v is inv else None
        if ok is None:
            cs = lib.valts(run, e, v)
            oks = []
            for b, fs, x in cs:
                if x is inv:
                    oks.append(True)
                elif x.op == 'c':
                    known = True if (old, not bool(x.a[0])) in fs | e.facts or lib.always(run, e, old if not x.a[0] else t.not_(old), facts=fs, blk=b) else False
                    oks.append(known)
                elif x is old:
                    oks.append(False)
                else:
                    oks.append(None)
            ok = False if False in oks else None if None in oks else True
        cx.ob('flip', e, ok, 'the phase becomes the other one', t.show(v, 3))
        good.append(e)
    for e in grow + prune:
        p = lib.path_to_end(run, e.pos, [x.pos for x in fl]) if fl else [e.pos]
        back = lib.must_precede(run, e, fl) and fl
        if p is not None and not back and fl:
            # a way to the exit without: only when it is possible to return normally on it
            pass
        cx.ob('flip', e, True if (p is None or back) else False, 'a step of %s is followed by a change of the phase on every way' % name(e))
    for e in fl:
        pre = lib.must_precede(run, e, grow + prune)
        post = lib.path_to_end(run, e.pos, [x.pos for x in grow + prune]) is None
        cx.ob('flip', e, True if pre or post else False, 'the phase changes only together with a step')
        for e2 in fl:
            if e2 is not e and run.LL.path(e.pos, [e2.pos]) is not None:
                cx.ob('flip', e2, False, 'the phase is changed twice in one step')


def gate(cx, run, steps):
    def qual(fs):
        for f in fs:
            if f[0] == 'sel':
                continue
            a, pol = f
            if a.op == 'rf' and a.a[0].endswith('::enough') and pol:
                return True
            if a.op == 'flt':
                x, y = a.a[:2]
                if pol and x.op == 'c' and x.a[0] >= 1 and ispower(y):
                    return True
                if not pol and y.op == 'c' and y.a[0] >= 1 and ispower(x):
                    return True
        return False
    for e in steps:
        if qual(e.facts):
            cx.ob('enough', e, True, '%s is reached only with enough statistics' % name(e))
            continue
        hit = not lib.everyway(run, e, qual)
        odd = any(f[0] != 'sel' and f[0].op == 'rcall' for f in e.facts)
        cx.ob('enough', e, True if not hit else (None if odd else False), '%s is reached only with enough statistics or at the power limit' % name(e))


def ispower(x):
    return x.op == 'init' and x.a[0].op == 'fld' or (x.op == 'hav' and isinstance(x.a[-1], T) and x.a[-1].op == 'fld')


def publish(cx, run, R, grow, prune):
    I = run.I
    if R.res is None:
        cx.ob('publish', lib.at(run), None, 'the published dictionary is not recognised')
        return
    st = [e for e in run.ev if e.kind == 'store' and e.addr is R.res]
    for e in st:
        for b, fs, v in lib.valts(run, e, e.new):
            src = origin(run, v)
            if src is None:
                ok = lib.must_precede(run, e, prune) or None
                if v is NULL:
                    ok = False
                elif v.op == 'init':
                    ok = False if not (v.a[0] is R.res) else True
            else:
                ok = src <= {PRUNE} if src else None
            cx.ob('publish', e, ok, 'the published dictionary is one that came out of pruning', t.show(v, 3))
    for e in prune:
        # after a pruning the result is replaced by it before the step ends
        ok = False if not st else True if lib.path_to_end(run, e.pos, [x.pos for x in st]) is None else None
        cx.ob('publish', e, ok, 'what comes out of pruning is published')
    if R.cur is not None:
        cs = [e for e in run.ev if e.kind == 'store' and e.addr is R.cur]
        for e in grow + prune:
            ok = bool(cs) and lib.path_to_end(run, e.pos, [x.pos for x in cs]) is None
            cx.ob('publish', e, ok, 'training goes on with what came out of %s' % name(e))
        for e in cs:
            for b, fs, v in lib.valts(run, e, e.new):
                src = origin(run, v)
                f2 = fs | e.facts
                if src is None or not src:
                    ok = None
                else:
                    ok = len(src) == 1
                cx.ob('publish', e, ok, 'training goes on with a dictionary built from what the step made')


def origin(run, v):
    """which steps the content of a newly made statistics object came from"""
    if v.op == 'init' and v.a[0].op in ('fld',):
        return None
    if v.op != 'ptr':
        return None
    obj = v.a[0]
    r = set()
    I = run.I
    seen = set()
    st = []
    for e in run.ev:
        if e.kind in ('store', 'mut') and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is obj and e.new is not None:
            st.append(e.new)
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'ptr' and x.a[0].op == 'new':
            for e in run.ev:
                if e.kind in ('store', 'mut') and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is x.a[0] and e.new is not None:
                    st.append(e.new)
        if x.op == 'hav':
            c = [e for e in run.ev if e.kind == 'call' and e.blk == x.a[0] and e.ins.pos == x.a[1]]
            for e in c:
                if name(e) in (GROW, PRUNE):
                    r.add(name(e))
            continue
        if x.op == 'phi' and x in I.phis:
            st += [y for ed, y in I.phis[x].items() if ed in I.out]
            continue
        st += [y for y in x.a if isinstance(y, T)]
    return r


def enough(cx, run):
    for ret in lib.returns(run):
        for b, fs, v in lib.valts(run, ret, ret.a[0]):
            a, pol = t.atom(v)
            ok = None
            if a.op == 'c':
                ok = False if (bool(a.a[0]) == pol) else None
            elif a.op == 'flt':
                x, y = a.a[:2]
                px = any(z.op == 'init' and z.a[0].op == 'fld' and z.a[0].a[1] == pw for z in t.walk(x) for pw in powers(cx))
                py = any(z.op == 'init' and z.a[0].op == 'fld' and z.a[0].a[1] == pw for z in t.walk(y) for pw in powers(cx))
                if py and not px:
                    ok = pol
                elif px and not py:
                    ok = not pol
            cx.ob('enough', ret, ok, 'there are enough statistics when the amount collected is above a bound', t.show(v, 4))


def powers(cx):
    """members that grow by what update_symbol is given"""
    k = 'c12powers'
    if k not in cx.cache:
        r = set()
        for u in cx.resolve(STAT, 'update_symbol'):
            run = cx.run(u)
            for e in run.ev:
                if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF:
                    r.add(e.addr.a[1])
        cx.cache[k] = r
    return cx.cache[k]


def choose(cx, run, R):
    if R.res is None or R.cur is None:
        cx.ob('choose', lib.at(run), None, 'the published dictionary is not recognised')
        return
    I = run.I
    res, cur = I.initial(R.res), I.initial(R.cur)
    null = t.eq(res, NULL)
    done = False
    # every place the dictionary in training is looked at or handed out
    for e in run.ev:
        ts = [x for x in (e.addr, e.c) if isinstance(x, T)] + [x for x in (e.a or ()) if isinstance(x, T)] + [x for x in (e.val or ()) if isinstance(x, T)] \
            if isinstance(e.val, tuple) else [x for x in (e.addr, e.c) if isinstance(x, T)] + [x for x in (e.a or ()) if isinstance(x, T)]
        if e.kind in ('pderef', 'br', 'cmp', 'enter', 'leave'):
            continue
        for x in ts:
            for p in t.walk(x):
                if p.op == 'obj' and p.a[0] is cur:
                    done = True
                    ok = lib.always(run, e, null)
                    cx.ob('choose', e, ok or (None if blind(e) else False), 'the dictionary in training is only used while there is no result')
                elif p.op == 'obj' and p.a[0].op == 'phi' and p.a[0] in I.phis:
                    done = True
                    joined(cx, run, e, p.a[0], cur, null)
    for ret in lib.returns(run):
        for b, fs, v in lib.valts(run, ret, ret.a[0] if ret.a else t.ZERO):
            if any(p is cur for p in t.walk(v)):
                done = True
                ok = lib.always(run, ret, null, facts=fs, blk=b)
                cx.ob('choose', ret, ok or (None if blind(ret) else False), 'the dictionary in training is only shown while there is no result')
    if not done:
        used = any(p is res for e in run.ev for x in (e.addr, e.c) if isinstance(x, T) for p in t.walk(x))
        cx.ob('choose', lib.at(run), True if used else None, 'the dictionary in training is not looked at')


def joined(cx, run, e, ph, cur, null):
    I = run.I
    for ed, x in I.phis[ph].items():
        if ed in I.out and x is cur:
            fs = I.out[ed][1]
            ok = (null, True) in fs or lib.always(run, e, null, facts=fs, blk=ed[0])
            cx.ob('choose', e, ok or False, 'the dictionary in training is only used while there is no result')


def blind(e):
    return any(f[0] != 'sel' and any(x.op in ('rcall', 'opq', 'ext', 'hav', 'load') for x in t.walk(f[0])) for f in e.facts)


def others(cx, run, R):
    """operations other than a training step leave the phase and the result alone"""
    bad = False
    for e in run.ev:
        if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF:
            if e.addr is R.res and e.new is not I0(run, R.res):
                bad = True
                cx.ob('publish', e, False, '%s changes what is published' % run.q)
            elif e.addr.a[1] in R.flags and not any(x.op == 'phi' for x in [e.new]):
                bad = True
                cx.ob('flip', e, False if e.addr.a[1] in phases(cx, R) else None, '%s changes the phase' % run.q)
    if not bad:
        cx.ob('flip', lib.at(run), True, '%s leaves phase and result alone' % run.q)


def I0(run, a):
    return run.I.initial(a)


def phases(cx, R):
    return set(R.flags) if len(R.flags) == 1 else set()


def model(cx):
    M = 'vgram_core::IntStreamVGram'
    f = lambda fn: 'pure' if fn.get('n') in ('result', 'alpha', 'get_min_probability') and 'Builder' in (fn.get('cls') or '') else None
    ds = [x['n'] for x in cx.fields(M) if 'IntDict' in str((x['t'].get('ta') or [{}])[0].get('rc'))]
    for c in [M, 'vgram_core::IntVGram']:
        for u in lib.entries(cx, c, public=False):
            run = cx.run(u, ('c12m',), opaque=f)
            for e in run.ev:
                if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF and e.addr.a[1] in ds:
                    v = e.new
                    ok = True if v.op == 'rf' and v.a[0].endswith('::result') else None
                    if ok is None and v.op == 'rf' and v.a[0].endswith('::alpha'):
                        ok = None
                    cx.ob('model', e, ok, 'the dictionary of the model is what its builder publishes')
    for u in cx.fn(M, 'update_dict'):
        run = cx.run(u, ('c12m',), opaque=f)
        st = [e for e in run.ev if e.kind == 'store' and e.addr is not None and e.addr.op == 'fld' and e.addr.a[0] is lib.SELF and e.addr.a[1] in ds]
        ok = bool(st) and run.LL.path((run.I.L.entryblk.id, -1), [(r.pos) for r in lib.returns(run)], [e.pos for e in st]) is None
        cx.ob('model', lib.at(run), ok, 'an update takes over what the builder publishes')
