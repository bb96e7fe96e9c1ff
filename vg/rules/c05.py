"""C05: a lookup only returns a permitted entry that is a prefix.

Every id a lookup can return is traced to the tests that hold where it is chosen."""
from .. import lib, dictx, coder, terms as t
from ..terms import raw, size, C, EMPTY, ZERO
from ..cx import Broken

WRAP = 'StatDictImpl'


def isset(ty):
    return ty.get('rc') in lib.SETS


def setparam(f):
    for k, p in enumerate(f['params']):
        if isset(p['t']) and p['t'].get('ptr'):
            return k
    return None


def check(cx):
    cx.rule('prefix', 'an id is only returned for an entry tested to equal the sequence or to be a prefix of it', 2)
    cx.rule('permitted', 'an id is only returned when no exclusions are given or it was tested not to be among them', 2)
    cx.rule('append', 'nothing is appended when exclusions are given', 1)
    cx.rule('forward', 'a lookup or parse given exclusions hands exactly these to the lookups it makes', 5)
    cx.rule('undone', 'an exclusion put in for a lookup is taken out again on every path', 1)
    R = dictx.roles(cx)
    for u in cx.fn(dictx.CLS, 'search'):
        lookup(cx, cx.run(u), R)
    for cls in (dictx.CLS, WRAP):
        for u in cx.fns(cls):
            f = cx.P.functions[u]
            k = setparam(f)
            n = f['fn']['n']
            if k is not None and not (cls == dictx.CLS and n == 'search'):
                forward(cx, u, k)
            undone(cx, u)


def lookup(cx, run, R):
    k = setparam(run.fn)
    if k is None:
        return
    G = run.G
    seq = coder.param(run, 0)
    exp = raw('argp', k, run.fn['params'][k]['n'])
    ex = run.I.initial(t.OBJ(exp))
    s0 = run.I.initial(R.S)
    pushes = [e for e in run.ev if e.kind == 'mut' and e.addr is R.S and e.how == 'push']
    for ret in lib.returns(run):
        for blk, facts, v in lib.valts(run, ret, ret.a[0]):
            if lib.contradictory(facts):
                continue
            if v.op == 'c':
                cx.ob('prefix', ret, v.a[0] < 0, 'a constant answer means "not found"')
                continue
            if v is size(s0) and pushes:
                # the entry just appended
                free = lib.always(run, ret, t.eq(exp, t.NULL), facts=facts, blk=blk) or any(lib.always(run, e, t.eq(exp, t.NULL)) for e in pushes)
                cx.ob('permitted', ret, True if free else None, 'a new id is only returned without exclusions')
                cx.ob('prefix', ret, True if appended(run, R, seq, pushes) else None, 'the entry just appended is the first symbol of the sequence')
                continue
            e = t.index(s0, v)
            ok = lib.always(run, ret, raw('prefix', e, seq), facts=facts, blk=blk) or lib.always(run, ret, t.eq(seq, e), facts=facts, blk=blk)
            if not ok and v.op in ('get', 'mval') and any(x is run.I.initial(M) for x in t.walk(v) for M in R.M):
                # the table of appended symbols: the key is the first symbol
                key = v.a[1] if v.op == 'get' else (v.a[1].a[-1] if v.a[1].op in ('find', 'kp') else None)
                ok = True if key is t.index(seq, ZERO) else (False if key is not None and lib.visible(key) else None)
            if not ok and ok is not None:
                ok = None if lib.strange_test(run, e) or v.op in ('rf', 'rcall', 'opq') else False
            cx.ob('prefix', ret, ok, 'the returned entry was tested to be a prefix of the sequence', t.show(v, 3))
            cx.ob('permitted', ret, permitted(run, ret, exp, ex, v, facts, blk), 'the returned id was tested not to be excluded', t.show(v, 3))
    for e in pushes:
        ok = lib.always(run, e, t.eq(exp, t.NULL))
        if not ok:
            tests = [a for _, a in lib.conds(run) if any(y is exp for y in t.walk(a))]
            odd = any(y.op in ('rf', 'rcall', 'opq', 'ext') for a in tests for y in t.walk(a))
            ok = None if odd else False
        cx.ob('append', e, ok, 'an entry is appended only in lookups without exclusions')


def appended(run, R, seq, pushes):
    for e in pushes:
        s = None
        if e.val.op == 'fill':
            s = e.val.a[1]
        elif e.val.op == 'push' and e.val.a[0] is EMPTY:
            s = e.val.a[1]
        elif e.val.op == 'sub' and e.val.a[0] is seq and e.val.a[1] is ZERO:
            return True
        if s is not t.index(seq, ZERO):
            return False
    return True


def permitted(run, ret, exp, ex, v, facts, blk):
    """excludes == null, or v not in *excludes: no way here with excludes set and v in it"""
    bad = frozenset(facts) | {(t.eq(exp, t.NULL), False), (t.has(ex, v), True)}
    if run.G.contradictory(bad):
        return True
    if lib.always(run, ret, t.FALSE, facts=bad, blk=blk):
        return True
    tests = [a for _, a in lib.conds(run)]
    odd = any(y.op in ('rf', 'rcall', 'opq', 'ext') and any(z is ex or z is exp for z in t.walk(y)) for a in tests for y in t.walk(a))
    return None if odd or v.op in ('rf', 'rcall', 'opq') else False


def forward(cx, u, k):
    f = cx.P.functions[u]
    inner = (dictx.CLS, 'IntDict') if f['fn']['n'] == 'search' else None
    run = cx.run(u, ('opq', inner), opaque=lib.opq('search', cls=inner))
    cs = lib.calls(run, 'search')
    own = raw('argp', k, f['params'][k]['n'])
    if not cs and f['fn']['n'] == 'search':
        cx.ob('forward', lib.at(run), None, 'the lookup is not handed on')
    for e in cs:
        kinds = [j for j, p in enumerate(e.x['fn'].get('pt') or ()) if isset(p)]
        if not kinds:
            cx.ob('forward', e, False, 'a lookup is made without the exclusions that were given')
            continue
        a = e.val[kinds[0]] if len(e.val) > kinds[0] else None
        ok = a is own
        if not ok:
            # no exclusions given
            if a is t.NULL and lib.always(run, e, t.eq(own, t.NULL)):
                ok = True
            else:
                ok = False if a is None or a is t.NULL or a.op in ('ptr', 'argp') else None
                if a is not None and a.op == 'ptr' and extends(run, a.a[0], run.I.initial(t.OBJ(own))):
                    ok = None       # a set made from the one given
                if a is not None and a.op == 'phi':
                    ok = all(x is own or (x is t.NULL and lib.always(run, e, t.eq(own, t.NULL), facts=fc, blk=b)) for b, fc, x in lib.valts(run, e, a)) or None
        cx.ob('forward', e, ok, 'the lookup is made with the exclusions that were given')
        if f['fn']['n'] == 'search':
            s = e.val[0]
            cx.ob('forward', e, s is coder.param(run, 0) or (None if any(x.op in lib.OPQ for x in t.walk(s)) else False),
                  'the lookup is made for the sequence that was given')
            for r in lib.returns(run):
                vs = [x for _, _, x in lib.valts(run, r, r.a[0])]
                cx.ob('forward', r, True if all(x is e.r for x in vs) else (None if any(x.op in lib.OPQ or x.op == 'phi' for x in vs if x is not e.r) else False),
                      'the answer of the lookup is handed back as it is')


def extends(run, addr, ex):
    return any(e.addr is addr and e.new is not None and any(x is ex for x in t.walk(e.new)) for e in run.ev if e.kind in ('mut', 'store'))


def undone(cx, u):
    f = cx.P.functions[u]
    k = setparam(f)
    if f['fn']['n'] in ('search',):
        return
    run = cx.run(u, ('opq', None), opaque=lib.opq('search'))
    args = {t.OBJ(raw('argp', j, p['n'])) for j, p in enumerate(f['params']) if isset(p['t'])}
    muts = [e for e in run.ev if e.kind in ('mut', 'store') and e.addr is not None and e.how not in ('noop', 'reserve')]
    ours = [e for e in muts if e.addr in args]
    if not ours:
        if args:
            cx.ob('undone', lib.at(run), True, 'the exclusions of the caller are left alone')
        return
    look = lib.calls(run, 'search')
    for e in ours:
        if e.how in ('ins', 'try', 'put'):
            gone = [x for x in ours if x.how == 'erase' and same(run, x, e)]
            fresh = e.how == 'ins' or lib.always(run, e, t.not_(t.has(e.old, e.key)))
            if not gone:
                restored = [x for x in ours if x.how in ('assign', 'clear') or x.kind == 'store']
                cx.ob('undone', e, None if restored else False, 'the exclusion is never taken out')
                continue
            cx.ob('undone', e, lib.must_follow(run, e, gone), 'the exclusion is taken out again on every path')
            cx.ob('undone', e, True if fresh else False, 'only an id that was not excluded before is put in (taking it out would lose an exclusion of the caller)')
        elif e.how == 'erase':
            made = [x for x in ours if x.how in ('ins', 'try', 'put') and same(run, e, x)]
            ok = bool(made) and lib.must_precede(run, e, made)
            cx.ob('undone', e, ok, 'only exclusions that were put in here are taken out')
        else:
            cx.ob('undone', e, None, 'the exclusions are changed otherwise (%s)' % e.how)
    # lookups happen between
    for e in ours:
        if e.how == 'erase' and look:
            made = [x for x in ours if x.how in ('ins', 'try', 'put') and same(run, e, x)]
            mid = [l for l in look if any(run.LL.path(x.pos, [l.pos], [e.pos]) is not None for x in made)]
            cx.ob('undone', e, True if mid else False, 'the lookups run while the exclusion is in force')


def same(run, a, b):
    return a.key is b.key or run.G.proves_eq(a.facts | b.facts, a.key, b.key)
