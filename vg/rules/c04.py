"""C04: a dictionary only grows at its end and ids keep their meaning.

All mutations of the two arrays reachable from the dictionary's public operations are listed; each has to be a push of a
one-symbol entry for a symbol not there, in lock-step with a push of the parent -1."""
from .. import lib, dictx, patterns, terms as t
from ..terms import raw, size, C, EMPTY
from ..cx import Broken


def check(cx):
    cx.rule('append-only', 'after construction the v-grams and parents are only ever appended to', 2)
    cx.rule('lock-step', 'every appended v-gram gets exactly one parent slot, and the other way round', 2)
    cx.rule('entry', 'what is appended is the one symbol looked up, without a parent, and only if it was not there', 2)
    cx.rule('accessors', 'get, parent, size and alphabet show the arrays as they are', 4)
    cx.rule('copy', 'a copied dictionary has the same entries under the same ids', 1)
    R = dictx.roles(cx)
    for u in lib.entries(cx, dictx.CLS):
        run = cx.run(u)
        per_run(cx, run, R)
    inv = lib.invariants(cx, dictx.CLS)
    names = {R.S.a[1], R.P.a[1]}
    ok = any(tp[0] == 'eqsz' and {tp[1], tp[2]} == names for tp in inv.tmpl)
    cx.ob('lock-step', ('-', dictx.CLS), True if ok else None, 'both arrays have the same length after every operation')
    accessors(cx, R)
    copies(cx, R)


def one_symbol(v):
    if v.op == 'push' and v.a[0] is EMPTY:
        return v.a[1]
    if v.op == 'fill' and v.a[0] is t.ONE:
        return v.a[1]
    if v.op == 'sub':
        if v.a[1] is t.ZERO and v.a[2] is t.ONE:
            return t.index(v.a[0], t.ZERO)
    return None


def per_run(cx, run, R):
    ws = {R.S: [], R.P: []}
    for e in run.ev:
        if e.kind not in ('mut', 'store') or e.addr is None or e.how in ('noop', 'reserve'):
            continue
        a = e.addr
        base = a
        while base.op in ('el', 'fld', 'sfld') and base is not R.S and base is not R.P:
            base = base.a[0]
        if base is not R.S and base is not R.P:
            continue
        if a is base and e.how == 'push':
            ws[base].append(e)
            cx.ob('append-only', e, True, 'an entry is appended at the end')
        elif e.new is not None and e.new is e.old:
            continue
        else:
            cx.ob('append-only', e, False, 'existing entries are changed, moved or removed (%s)' % e.how)
    for a, b in ((R.S, R.P), (R.P, R.S)):
        for e in ws[a]:
            if not ws[b]:
                cx.ob('lock-step', e, False, 'one array grows without the other')
                continue
            # as many of the other as of this one on every way through
            w = lib.avoidable(run, e, ws[b])
            twice = [x for x in ws[a] if x is not e and not between(run, e, x, ws[b])]
            cx.ob('lock-step', e, w is None and not twice, 'the other array grows with it')
    for e in ws[R.P]:
        cs = [v for f, v in lib.cases(run, e.facts, e.val) if not lib.contradictory(f)]
        ok = all(v.op == 'c' and v.a[0] == -1 for v in cs)
        cx.ob('entry', e, ok or (None if any(v.op != 'c' for v in cs) and not all(v.op in ('idx', 'lin', 'c', 'size') for v in cs) else False),
              'an appended entry has no parent')
    seqp = None
    for e in ws[R.S]:
        s = one_symbol(e.val)
        if s is None:
            cx.ob('entry', e, False if e.val.op in ('init', 'idx', 'sub', 'push', 'cat', 'fill', 'empty', 'phi') else None,
                  'more than the one unknown symbol is appended', t.show(e.val, 4))
            continue
        if run.fn['fn']['n'] == 'search':
            first = s.op == 'idx' and s.a[1] is t.ZERO
        else:
            first = s.op == 'idx' or None
        cx.ob('entry', e, True if first else (False if s.op == 'idx' and first is False else None), 'the symbol appended is the first of what was looked up')
        if not first:
            continue
        # not there: no exclusion in force and not among the appended ones
        ms = [m for m in run.ev if m.kind == 'mut' and m.addr in R.M and m.how in ('put', 'ins', 'try') and m.key is s]
        for M in R.M:
            vs = {m.old for m in ms if m.addr is M} or {run.I.initial(M)}
            good = all(lib.always(run, e, t.not_(t.has(v, s))) for v in vs)
            if good:
                cx.ob('entry', e, True, 'a symbol is only appended when it is not among the appended ones')
                break
        else:
            cx.ob('entry', e, False if R.M else None, 'a symbol that was appended before may be appended again')


def between(run, a, b, via):
    """every way from a to b passes one of via"""
    return run.LL.path(a.pos, [b.pos], [v.pos for v in via]) is None


def accessors(cx, R):
    for name in ('get', 'parent', 'size', 'alphabet'):
        for u in cx.fn(dictx.CLS, name):
            run = cx.run(u)
            for r in lib.returns(run):
                v = r.a[0]
                arg = raw('arg', 0, run.fn['params'][0]['n']) if run.fn['params'] else None
                s0, p0 = run.I.initial(R.S), run.I.initial(R.P)
                if name == 'get':
                    want = [raw('el', R.S, arg), t.index(s0, arg)]
                elif name == 'parent':
                    want = [raw('el', R.P, arg), t.index(p0, arg)]
                elif name == 'size':
                    want = [size(s0), size(p0)]
                else:
                    want = [R.S, s0]
                ok = any(v is w for w in want)
                if not ok:
                    vs = [x for f, x in lib.cases(run, r.facts, v) if not lib.contradictory(f)]
                    ok = False if all(lib.visible(x) for x in vs) else None
                    if all(any(x is w for w in want) for x in vs):
                        ok = True
                cx.ob('accessors', r, ok, '%s shows what is stored' % name, t.show(v, 4))
                ty = run.fn['fn'].get('rt') or {}
                if (ty.get('ref') or ty.get('ptr')) and not ty.get('const') and not ty.get('cpt') and v.op in ('el', 'fld'):
                    cx.ob('accessors', r, False, '%s hands out the array for writing' % name)


def copies(cx, R):
    if not any(len(cx.P.functions[u]['params']) == 1 and cx.P.functions[u]['params'][0]['t'].get('prc', cx.P.functions[u]['params'][0]['t'].get('rc')) ==
               dictx.CLS for u in cx.ctors(dictx.CLS)):
        cx.ob('copy', ('-', dictx.CLS), True, 'copies are made member by member by the compiler')
    for u in cx.ctors(dictx.CLS):
        f = cx.P.functions[u]
        if len(f['params']) != 1 or f['params'][0]['t'].get('prc', f['params'][0]['t'].get('rc')) != dictx.CLS:
            continue
        run = cx.run(u, ('km',), keepmem=True)
        src = t.OBJ(raw('argp', 0, f['params'][0]['n']))
        for r in lib.returns(run):
            for fl in cx.fields(dictx.CLS):
                a = lib.fld(fl['n'])
                v = (r.mem or {}).get(a)
                want = run.I.initial(raw('fld', src, fl['n']))
                ok = v is want
                cx.ob('copy', r, ok or (None if v is not None and v.op in ('phi', 'opq') else False), 'a copy takes over %s' % fl['n'])
