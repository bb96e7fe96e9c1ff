"""C18: long operations ask on every turn whether to stop, and stop when told so.

The loops of fitting and transforming are analysed with the poll, parsing and training opaque: no way round such a loop
avoids the poll, and nothing more is trained, parsed or put out on any way on from the branch where the answer was yes."""
from .. import lib, patterns, terms as t
from ..terms import T, C
from ..logic import rebuild
from ..cx import Broken
from .c11 import ispoll, POLL, source
from .c13 import pre

CLS = 'vgram_core::IntVGram'
# operation, calls that are work, calls on the whole batch that ask for themselves
OPS = [('fit', ('accept', 'parse', 'update_dict'), ()), ('transform', ('parse',), ()), ('transform_to_string', ('parse',), ('transform',))]


def check(cx):
    cx.rule('polled', 'every turn of a loop over the data asks whether to stop', 4)
    cx.rule('stops', 'nothing is trained, parsed or put out after the answer was yes', 4)
    cx.rule('asked', 'the question reaches the class that can answer it, and the Python classes answer by pending signals', 2)
    for op, work, whole in OPS:
        for u in cx.fn(CLS, op):
            def opaque(fn, work=work, whole=whole):
                n = fn.get('n')
                if n == POLL:
                    return 'const'
                if n in whole or (n == 'parse' and op != 'fit'):
                    return 'pure'
                if n in work or n == 'result_freqs':
                    return 'none'
                return None
            loops(cx, cx.run(u, ('c18',), opaque=opaque), op, work)
    asked(cx)


def name(e):
    return (e.x.get('fn') or {}).get('n') if isinstance(e.x, dict) else None


def loops(cx, run, op, work):
    I, LL = run.I, run.LL
    polls = [e for e in run.ev if e.kind == 'call' and name(e) == POLL]
    works = [e for e in run.ev if e.kind == 'call' and name(e) in work]
    data = [I.initial(t.OBJ(t.raw('argp', k, p['n']))) for k, p in enumerate(run.fn['params'])]
    todo = {}
    for e in works:
        if name(e) == 'update_dict':
            continue
        encl = LL.enclosing(e.blk)
        if encl:
            todo.setdefault(encl[0].header, (encl[0], e))
        elif name(e) in ('accept', 'parse') and op != 'fit':
            cx.ob('polled', e, None, 'done outside any loop')
    for h, L in LL.loops.items():
        if h in todo:
            continue
        tv = patterns.traversal_of(run, L, data)
        if tv[0] == 'ok' and source(run, tv[1]) and not any(M in todo for M in L.body if M != h):
            todo[h] = (L, [e for e in run.ev if e.blk == h][0] if any(e.blk == h for e in run.ev) else lib.at(run))
    if not todo:
        cx.ob('polled', lib.at(run), None, 'no loop over the data is recognised')
    for h, (L, e) in todo.items():
        backs = [(b, 10 ** 9 - 1) for b, i in L.back]
        p = LL.path((h, -1), backs, [x.pos for x in polls], within=L.body)
        blind = [x for x in run.ev if x.blk in L.body and x.kind == 'unknown']
        ok = p is None
        cx.ob('polled', e, ok if ok or not blind else None, '%s: every turn of the loop asks whether to stop' % op)
    used = False
    for (b, i), o in sorted(I.out.items()):
        yes = [f for f in o[1] if f[0] != 'sel' and ispoll(f[0]) and f[1] and f not in pre(I, b)]
        if not yes:
            continue
        used = True
        src = [e for e in polls if e.r is yes[0][0]]
        L = next((L for L in LL.enclosing(src[0].blk)), None) if src else None
        tg = list(works)
        if L is not None:
            tg += [e for e in run.ev if e.kind == 'mut' and e.how == 'push' and e.blk in L.body]
        hit = lib.onward(run, (b, i), tg)
        w = src[0] if src else lib.at(run)
        if hit is None:
            cx.ob('stops', w, None, '%s: what follows the answer is too much to tell' % op)
        else:
            cx.ob('stops', hit or w, not hit, '%s: nothing is done after the answer was yes' % op)
    if polls and not used:
        rs = {e.r for e in polls if isinstance(e.r, T)}
        vals = [v for ops in I.phis.values() for v in ops.values()] + [e.a[0] for e in lib.returns(run)]
        vals += [e.new for e in run.ev if e.kind == 'store' and isinstance(e.new, T) and t.root(e.addr).op not in ('var', 'new')]
        vals += [g[0] for f in I.out.values() for g in f[1] if g[0] != 'sel']
        flow = any(z in rs for v in vals if isinstance(v, T) for z in t.walk(v))
        cx.ob('stops', polls[0], None if flow else False, '%s: the answer is not looked at' % op)


def answers(cx, u):
    """what a class answers: 'signals', 'no', 'always', None"""
    run = cx.run(u)
    r = []
    for ret in lib.returns(run):
        for blk, facts, v in lib.valts(run, ret, ret.a[0]):
            ext = [e for e in run.ev if e.kind == 'call' and (e.x.get('name') == 'PyErr_CheckSignals' or name(e) == 'PyErr_CheckSignals')]
            if v.op == 'c' and not ext:
                r.append('always' if v.a[0] else 'no')
            elif not ext:
                r.append(None)
            else:
                x = ext[0].r if isinstance(ext[0].r, T) else next((y for y in t.walk(v) if y.op == 'ext'), None)
                if x is None:
                    r.append(None if v.op != 'c' else 'ignores')
                    continue
                hit, calm = truth(v, facts, x, -1), truth(v, facts, x, 0)
                if hit is None or calm is None:
                    r.append(None)
                else:
                    r.append((hit, calm))
    if all(isinstance(x, tuple) for x in r) and r:
        hit = {x[0] for x in r} - {'-'}
        calm = {x[1] for x in r} - {'-'}
        return 'signals' if hit == {True} and calm == {False} else 'wrong' if len(hit) == 1 and len(calm) == 1 else None
    return r[0] if len(set(map(str, r))) == 1 and r else None


def truth(v, facts, x, val):
    mp = {x: C(val)}
    for f in facts:
        if f[0] != 'sel':
            y = rebuild(f[0], mp)
            if y.op == 'c' and bool(y.a[0]) != f[1]:
                return '-'
    y = rebuild(v, mp)
    return bool(y.a[0]) if y.op == 'c' else None


def asked(cx):
    base = cx.fns(CLS, POLL, body=False)
    if not base:
        cx.ob('asked', lib.at(cx.run(cx.fn(CLS, 'fit')[0])), None, 'the question is not recognised')
        return
    f = cx.P.functions[base[0]]
    subs = [c for c in cx.subs(CLS) if c != CLS]
    virt = f['fn'].get('virt')
    w = (f['l'], f['fn']['q'])
    if subs:
        cx.ob('asked', w, bool(virt), 'a derived class can answer')
    for c in subs:
        us = cx.resolve(c, POLL)
        own = [u for u in us if cx.P.functions[u]['fn'].get('cls') != CLS]
        if not own:
            cx.ob('asked', (cx.P.records[c].get('l', w[0]), c), False, 'the class does not answer the question')
            continue
        g = cx.P.functions[own[0]]
        over = base[0] in (g.get('ov') or [])
        a = answers(cx, own[0])
        cx.ob('asked', (g['l'], g['fn']['q']), False if not over else {'signals': True, 'no': False, 'always': False, 'wrong': False, 'ignores': False}.get(a),
              'overrides the question and answers by pending signals')
    # the question is put virtually
    for op, work, whole in OPS:
        for u in cx.fn(CLS, op):
            run = cx.run(u, ('c18',))
            vl = {e.loc for e in run.ev if e.kind == 'vcall'}
            for e in run.ev:
                if e.kind == 'call' and name(e) == POLL and virt:
                    cx.ob('asked', e, e.loc in vl, 'the question goes to the class of the model')
    # Python classes that hold a model instead of being one
    for c in sorted(cx.P.records):
        if not c.startswith('Py') or c in subs or not cx.resolve(c, 'fit'):
            continue
        kinds = set()
        for u in cx.ctors(c):
            for e in cx.run(u).ev:
                if e.kind == 'alloc':
                    ty = e.x['t'] or {}
                    if CLS in cx.supers(ty.get('rc') or ty.get('s') or ''):
                        kinds.add(ty.get('rc') or ty.get('s'))
        for k in sorted(kinds):
            us = cx.resolve(k, POLL)
            a = answers(cx, us[0]) if us else None
            cx.ob('asked', (cx.P.records[c].get('l', w[0]), c), True if a == 'signals' else False if a == 'no' else None, '%s trains a %s, which %s' % (
                c, k, {'signals': 'answers by pending signals', 'no': 'never wants to stop'}.get(a, 'answers in its own way')))
