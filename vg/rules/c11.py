"""C11: a batch operation returns exactly one result per input, in order.

The returned container of every batch operation is solved for as an accumulation: which container the loop walks, what each
iteration appends, what the appended value depends on, and how the loop can be left early."""
from .. import lib, patterns, terms as t
from ..terms import T, EMPTY
from ..cx import Broken

# class, operation, the per-element operations it is made of, operations on the whole batch
OPS = [
    ('vgram_core::IntVGram', 'transform', ('parse',), ()),
    ('vgram_core::IntVGram', 'transform_to_string', ('parse',), ('transform',)),
    ('vgram_core::IntStreamVGram', 'alphabet', ('decode',), ()),
    ('vgram_core::BaseTokenizer', 'transform', ('transform',), ('normalize', 'tokenize')),
    ('vgram_core::BaseTokenizer', 'decode', ('decode',), ()),
    ('vgram_core::StringVGram', 'transform', ('decode',), ('transform', 'alphabet')),
    ('vgram_core::StringVGram', 'alphabet', (), ('alphabet', 'decode')),
    ('vgram_core::StringStreamVGram', 'alphabet', (), ('alphabet', 'decode')),
    ('vgram_core::StringStreamVGram', 'parse', ('decode',), ('parse', 'transform')),
    ('vgram_core::SeqCoder', 'encode', (), ()),
    ('vgram_core::SeqCoder', 'decode', (), ()),
    ('PyIntVGram', 'transform_to_string', (), ('transform', 'transform_to_string', 'parse')),
    ('PyStringVGram', 'transform', (), ('transform',)),
]
BATCH = {'transform', 'transform_to_string', 'alphabet', 'decode', 'tokenize', 'normalize', 'parse'}
POLL = 'isTerminated'


def opaque(names):
    def f(fn):
        if fn.get('n') == POLL:
            return 'const'
        if fn.get('n') in names and fn.get('repo', 1):
            return 'pure'
        return None
    return f


def check(cx):
    cx.rule('one', 'every iteration over the batch appends exactly one result, at its end, and the whole batch is walked from the first to the last', 8)
    cx.rule('own', 'a result depends on its own element and the model only', 5)
    cx.rule('stop', 'a batch is left before its end only when an interruption was asked for', 0)
    for cls, name, per, whole in OPS:
        us = [u for u in cx.resolve(cls, name)]
        if not us:
            raise Broken('%s::%s is gone' % (cls, name))
        for u in us:
            f = cx.P.functions[u]
            if f['fn'].get('lambda'):
                continue
            if f['fn'].get('cls') != cls and any(c == f['fn'].get('cls') for c, n, _, _ in OPS if n == name):
                continue
            run = cx.run(u, ('c11',) + per + whole, opaque=opaque(per + whole))
            batch(cx, run)


def source(run, src):
    """the batch itself, or what another batch operation makes of it"""
    d = 0
    while src.op == 'rf' and src.a[0].rsplit('::', 1)[-1] in BATCH and d < 5:
        if len(src.a) == 2:
            return True
        src = src.a[-1]
        d += 1
    if src.op == 'init':
        if src.a[0].op == 'obj' and src.a[0].a[0].op == 'argp':
            return True
        return src.a[0].op in ('fld', 'obj')
    return False


def params(run):
    return [run.I.initial(t.OBJ(t.raw('argp', k, p['n']))) for k, p in enumerate(run.fn['params'])]


def batch(cx, run):
    for ret in lib.returns(run):
        v = ret.a[0]
        if patterns.mapped(run, v, params(run))[0] == 'ok':
            one(cx, run, ret, v, ret.facts)
            continue
        whole, left = [], []
        for blk, facts, x in lib.valts(run, ret, v):
            m = patterns.partial(run, x)
            if m is not None:
                left.append((m, blk, facts))
            else:
                whole.append(x)
                one(cx, run, ret, x, facts)
        # a function left from inside its loop: the loop is judged by the other way out, if there is one
        for m, blk, facts in left[:1]:
            if not any(x.op == 'phi' for x in whole):
                judge(cx, run, ret, m)


def one(cx, run, ret, v, facts):
    w = '%s: ' % run.q.replace('vgram_core::', '')
    if v.op == 'ptr':
        return
    if v.op in ('fld', 'obj', 'el'):
        v = run.I.initial(v)
    if source(run, v) and v.op != 'init':
        cx.ob('one', ret, True, w + 'hands the whole batch on')
        return
    # built through a copy of the batch: mapped() only knows appending
    k, m = patterns.mapped(run, v, params(run))
    if k == 'empty':
        # nothing for an empty batch
        ok = any(run.G.proves(facts, t.not_(t.ge0(t.add(t.size(p), t.C(-1))))) for p in params(run))
        src = [p for p in params(run)]
        cx.ob('one', ret, True if ok else (None if not all(lib.visible(f[0]) for f in facts if f[0] != 'sel') else False), w + 'returns no results on some path')
        return
    if k != 'ok':
        cx.ob('one', ret, None if k == 'unk' else False, w + str(m))
        return
    judge(cx, run, ret, m)


def judge(cx, run, ret, m):
    w = '%s: ' % run.q.replace('vgram_core::', '')
    if not source(run, m.src):
        bad = m.src.op in ('sorted', 'reversed', 'sub', 'pop') and source(run, m.src.a[0])
        cx.ob('one', ret, False if bad else None, w + 'the loop walks %s, not the batch' % t.show(m.src, 3))
        return
    for fs, items in m.alts:
        if lib.contradictory(fs) or lib.infeasible(run.G, fs):
            continue
        sure = all(f[0] == 'sel' or not any(x.op in ('opq', 'hav', 'load', 'bot') for x in t.walk(f[0])) for f in fs)
        n = sum(1 for i in items if i[0] == 'one')
        loops = [i for i in items if i[0] != 'one']
        if m.src.op == 'init' and m.src.a[0].op == 'obj' and run.q.endswith('BaseTokenizer::decode') and loops:
            # one text for a sequence of codes: text is appended
            return
        if loops:
            if isstring(run):
                return
            cx.ob('one', lib.at(run), None if any(i[0] == 'loop' for i in loops) else False, w + 'an iteration appends %s' % ', '.join(i[0] for i in items))
            continue
        if n != 1:
            if isstring(run):
                return
            cx.ob('one', lib.at(run), False if sure else None, w + 'an element of the batch gets %d results on some path' % n, facts_text(fs))
            continue
        cx.ob('one', lib.at(run), True, w + 'exactly one result per element')
        own(cx, run, m, items[0][1], w, fs)
    for e in m.exits:
        fs = run.I.out[e][1]
        polled = any(polled_fact(run, f) for f in fs)
        other = [f for f in fs if f[0] != 'sel' and any(x.op in ('rcall', 'ext', 'opq', 'hav', 'load') for x in t.walk(f[0])) and not ispoll(f[0])]
        cx.ob('stop', lib.at(run), True if polled else (None if other else False), w + 'the batch is left early only when interrupted', facts_text(fs))


def isstring(run):
    rt = run.fn['fn'].get('rt') or {}
    return 'basic_string' in (rt.get('rc') or '')


def ispoll(a):
    return any(x.op == 'rcall' and x.a[0].endswith('::' + POLL) for x in t.walk(a)) or (a.op == 'rcall' and a.a[0].endswith(POLL))


def polled_fact(run, f):
    """the fact says that an interruption was asked for"""
    if f[0] == 'sel':
        return False
    if ispoll(f[0]):
        return f[1]
    if f[0].op == 'phi':
        vs = lib.sources(run, f[0])
        got = False
        for v in vs:
            a, pol = t.atom(v)
            if a.op == 'c':
                if bool(a.a[0]) == pol and f[1] or bool(a.a[0]) != pol and not f[1]:
                    return False
            elif ispoll(a):
                if pol != f[1]:
                    return False
                got = True
            else:
                return False
        return got
    return False


def facts_text(fs):
    return '; '.join(('' if f[1] else 'not ') + t.show(f[0], 3) for f in fs if f[0] != 'sel')[:400]


def own(cx, run, m, v, w, fs=()):
    I = run.I
    L = m.loop
    seen, st, why, unk = set(), [v], None, None
    reach = False
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x is m.elem:
            reach = True
            continue
        if x.op in ('get', 'mval', 'has', 'cnt') and len(x.a) > 1 and isinstance(x.a[1], T):
            # a table looked up with the whole element answers for that element
            if x.a[1] is m.elem:
                reach = True
                unk = unk or 'a table keyed by the element'
                continue
            if any(y.op == 'phi' and y.a[0] == L.header and islocal(y) for y in t.walk(x.a[0])):
                why = why or 'what an earlier element put into a table under a key that is not the element'
                continue
        if x.op == 'phi' and x in I.phis:
            if x.a[0] == L.header:
                if x is m.iv:
                    why = why or 'its position in the batch'
                    continue
                if carried_model(x):
                    continue
                why = why or 'what earlier elements of the batch left behind'
                continue
            if x.a[0] not in L.body and x.a[0] in I.headers:
                pass
            st += [y for e, y in I.phis[x].items() if e in I.out]
            # what decides between the ways counts as well
            continue
        if x.op in ('opq', 'hav', 'load', 'ext', 'undef', 'rcall', 'bot'):
            unk = unk or 'an unknown value'
        st += [y for y in x.a if isinstance(y, T)]
    ids = [p for p in params(run)]
    if why is None and not reach and not unk:
        # nothing of the element
        sib = [x for x in seen if x.op == 'idx' and x.a[0] is m.src]
        if sib:
            why = 'another element of the batch'
        else:
            why = 'nothing of its element'
    if why and why.startswith('its position') and not reach:
        pass
    if why and any(f[0] != 'sel' and f[1] and f[0].op == 'eq' and m.elem in f[0].a for f in fs):
        why, unk, reach = None, 'told equal to another element', False
    cx.ob('own', lib.at(run), False if why else None if unk and not reach else True,
          w + ('a result depends on %s' % why if why else 'a result depends on its element and the model'), t.show(v, 4))


def islocal(x):
    a = x.a[1]
    return isinstance(a, T) and t.root(a).op in ('var', 'new')


def carried_model(x):
    """state of the model (a member), not of the operation"""
    a = x.a[1]
    return isinstance(a, T) and t.root(a).op in ('obj', 'this', 'argp')
