"""C01: SeqCoder and Encoder keep a dense, stable, one-to-one coding."""
from .. import lib, coder, patterns, terms as t
from ..terms import raw, size
from ..cx import Broken

CLS = 'vgram_core::SeqCoder'


def roles(cx):
    """coding table: what code_map hands out; decoding table: what decode reads"""
    F = B = None
    fs = {lib.fld(f['n']): f['n'] for f in cx.fields(CLS)}
    for u in cx.fn(CLS, 'code_map'):
        run = cx.run(u)
        for r in lib.returns(run):
            for x in t.walk(r.a[0]):
                if x.op == 'init' and x.a[0] in fs:
                    F = x.a[0]
                elif x in fs:
                    F = x
    for u in cx.fn(CLS, 'decode'):
        run = cx.run(u)
        for e in run.ev:
            if e.kind in ('read', 'call', 'mut', 'load', 'bisect') or e.val is not None:
                for a in ([e.addr] if e.addr is not None else []) + [x for x in e.a or () if isinstance(x, t.T)]:
                    if a in fs and a is not F:
                        B = a
    return F, B


def check(cx):
    cx.rule('new-only', 'the coding table only gains entries for symbols proven absent, and loses or changes none', 1)
    cx.rule('dense', 'a new code is the number of codes handed out so far', 1)
    cx.rule('pair', 'every new code reaches the decoding table with its symbol on every path, and nothing else does', 1)
    cx.rule('encode', 'encode emits exactly one item per element in order: the code in the table', 1)
    cx.rule('skip', 'the non-learning variant emits the code of a known symbol, nothing for an unknown one, and changes nothing', 1)
    cx.rule('decode', 'decode emits for each code what the decoding table has for it', 1)
    R = {'new': 'new-only', 'code': 'dense', 'pair': 'pair'}
    F, B = roles(cx)
    if F is None:
        raise Broken('the coding table of %s is not recognised' % CLS)

    def dense(run, inv=None):
        G = run.G
        if inv is not None:
            from .. import logic
            G = logic.Logic(run.I, inv.hyps(run.I))

        def f(e, bw):
            v = lib.settle(run, e.facts, e.val)
            if G.proves_eq(e.facts, v, size(e.old)):
                return True, 'the new code is the size of the table'
            for x in lib.versions(run, B) if B is not None else ():
                if v is size(x):
                    # the decoding table before its own addition
                    return True, 'the new code is the size of the decoding table'
            if coder.lib_opaque_key(v):
                return None, 'the new code comes from elsewhere: %s' % t.show(v, 3)
            return False, 'the new code is not the number of codes so far: %s' % t.show(v, 3)
        return f

    for u in cx.fns(CLS):
        f = cx.P.functions[u]
        if f.get('defaulted'):
            continue
        run = cx.run(u)
        if f['fn'].get('ctor'):
            continue
        coder.check_tables(cx, run, F, B, dense(run), R)
    # methods of other classes cannot reach the private tables; friends would show up here
    for u in cx.fn(CLS, 'encode'):
        run = cx.run(u)
        coder.coded(cx, run, 'encode', coder.param(run), F, 'encode')
    for u in cx.fn(CLS, 'encode_immutable'):
        run = cx.run(u)
        for e in run.muts():
            if t.root(e.addr) is lib.SELF or e.addr in (F, B):
                cx.ob('skip', e, False, 'encode_immutable changes the coder')
        fa = F
        f0 = run.I.initial(F)
        for ret in lib.returns(run):
            k, m = patterns.mapped(run, ret.a[0])
            if k != 'ok':
                cx.ob('skip', ret, None if k == 'unk' else False, 'encode_immutable: %s' % (m or 'nothing is returned'))
                continue
            if m.src is not coder.param(run) or m.exits:
                cx.ob('skip', ret, False if m.exits or m.src.op == 'init' else None, 'encode_immutable does not walk over the whole argument')
                continue
            for facts, items in m.alts:
                if lib.contradictory(facts):
                    continue
                h = run.G.quick(facts, raw('has', f0, m.elem))
                if len(items) == 0:
                    cx.ob('skip', lib.at(run), True if h is False else False, 'only an unknown symbol is left out')
                elif len(items) == 1 and items[0][0] == 'one':
                    ok = coder.code_of(run, F, facts, items[0][1], m.elem)
                    if h is not True and ok:
                        ok = None
                    cx.ob('skip', lib.at(run), ok, 'a known symbol gives its code')
                else:
                    cx.ob('skip', lib.at(run), False, 'several codes for one symbol')
    for u in cx.fn(CLS, 'decode'):
        run = cx.run(u)
        b0 = run.I.initial(B) if B is not None else None
        for ret in lib.returns(run):
            k, m = patterns.mapped(run, ret.a[0])
            if k != 'ok':
                cx.ob('decode', ret, None if k == 'unk' else False, 'decode: %s' % (m or 'nothing is returned'))
                continue
            if m.src is not coder.param(run):
                cx.ob('decode', ret, False if m.src.op == 'init' else None, 'decode does not walk over its argument')
                continue
            if m.exits:
                cx.ob('decode', ret, False, 'decode may stop before the end')
            for facts, items in m.alts:
                if lib.contradictory(facts):
                    continue
                ok = False
                if len(items) == 1 and items[0][0] == 'one':
                    ok = True
                    for f, v in lib.cases(run, facts, items[0][1]):
                        if v.op in ('get', 'idx') and v.a[0] is b0 and v.a[1] is m.elem:
                            continue
                        ok = None if coder.lib_opaque_key(v) and ok is not False else False
                cx.ob('decode', lib.at(run), ok, 'decode gives exactly one symbol per code: what the decoding table has',
                      None if ok else str(items))
    # the generic coder of the int dictionary
    for cls in [q for q in cx.P.records if q.split('<')[0].split('::')[-1] == 'Encoder']:
        us = cx.fns(cls, 'encode')
        fm = [f['n'] for f in cx.fields(cls) if f['t'].get('rc') in lib.MAPS]
        if not us or len(fm) != 1:
            continue
        fa = lib.fld(fm[0])
        inv = lib.invariants(cx, cls)
        for u in cx.fns(cls):
            if cx.P.functions[u]['fn'].get('ctor') or cx.P.functions[u].get('defaulted'):
                continue
            run = cx.run(u)
            coder.check_tables(cx, run, fa, None, dense(run, inv), R)
        for u in us:
            run = cx.run(u)
            # appends to the output parameter
            out = t.OBJ(raw('argp', 1, run.fn['params'][1]['n']))
            for ret in lib.returns(run):
                v = run.I.out and final(run, out)
                if v is None:
                    continue
                appended(cx, run, v, out, fa)


def final(run, addr):
    r = run.cx.run(run.usr, ('km',), keepmem=True)
    for e in lib.returns(r):
        v = e.mem.get(addr)
        if v is not None:
            return r, v
    return None


def appended(cx, run, rv, out, fa):
    r, v = rv
    acc = r.LL.accumulation(v) if v.op == 'phi' else None
    if acc is None:
        cx.ob('encode', lib.at(run), None, 'Encoder: result not recognised')
        return
    init, alts, L = acc
    tv = patterns.traversal_of(r, L)
    if init is not r.I.initial(out):
        cx.ob('encode', lib.at(run), False if init.op in ('empty', 'fill') else None, 'Encoder: does not append to the output')
        return
    if tv[0] != 'ok' or tv[1] is not coder.param(r):
        cx.ob('encode', lib.at(run), False if tv[0] == 'bad' else None, 'Encoder: does not walk over its input')
        return
    m = patterns.Mapped(L, tv[1], tv[2], alts, r.LL.exits(L, tv[3]), tv[3])
    coder.one_each(cx, r, 'encode', m, fa, 'Encoder')
