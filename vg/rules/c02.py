"""C02: tokenizers give every token its own permanent code."""
from .. import lib, coder, patterns, terms as t
from ..terms import raw, size, EMPTY
from ..cx import Broken

CLS = 'vgram_core::BaseTokenizer'


def batch(f):
    """overload taking a vector of sequences"""
    p = f['params'][0]['t'] if f['params'] else {}
    ta = p.get('ta') or []
    return p.get('rc') == 'std::vector' and bool(ta) and bool(ta[0].get('rc'))


def fnbatch(fn):
    p = fn['pt'][0] if fn.get('pt') else {}
    ta = p.get('ta') or []
    return p.get('rc') == 'std::vector' and bool(ta) and bool(ta[0].get('rc'))


def opq(names):
    def f(fn):
        if fn.get('n') in names and (fn.get('cls') or '').startswith('vgram_core') and 'Tokenizer' in fn['cls']:
            return 'pure'
        return None
    return f


def opqsingle(fn):
    if fn.get('n') in ('transform', 'decode') and 'Tokenizer' in (fn.get('cls') or '') and not fnbatch(fn):
        return 'pure'
    return None


def tables(cx):
    F = B = None
    for f in cx.fields(CLS):
        ty = f['t']
        if ty.get('rc') in lib.MAPS and not ty.get('ptr') and not ty.get('ref'):
            k, v = (ty.get('ta') or [{}, {}])[:2]
            if k.get('int') and not v.get('int'):
                B = lib.fld(f['n'])
            elif v.get('int') and not k.get('int'):
                F = lib.fld(f['n'])
    return F, B


def check(cx):
    cx.rule('new-only', 'the code table only gains entries for tokens proven absent, and loses or changes none', 1)
    cx.rule('fresh', 'a new code is one proven not to be in use', 1)
    cx.rule('pair', 'the two tables stay each other\'s inverse', 1)
    cx.rule('restore', 'a tokenizer made from a code table takes over every entry of it, both ways', 1)
    cx.rule('code', 'coding a text emits exactly one code per token of its normalised form, in order', 1)
    cx.rule('decode', 'decoding concatenates the tokens of the known codes in order', 1)
    cx.rule('batch', 'coding or decoding a batch gives one result per element in order', 2)
    R = {'new': 'new-only', 'code': 'fresh', 'pair': 'pair'}
    F, B = tables(cx)
    if F is None or B is None:
        raise Broken('the tables of %s are not recognised' % CLS)

    def fresh(run):
        def f(e, bw):
            ms = [b for b in bw if coder.match(run, e, b)] or bw
            bad = None
            for fc, v in lib.cases(run, e.facts, e.val):
                ok = False
                for m in {b.old for b in ms}:
                    for m2 in {m} | {x for _, x in lib.cases(run, fc, m)}:
                        if run.G.quick(fc, raw('has', m2, v)) is False:
                            ok = True
                if not ok:
                    # what the codes are made from is fully visible: sizes and constants
                    c, d = t.lin_parts(v)
                    plain = all(k.op == 'size' for k in d)
                    hdr = [k for k in d if k.op == 'phi']
                    bad = (False if plain or all(k.op in ('size', 'phi') and not stateful(run, k) for k in d) else None,
                           'a new code may be in use already: %s' % t.show(v, 3))
                    if bad[0] is False:
                        return bad
            return bad or (True, 'the new code is proven to be unused')
        return f

    def stateful(run, k):
        """a counter the object carries along"""
        return k.op == 'phi' and t.root(k.a[1]) is lib.SELF

    for cls in cx.subs(CLS):
        for u in cx.fns(cls):
            f = cx.P.functions[u]
            if f.get('defaulted') or f['fn'].get('dtor'):
                continue
            run = cx.run(u, 'tok', opaque=opq(('tokenize', 'normalize')) if f['fn']['n'] not in ('tokenize', 'normalize') else None)
            if not f['fn'].get('ctor'):
                coder.check_tables(cx, run, F, B, fresh(run), R)
            elif f['params'] and f['params'][0]['t'].get('rc') in lib.MAPS:
                restore(cx, run, F, B)
    for u in cx.fn(CLS, 'transform'):
        f = cx.P.functions[u]
        if batch(f):
            run = cx.run(u, 'single', opaque=opqsingle)
            mapped_by(cx, run, 'transform')
            continue
        run = cx.run(u, 'tok', opaque=opq(('tokenize', 'normalize')))
        toks = None
        for ret in lib.returns(run):
            k, m = patterns.mapped(run, ret.a[0])
            if k != 'ok':
                cx.ob('code', ret, None if k == 'unk' else False, 'coding: %s' % (m or 'nothing is returned'))
                continue
            s = m.src
            if not (s.op == 'rf' and s.a[0].endswith('::tokenize')):
                cx.ob('code', ret, False if s.op in ('sub', 'sorted', 'reversed', 'init') else None, 'coding does not walk over the tokens of the text')
                continue
            arg = s.a[-1]
            ok = arg.op == 'rf' and arg.a[0].endswith('::normalize') and arg.a[-1] is coder.param(run)
            cx.ob('code', ret, ok or (None if coder.lib_opaque_key(arg) else False), 'the tokens are those of the normalised text')
            if m.exits:
                cx.ob('code', ret, False, 'coding may stop before the last token')
            coder.one_each(cx, run, 'code', m, F, 'coding')
    for u in cx.fn(CLS, 'decode'):
        f = cx.P.functions[u]
        if batch(f):
            run = cx.run(u, 'single', opaque=opqsingle)
            mapped_by(cx, run, 'decode')
            continue
        run = cx.run(u)
        b0 = run.I.initial(B)
        for ret in lib.returns(run):
            k, m = patterns.mapped(run, ret.a[0])
            if k != 'ok' or m.src is not coder.param(run):
                cx.ob('decode', ret, False if k in ('bad', 'empty') or (k == 'ok' and m.src.op == 'init') else None,
                      'decode: %s' % (m if k != 'ok' else 'does not walk over its argument'))
                continue
            if m.exits:
                cx.ob('decode', ret, False, 'decode may stop before the last code')
            for facts, items in m.alts:
                if lib.contradictory(facts):
                    continue
                has = run.G.quick(facts, raw('has', b0, m.elem))
                if not items:
                    cx.ob('decode', lib.at(run), has is False, 'only unknown codes are left out')
                    continue
                if len(items) != 1 or items[0][0] not in ('seq', 'one'):
                    cx.ob('decode', lib.at(run), False if all(x[0] in ('seq', 'one', 'at') for x in items) else None,
                          'decoding a code adds something else than its token')
                    continue
                ok = True
                for f2, v in lib.cases(run, facts, items[0][1]):
                    if items[0][0] == 'seq' and v.op == 'get' and v.a[0] is b0 and v.a[1] is m.elem:
                        continue
                    if v is EMPTY or (v.op == 'str' and v.a[0] == ''):
                        if run.G.quick(f2, raw('has', b0, m.elem)) is False:
                            continue
                    ok = None if coder.lib_opaque_key(v) and ok is not False else False
                cx.ob('decode', lib.at(run), ok, 'a known code adds exactly its token', None if ok else str(items))


def mapped_by(cx, run, name):
    src = coder.param(run)
    for ret in lib.returns(run):
        k, m = patterns.mapped(run, ret.a[0])
        if k != 'ok':
            cx.ob('batch', ret, None if k == 'unk' else False, '%s of a batch: %s' % (name, m or 'nothing is returned'))
            continue
        if m.src is not src:
            cx.ob('batch', ret, False if m.src.op in ('init', 'sub', 'sorted', 'reversed') else None, '%s does not walk over the whole batch' % name)
            continue
        if m.exits:
            cx.ob('batch', ret, False, '%s of a batch may stop before its end' % name)
        for facts, items in m.alts:
            if lib.contradictory(facts):
                continue
            if len(items) != 1 or items[0][0] != 'one':
                cx.ob('batch', lib.at(run), None if any(x[0] in ('loop', 'seq') for x in items) else False, '%d results for one element' % len(items))
                continue
            ok = True
            for f2, v in lib.cases(run, facts, items[0][1]):
                if v.op == 'rf' and v.a[0].endswith('::' + name) and v.a[-1] is m.elem:
                    continue
                ok = False if v.op in ('rf', 'idx', 'empty') else None
            cx.ob('batch', lib.at(run), ok, '%s of a batch: each result comes from its own element' % name)


def restore(cx, run, F, B):
    """a constructor given a code table"""
    src = run.I.initial(t.OBJ(raw('argp', 0, run.fn['params'][0]['n'])))
    arg = raw('arg', 0, run.fn['params'][0]['n'])
    r = cx.run(run.usr, ('km',), keepmem=True)
    for ret in lib.returns(r):
        fv, bv = ret.mem.get(F), ret.mem.get(B)
        if fv is None or fv is EMPTY:
            cx.ob('restore', lib.at(r), False, 'the given code table is not taken over')
            continue
        ok = fv is src or fv is arg
        L2 = None
        if not ok:
            L2 = filled(r, F, fv, src, False)
            ok = L2
        cx.ob('restore', lib.at(r), ok, 'the given code table is taken over')
        if bv is None or bv is EMPTY:
            cx.ob('restore', lib.at(r), False, 'the decoding table is not built')
            continue
        cx.ob('restore', lib.at(r), filled(r, B, bv, src, True), 'every entry of the given table gets its inverse in the decoding table')


def filled(r, addr, v, src, inverse):
    """v was filled with every entry of the table src"""
    if v.op != 'phi' or v.a[0] not in r.LL.loops:
        return None
    L = r.LL.loops[v.a[0]]
    tv = patterns.traversal_of(r, L)
    if tv[0] != 'ok':
        return False if tv[0] == 'bad' else None
    own = r.I.initial(addr)
    if tv[1] is not src and not any(e.kind == 'mut' and e.new is src and tv[1] is e.new for e in r.ev):
        return None
    if r.LL.exits(L, tv[3]):
        return False
    ws = [e for e in coder.writes(r, addr) if e.ins.blk in L.body]
    if not ws:
        return False
    good = []
    for e in ws:
        if e.how not in ('put', 'ins', 'try'):
            return False if e.how in ('clear', 'erase') else None
        k, x = (e.key, e.val)
        want = ('mval', 'mkey') if inverse else ('mkey', 'mval')
        if (k.op, x.op) == want and k.a[0] is tv[1] and x.a[0] is tv[1] and k.a[1] is x.a[1]:
            good.append(e)
        else:
            return False if k.op in ('mval', 'mkey') and x.op in ('mval', 'mkey') else None
    # on every iteration
    ends = [(b, 10 ** 8) for b, i in L.back]
    p = r.LL.path((L.header, -1), ends, [e.pos for e in good], within=L.body)
    return p is None
