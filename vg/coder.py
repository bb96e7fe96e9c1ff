"""Two maps kept as each other's inverse (symbol coder, tokenizer): who writes them, with what, in what pairs."""
from . import terms as t, patterns
from .terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size
from . import lib

OPAQUE = {'opq', 'ext', 'rcall', 'hav', 'load', 'bot', 'undef', 'phi', 'jget'}


def opaque(v):
    return any(x.op in OPAQUE for x in t.walk(v))


def param(run, k=0):
    """initial value of reference parameter k"""
    return run.I.initial(t.OBJ(raw('argp', k, run.fn['params'][k]['n'])))


def writes(run, addr):
    return [e for e in run.ev if e.kind in ('mut', 'store') and e.addr is addr and e.how not in ('noop', 'reserve')]


def pair_of(e, vec):
    """(code, symbol) a write to the backward table establishes"""
    if e.how in ('ins', 'put', 'try', 'updkey'):
        return e.key, e.val
    if e.how == 'push':
        return size(e.old), e.val
    return None


def match(run, f, b):
    """does backward write b belong to forward write f?"""
    p = pair_of(b, None)
    if p is None:
        return False
    facts = f.facts | b.facts
    k, v = p
    kf, vf = f.key, f.val
    s = lambda x: lib.settle(run, facts, x)
    if not (s(v) is s(kf)):
        return False
    return s(k) is s(vf) or run.G.proves_eq(f.facts, k, vf) or run.G.proves_eq(b.facts, k, vf)


def check_tables(cx, run, fa, ba, fresh, R):
    """every write to the two tables in one run.  fresh(e) -> True/False/None decides the code of a new entry"""
    fw, bw = writes(run, fa), (writes(run, ba) if ba is not None else [])
    for e in fw:
        if e.how in ('ins', 'try'):
            cx.ob(R['new'], e, True, 'an entry is only added for a symbol without one')
            ok, why = fresh(e, bw)
            cx.ob(R['code'], e, ok, why)
        elif e.how == 'put':
            known = [f for f in e.facts if f[0] != 'sel' and f[0].op == 'has' and f[0].a[1] is e.key]
            cx.ob(R['new'], e, False if not lib_opaque_key(e.key) else None,
                  'the code of a symbol that may already have one is overwritten', 'facts: %s' % known)
        elif e.how == 'updkey':
            same = e.val is t.get(e.old, e.key)
            cx.ob(R['new'], e, True if same else False, 'the code of a known symbol is replaced')
        else:
            cx.ob(R['new'], e, False, 'codes are dropped or replaced (%s)' % e.how)
    for e in bw:
        if pair_of(e, None) is None:
            cx.ob(R['new'], e, False, 'the decoding table is changed other than by adding an entry (%s)' % e.how)
    for e in run.ev:
        if e.kind == 'mapdef' and (e.addr is fa or e.addr is ba):
            done = [w for w in fw + bw if w.addr is e.addr and w.key is e.key and w.how in ('ins', 'put', 'updkey')]
            if not done or not lib.must_follow(run, e, done):
                cx.ob(R['new'], e, False, 'looking a key up adds an entry for it')
    if ba is None:
        return
    fi = [e for e in fw if e.how in ('ins', 'try', 'put')]
    bi = [e for e in bw if pair_of(e, None)]
    for f in fi:
        ms = [b for b in bi if match(run, f, b)]
        if not ms:
            cx.ob(R['pair'], f, None if any(opaque_pair(b) for b in bi) else False, 'a code is handed out that the decoding table does not get with the same symbol')
            continue
        w = lib.avoidable(run, f, ms)
        if w is not None and f.how == 'try' and all(b_only_new(run, f, b) for b in ms):
            w = None
        cx.ob(R['pair'], f, w is None, 'every new code reaches the decoding table with its symbol')
    for b in bi:
        ms = [f for f in fi if match(run, f, b)]
        if not ms:
            cx.ob(R['pair'], b, None if opaque_pair(b) else False, 'the decoding table gets an entry the coding table does not have')
            continue
        w = lib.avoidable(run, b, ms)
        cx.ob(R['pair'], b, w is None, 'every entry of the decoding table is the inverse of one of the coding table')


def b_only_new(run, f, b):
    """the backward write happens exactly when the 'insert if absent' inserted"""
    return (t.has(f.old, f.key), False) in b.facts


def opaque_pair(b):
    k, v = pair_of(b, None)
    return any(x.op in ('opq', 'ext', 'rcall', 'hav', 'load', 'bot') for x in list(t.walk(k)) + list(t.walk(v)))


def lib_opaque_key(k):
    return any(x.op in ('opq', 'ext', 'rcall', 'hav', 'load', 'bot') for x in t.walk(k))


def code_of(run, fa, facts, v, elem, ba=None):
    """is v the code the coding table has for elem?"""
    vs = lib.versions(run, fa)
    fw = [e for e in writes(run, fa) if e.how in ('ins', 'try')]
    res = True
    for f, x in lib.cases(run, facts, v):
        if lib.contradictory(f):
            continue
        x = lib.settle(run, f, x)
        if x.op == 'get' and x.a[1] is elem:
            m = x.a[0]
            if m in vs or any(z in vs for z in [m]):
                if x.a[0].op == 'try' or run.I.haskphi(m, elem, f, 0) is True or run.G.quick(f, raw('has', m, elem)):
                    continue
                res = None if res else res
                continue
        if any(e.key is elem and (lib.settle(run, f, e.val) is x) for e in fw):
            continue
        if lib_opaque_key(x):
            res = None if res else res
            continue
        return False
    return res


def coded(cx, run, R, src, fa, what):
    """the result is one code per element of src"""
    for ret in lib.returns(run):
        v = ret.a[0]
        k, m = patterns.mapped(run, v)
        if k == 'bad':
            cx.ob(R, ret, False, '%s: %s' % (what, m))
        elif k == 'unk':
            cx.ob(R, ret, None, '%s: %s' % (what, m))
        elif k == 'empty':
            cx.ob(R, ret, False, '%s: nothing is returned' % what)
        else:
            if m.src is not src:
                cx.ob(R, ret, False if m.src.op in ('init', 'sorted', 'reversed', 'sub') else None, '%s: the codes are not those of the argument' % what)
                continue
            one_each(cx, run, R, m, fa, what)
            if m.exits:
                cx.ob(R, ret, False, '%s: the loop may be left before the end' % what)


def one_each(cx, run, R, m, fa, what):
    w = lib.where(run, m.end)
    for f, items in m.alts:
        if lib.contradictory(f):
            continue
        if len(items) != 1 or items[0][0] != 'one':
            cx.ob(R, lib.at(run), None if any(x[0] == 'loop' for x in items) else False, '%s: %d codes for one element on some path' % (what, len(items)))
            continue
        ok = code_of(run, fa, f, items[0][1], m.elem)
        cx.ob(R, lib.at(run), ok, '%s: exactly one code per element, the one in the table' % what,
              None if ok else t.show(items[0][1], 4))
