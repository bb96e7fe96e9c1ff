"""C06: a failed lookup is never used as an id.

Values that can be "none" (answers of lookups, parents, the first half of a candidate) are followed to the places where
they index something, are stored as an id, or are compared."""
from .. import lib, dictx, coder, terms as t
from ..terms import raw, size, C, EMPTY, ZERO, NULL, ONE
from ..cx import Broken

FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def check(cx):
    cx.rule('answer', 'a lookup answers with -1 or an id, and never with -1 for a non-empty sequence without exclusions', 2)
    cx.rule('parents', 'a parent slot holds -1 or an id', 2)
    cx.rule('index', 'a value that can be "none" is proven to be an id where it is used as an index', 3)
    cx.rule('stored', 'a value that can be "none" is proven to be an id where it is put among ids', 2)
    cx.rule('apart', '"none" is told apart from the ids exactly: below 0 or not', 4)
    R = dictx.roles(cx)
    M = missing_fields(cx, R)
    for u in cx.fn(dictx.CLS, 'search'):
        answer(cx, cx.run(u), R)
    parents(cx, R)
    for run in lib.surface(cx, 's', opaque=lib.opq('search')):
        uses(cx, run, R, M)


def floor(R):
    def f(k):
        if k.op == 'rf' and k.a[0].endswith('::search'):
            return -1
        if k.op == 'idx' and isparents(R, k.a[0]):
            return -1
        return None
    return f


def isparents(R, c):
    """a version of the parents array of some dictionary"""
    for x in (c,):
        if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] == R.P.a[1]:
            return True
        if x.op == 'push':
            return isparents(R, x.a[0])
        if x.op == 'phi' and isinstance(x.a[1], t.T) and x.a[1].op == 'fld' and x.a[1].a[1] == R.P.a[1]:
            return True
    return False


def missing_fields(cx, R):
    """members some constructor call sets to -1"""
    r = set()
    for run in lib.surface(cx, 's', opaque=lib.opq('search')):
        for e in run.ev:
            if e.kind == 'mut' and e.val is not None and e.val.op in ('sv', 'setf'):
                for x in t.walk(e.val):
                    if x.op == 'sv':
                        for k in range(1, len(x.a) - 1, 2):
                            if isinstance(x.a[k], str) and isinstance(x.a[k + 1], t.T) and x.a[k + 1].op == 'c' and isinstance(x.a[k + 1].a[0], int) \
                                    and x.a[k + 1].a[0] < 0:
                                r.add(x.a[k])
    return r


def none(run, R, M, v, blkfacts=None):
    """can this value be "none"?  -> what it is then"""
    for x in lib.sources(run, v):
        if x.op == 'rf' and x.a[0].endswith('::search'):
            args = x.a[2:]
            ex = args[1] if len(args) > 1 else NULL
            s = args[0]
            if ex is NULL and (s.op == 'idx' or nonempty(s)):
                continue
            return x
        if x.op == 'idx' and isparents(R, x.a[0]):
            return x
        if x.op == 'c' and isinstance(x.a[0], int) and x.a[0] < 0:
            return x
        if x.op == 'getf' and x.a[1] in M:
            return x
        if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] in M:
            return x
        if x.op == 'fld' and x.a[1] in M:
            return x
    return None


def nonempty(s):
    return s.op in ('push', 'lits') or (s.op == 'fill' and s.a[0].op == 'c' and s.a[0].a[0] > 0)


def isvec(ty):
    return (ty or {}).get('rc') in ('std::vector', 'std::deque')


def notid(run, e, v):
    run.I.activate()
    return lib.always(run, e, t.ge0(v))


def blind(run, e, v):
    """the conditions the prover cannot see through: a flag or a helper decided it"""
    for f in e.facts:
        if f[0] != 'sel' and any(x.op in ('rcall', 'opq', 'ext', 'hav') for x in t.walk(f[0])):
            return True
    return False


def uses(cx, run, R, M):
    G = run.G
    G.floor = floor(R)
    for e in run.ev:
        if e.kind in ('elem', 'read') and e.idx is not None and e.c is not None and e.idx.op != 'it':
            if (e.x or {}).get('ot') and not isvec(e.x['ot']) and (e.x['ot'].get('rc') or '').startswith('std::') and not e.x['ot'].get('ptr'):
                continue
            n = none(run, R, M, e.idx)
            if n is None:
                continue
            ok = seen_ok(run, e, e.idx, n)
            cx.ob('index', e, ok, '%s is proven to be an id where it is an index' % what(n), t.show(e.idx, 3))
        elif e.kind == 'mapdef' or (e.kind == 'mut' and e.how in ('ins', 'put', 'try') and e.key is not None):
            for s in t.walk(e.key):
                if s.op in ('b<<', 'b|', 'mul'):
                    for x in s.a:
                        if isinstance(x, t.T) and x.op != 'c' and x.op not in ('b<<', 'b|', 'mul', 'lin'):
                            n = none(run, R, M, x)
                            if n is not None:
                                cx.ob('stored', e, seen_ok(run, e, x, n), '%s is proven to be an id where it becomes part of a key' % what(n), t.show(x, 3))
        if e.kind in ('mut', 'store') and e.val is None and e.kind == 'store':
            v = e.new
        else:
            v = e.val
        if e.kind in ('mut', 'store') and e.addr is not None and v is not None and e.how in ('push', 'asg', 'upd', 'append', 'insat') \
                and (e.kind == 'mut' or e.addr.op == 'el'):
            base = e.addr
            if base.op == 'el':
                base = base.a[0]
            if base.op == 'fld' and base.a[1] == R.P.a[1]:
                continue
            if v.op in ('c', 'sv', 'str', 'getf') or (v.op == 'phi' and all(x.op == 'c' for x in lib.sources(run, v))):
                continue
            n = none(run, R, M, v)
            if n is None or n.op == 'c':
                continue
            cx.ob('stored', e, seen_ok(run, e, v, n), '%s is proven to be an id where it is put among ids' % what(n), t.show(v, 3))
        if e.kind == 'cmp':
            compare(cx, run, R, M, e)


def seen_ok(run, e, v, n):
    if notid(run, e, v):
        return True
    if blind(run, e, v) or any(x.op in ('lin', 'opq', 'ext', 'rcall') for x in lib.sources(run, v) if x.op != 'c'):
        return None
    return False


def what(n):
    if n.op == 'rf':
        return 'the answer of a lookup'
    if n.op == 'idx':
        return 'a parent'
    if n.op == 'c':
        return 'the marker %d' % n.a[0]
    return 'the member ' + str(n.a[1] if n.op in ('getf', 'fld') else n.a[0].a[1])


def compare(cx, run, R, M, e):
    x, y = e.a[:2]
    op = e.x.get('op')
    if x.op == 'c':
        x, y, op = y, x, FLIP.get(op)
    if y.op != 'c' or x.op == 'c' or not isinstance(y.a[0], int) or op not in FLIP:
        return
    n = none(run, R, M, x)
    if n is None or (n.op == 'c' and (len(lib.sources(run, x)) < 2 or any(z.op in ('lin', 'size', 'lb') for z in lib.sources(run, x)))):
        return
    if n.op == 'rf' and all(z.op == 'rf' for z in lib.sources(run, x)) is False and any(z.op == 'lb' for z in lib.sources(run, x)):
        return
    k = y.a[0]
    ok = (op, k) in {('<', 0), ('>=', 0), ('==', -1), ('!=', -1), ('<=', -1), ('>', -1)}
    cx.ob('apart', e, ok, '%s is compared with %s %d, which does not tell "none" from the ids' % (what(n), op, k) if not ok
          else '%s is told apart from "none" exactly' % what(n))


def answer(cx, run, R):
    seq = coder.param(run, 0)
    exp = raw('argp', 1, run.fn['params'][1]['n']) if len(run.fn['params']) > 1 else NULL
    G = run.G
    G.floor = floor(R)
    s0 = run.I.initial(R.S)
    for ret in lib.returns(run):
        for blk, facts, v in lib.valts(run, ret, ret.a[0]):
            if lib.contradictory(facts):
                continue
            if v.op == 'c':
                cx.ob('answer', ret, v.a[0] == -1, 'the answer without an id is -1')
                f2 = frozenset(facts) | {(t.eq(exp, NULL), True), (t.ge0(t.neg(size(seq))), False)}
                ok = G.contradictory(f2) or lib.always(run, ret, t.FALSE, facts=f2, blk=blk)
                cx.ob('answer', ret, True if ok else (None if any(y.op in ('rf', 'rcall', 'opq') for _, a in lib.conds(run) for y in t.walk(a)) else False),
                      'a lookup without exclusions of something not empty always finds or makes an entry')
                continue
            ok = v is size(s0) or lib.always(run, ret, t.ge0(v), facts=facts, blk=blk)
            if not ok and v.op in ('get', 'mval'):
                ok = True if table_ids(run, R) else None
            if not ok and ok is not None:
                ok = None if v.op not in ('phi', 'lb', 'lin', 'idx') else False
            cx.ob('answer', ret, ok, 'any other answer is an id, not below 0', t.show(v, 3))


def table_ids(run, R):
    """everything put into the table of appended symbols is the size of the dictionary"""
    ms = [e for e in run.ev if e.kind == 'mut' and e.addr in R.M and e.how in ('ins', 'put', 'try')]
    return bool(ms) and all(e.val.op == 'size' for e in ms)


def parents(cx, R):
    for u in cx.ctors(dictx.CLS) + lib.entries(cx, dictx.CLS):
        run = cx.run(u)
        run.G.floor = floor(R)
        for e in run.ev:
            if e.kind not in ('mut', 'store') or e.addr is None or e.how in ('noop', 'reserve'):
                continue
            if e.addr is R.P:
                v = e.new
                if e.how == 'push':
                    vs = [e.val]
                elif v is not None and v.op == 'fill':
                    vs = [v.a[1]]
                elif v is EMPTY or (v is not None and v.op == 'init'):
                    continue
                elif v is not None and v.op == 'upd' and len(v.a) == 3:
                    vs = [v.a[2]]
                else:
                    cx.ob('parents', e, None, 'the parents are written as %s' % t.show(v, 3))
                    continue
            elif e.addr.op == 'el' and e.addr.a[0] is R.P:
                vs = [e.new if e.new is not None else e.val]
            else:
                continue
            for v in vs:
                for x in lib.sources(run, v):
                    ok = True if x.op == 'c' and x.a[0] == -1 else False if x.op == 'c' else lib.always(run, e, t.ge0(add1(x))) or None
                    cx.ob('parents', e, ok, 'a parent slot gets -1 or an id', t.show(x, 3))


def add1(x):
    return t.add(x, ONE)
