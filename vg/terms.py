"""Interned value terms with a small normaliser.

Integer comparisons are reduced to ge0(lin): "linear form >= 0"; everything else to a positive atom with a
polarity.  Containers are values: empty, push, upd, ins, ... with size() pushed through them."""


class T:
    __slots__ = ('op', 'a', 'n', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def raw(op, *a):
    k = (op,) + tuple(('i', x.n) if isinstance(x, T) else x if not isinstance(x, (bool, float, int)) else (type(x) is float, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.n = op, a, _cnt[0]
        _cnt[0] += 1
        _tab[k] = t
    return t


def C(v):
    if isinstance(v, bool):
        v = int(v)
    return raw('c', v)


TRUE, FALSE, ZERO, ONE = C(1), C(0), C(0), C(1)
NULL = raw('null')
UNDEF = raw('undef')
EMPTY = raw('empty')


def isc(t, v=None):
    return t.op == 'c' and (v is None or t.a[0] == v)


def cval(t):
    return t.a[0] if t.op == 'c' else None


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == 'c':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(zip(t.a[1::2], t.a[2::2]))
    return 0, {t: 1}


def lin_make(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    a = [c]
    for k in sorted(d, key=lambda x: x.n):
        a += [k, d[k]]
    return raw('lin', *a)


def add(x, y, s=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return lin_make(c1 + s * c2, d)


def sub(x, y):
    return add(x, y, -1)


def neg(x):
    return add(ZERO, x, -1)


def mul(x, y):
    if x.op == 'c' and y.op == 'c':
        return C(x.a[0] * y.a[0])
    if y.op == 'c':
        x, y = y, x
    if x.op == 'c':
        if x.a[0] == 0:
            return ZERO if isinstance(x.a[0], int) else C(0.0)
        c, d = lin_parts(y)
        return lin_make(c * x.a[0], {k: v * x.a[0] for k, v in d.items()})
    if x.n > y.n:
        x, y = y, x
    return raw('mul', x, y)


def ge0(l, flt=False):
    """term >= 0"""
    if l.op == 'c':
        return C(l.a[0] >= 0)
    c, d = lin_parts(l)
    if len(d) == 1 and isinstance(c, int):
        k, v = next(iter(d.items()))
        if k.op == 'cnt' and v in (1, -1):      # the count in a map or set is 0 or 1
            if v == 1:
                return TRUE if c >= 0 else has(*k.a) if c == -1 else FALSE
            return TRUE if c >= 1 else not_(has(*k.a)) if c == 0 else FALSE
    # sizes are never negative
    if c >= 0 and all(v > 0 and nonneg(k) for k, v in d.items()):
        return TRUE
    if not flt and c < 0 and all(v < 0 and nonneg(k) for k, v in d.items()):
        return FALSE
    return raw('ge0', l)


def nonneg(t):
    if t.op in ('size', 'cnt', 'lb', 'bytes', 'sizeof', 'mm', 'distance'):
        return True
    if t.op == 'c':
        return t.a[0] >= 0
    if t.op == 'phi':
        return t in NONNEG_PHI
    if t.op == 'lin':
        c, d = lin_parts(t)
        return c >= 0 and all(v > 0 and nonneg(k) for k, v in d.items())
    if t.op == 'b2i' or t.op in BOOLOPS:
        return True
    return False


NONNEG_PHI = set()
BOOLOPS = {'ge0', 'eq', 'has', 'flt', 'not', 'prefix', 'lex'}


def lt(x, y):
    return ge0(add(sub(y, x), C(-1)))


def le(x, y):
    return ge0(sub(y, x))


def flt(x, y):
    if x.op == 'c' and y.op == 'c':
        return C(x.a[0] < y.a[0])
    if x is y:
        return FALSE
    d = sub(y, x)
    if d.op == 'c':
        return C(d.a[0] > 0)
    return raw('flt', x, y)


def not_(t):
    if t.op == 'c':
        return C(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    if t.op == 'ge0' and not _has_float(t.a[0]):
        return ge0(add(C(-1), t.a[0], -1))
    if t.op not in BOOLOPS:
        return raw('eq', *sorted((t, ZERO), key=lambda x: x.n)) if False else raw('not', t)
    return raw('not', t)


def _has_float(l):
    c, d = lin_parts(l)
    return isinstance(c, float)


ADDR_CONST = ('new', 'var')


def distinct_ptr(x, y):
    """pointer values that cannot be equal"""
    if x is y:
        return False
    if x.op == 'null' and y.op == 'ptr' or y.op == 'null' and x.op == 'ptr':
        return True
    if x.op == 'ptr' and y.op == 'ptr':
        return root(x.a[0]) is not root(y.a[0]) and root(x.a[0]).op in ADDR_CONST and root(y.a[0]).op in ADDR_CONST
    if (x.op, y.op) in (('null', 'this'), ('this', 'null')):
        return True
    return False


def root(a):
    while a.op in ('fld', 'el', 'mv', 'mel'):
        a = a.a[0]
    return a


def is_num(t):
    return t.op in ('c', 'lin', 'size', 'mul', 'cnt', 'pos', 'lb')


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'c' and y.op == 'c':
        return C(x.a[0] == y.a[0])
    if distinct_ptr(x, y):
        return FALSE
    if x.op == 'str' and y.op == 'str':
        return C(x.a[0] == y.a[0])
    for p, q in ((x, y), (y, x)):
        if q is EMPTY or (q.op == 'str' and q.a[0] == ''):
            return not_(ge0(add(size(p), C(-1))))
    if x.op == 'it' and y.op == 'it' and x.a[0] is y.a[0]:
        return iteq(x.a[0], x.a[1], y.a[1])
    if is_num(x) or is_num(y):
        d = sub(x, y)
        if d.op == 'c':
            return C(d.a[0] == 0)
        c, ds = lin_parts(d)
        if all(isinstance(v, int) for v in ds.values()) and isinstance(c, int):
            # size == 0  ->  not size >= 1
            if len(ds) == 1:
                k, v = next(iter(ds.items()))
                if k.op == 'cnt' and v in (1, -1) and c * v == -1:
                    return has(*k.a)
                if nonneg(k) and v in (1, -1):
                    if c == 0:
                        return not_(ge0(add(k, C(-1))))
                    if (v == 1 and c > 0) or (v == -1 and c < 0):
                        return FALSE
            # canonical sign
            k0 = min(ds, key=lambda z: z.n)
            if ds[k0] < 0:
                d = neg(d)
            # bisection positions against the end etc. stay as they are
            return raw('eq', d, ZERO)
    if x.n > y.n:
        x, y = y, x
    return raw('eq', x, y)


def iteq(caddr, p, q):
    """equality of two positions in one container"""
    if p is q:
        return TRUE
    for a, b in ((p, q), (q, p)):
        # end may be wrapped as ('pend', mapterm)
        if a.op == 'find':
            m, k = a.a
            if b.op in ('size', 'pend'):
                return not_(has(m, k))
        if a.op == 'mm':
            if b is a.a[2] or (b.op == 'size' and b.a[0] is a.a[0]):
                if a.a[1] is ZERO and a.a[4] is ZERO and b.op == 'size' and b.a[0] is a.a[0]:
                    return raw('prefix', a.a[0], a.a[3])
                return raw('mmend', a)
        if a.op == 'lb' and b.op == 'size':
            return not_(lt(a, b))
        if a.op == 'kp' and b.op in ('size', 'pend'):
            return FALSE
    # positions known to stay within [0, size]: i != size  <=>  i < size
    for a, b in ((p, q), (q, p)):
        if b.op == 'size':
            d = sub(b, a)
            if d.op == 'c':
                return C(d.a[0] == 0)
            return not_(ge0(add(d, C(-1))))
        if b.op == 'c' and b.a[0] == 0 and a.op == 'lin':
            return not_(ge0(add(a, C(-1))))
    return eq(p, q)


# ---------------------------------------------------------------- containers
def size(c):
    o = c.op
    if o == 'empty':
        return ZERO
    if o == 'str':
        return C(len(c.a[0].encode('utf-8', 'surrogateescape')))
    if o == 'push' or o == 'ins':
        return add(size(c.a[0]), ONE)
    if o == 'pop':
        return add(size(c.a[0]), C(-1))
    if o == 'fill' or o == 'resize':
        return c.a[0] if o == 'fill' else c.a[1]
    if o in ('upd', 'updkey', 'sorted', 'reversed', 'filled'):
        return size(c.a[0])
    if o == 'sub':
        return sub(c.a[2], c.a[1])
    if o == 'cat':
        return add(size(c.a[0]), size(c.a[1]))
    if o == 'lits':
        return C(len(c.a))
    if o == 'ens':
        return raw('size', c)
    if o == 'mapped':
        return size(c.a[0])
    return raw('size', c)


def push(c, x):
    return raw('push', c, x)


def fill(n, v):
    if isc(n) and n.a[0] == 0:
        return EMPTY
    if isc(n) and isinstance(n.a[0], int) and 0 < n.a[0] <= 4:
        t = EMPTY
        for _ in range(n.a[0]):
            t = push(t, v)
        return t
    return raw('fill', n, v)


def subr(c, p, q):
    if c is EMPTY:
        return EMPTY
    if p is ZERO and q is size(c):
        return c
    if p is q:
        return EMPTY
    if c.op == 'sub':
        return subr(c.a[0], add(c.a[1], p), add(c.a[1], q))
    return raw('sub', c, p, q)


def cat(x, y):
    if y is EMPTY or (y.op == 'str' and y.a[0] == ''):
        return x
    if x is EMPTY or (x.op == 'str' and x.a[0] == ''):
        return y
    if y.op == 'push':
        return push(cat(x, y.a[0]), y.a[1])
    if y.op == 'cat':
        return cat(cat(x, y.a[0]), y.a[1])
    if x.op == 'str' and y.op == 'str':
        return raw('str', x.a[0] + y.a[0])
    return raw('cat', x, y)


def jat(b, k):
    while b.op == 'jset':
        if b.a[1] is k:
            return b.a[2]
        if b.a[1].op != k.op or k.op != 'str':
            break
        b = b.a[0]
    return raw('jat', b, k)


def index(c, i):
    o = c.op
    if o == 'push':
        d = sub(i, size(c.a[0]))
        if d.op == 'c':
            if d.a[0] == 0:
                return c.a[1]
            if d.a[0] < 0:
                return index(c.a[0], i)
    elif o == 'fill':
        return c.a[1]
    elif o == 'upd':
        if c.a[1] is i:
            return c.a[2]
        d = sub(c.a[1], i)
        if d.op == 'c' and d.a[0] != 0:
            return index(c.a[0], i)
    elif o == 'sub':
        return index(c.a[0], add(c.a[1], i))
    elif o == 'pop':
        return index(c.a[0], i)
    elif o == 'cat':
        d = sub(i, size(c.a[0]))
        if d.op == 'c':
            if d.a[0] < 0:
                return index(c.a[0], i)
            return index(c.a[1], d)
    elif o == 'lits' and isc(i):
        if 0 <= i.a[0] < len(c.a):
            return c.a[i.a[0]]
    return raw('idx', c, i)


def has(m, k):
    o = m.op
    if o == 'empty':
        return FALSE
    if o in ('ins', 'updkey', 'put', 'ens'):
        if m.a[1] is k:
            return TRUE
        if isc(k) and isc(m.a[1]) or o == 'updkey':
            return has(m.a[0], k)
    if o == 'del' and m.a[1] is k:
        return FALSE
    return raw('has', m, k)


def get(m, k):
    o = m.op
    if o in ('ins', 'updkey', 'put'):
        if m.a[1] is k:
            return m.a[2]
        if isc(k) and isc(m.a[1]):
            return get(m.a[0], k)
    if o == 'ens' and m.a[1] is not k:
        return raw('get', m.a[0], k)
    return raw('get', m, k)


def getf(s, f):
    if s.op == 'sv':
        for i in range(1, len(s.a), 2):
            if s.a[i] == f:
                return s.a[i + 1]
    if s.op == 'setf':
        if s.a[1] == f:
            return s.a[2]
        return getf(s.a[0], f)
    if s.op == 'undef':
        return UNDEF
    return raw('getf', s, f)


def setf(s, f, v):
    if s.op == 'sv':
        a = list(s.a)
        for i in range(1, len(a), 2):
            if a[i] == f:
                a[i + 1] = v
                return raw('sv', *a)
        return raw('sv', *(a + [f, v]))
    return raw('setf', s, f, v)


def sv(cls, **kw):
    a = [cls]
    for k, v in kw.items():
        a += [k, v]
    return raw('sv', *a)


def PTR(addr):
    if addr.op == 'obj':
        return addr.a[0]
    return raw('ptr', addr)


def OBJ(p):
    if p.op == 'ptr':
        return p.a[0]
    return raw('obj', p)


def atom(t):
    """-> (atom, polarity)"""
    pol = True
    while t.op == 'not':
        t, pol = t.a[0], not pol
    if t.op == 'cnt':
        return raw('has', *t.a), pol
    if t.op == 'ge0' and t.a[0].op == 'lin':
        # count(k) >= 1
        c, d = lin_parts(t.a[0])
        if len(d) == 1:
            k, v = next(iter(d.items()))
            if k.op == 'cnt':
                if v == 1 and c == -1:
                    return has_atom(k, pol)
    return t, pol


def has_atom(k, pol):
    return raw('has', *k.a), pol


def show(t, d=4):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        return str(t.a[0])
    if t.op == 'str':
        return repr(t.a[0])
    if t.op == 'var':
        return '%s' % (str(t.a[0]).split('#')[0] + "'" + str(t.a[1]) if len(t.a) > 1 else t.a[0])
    if t.op == 'init':
        return show(t.a[0], d) + '@0'
    if t.op == 'fld':
        return show(t.a[0], d) + '.' + t.a[1]
    if t.op == 'obj':
        return '*' + show(t.a[0], d)
    if t.op == 'lin':
        s = []
        for k, v in zip(t.a[1::2], t.a[2::2]):
            s.append(('%s*' % v if v != 1 else '') + show(k, d - 1))
        if t.a[0]:
            s.append(str(t.a[0]))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'phi':
        k = t.a[1]
        return 'phi%s[%s]' % (t.a[0], show(k, 2) if isinstance(k, T) else k)
    if d <= 0:
        return t.op + '(..)'
    return t.op + '(' + ', '.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a) + ')'


def walk(t, seen=None):
    """all subterms (not through phis)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


_phis = {}


def phis(t):
    """the joins a term mentions (kept: terms never change)"""
    r = _phis.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _phis:
            st.pop()
            continue
        ch = [y for y in x.a if isinstance(y, T)]
        todo = [y for y in ch if y not in _phis]
        if todo:
            st += todo
            continue
        st.pop()
        sets = [s for s in {id(_phis[y]): _phis[y] for y in ch}.values() if s]
        s = sets[0] if len(sets) == 1 else frozenset().union(*sets) if sets else frozenset()
        if x.op == 'phi':
            s = s | {x}
        _phis[x] = s
    return _phis[t]
