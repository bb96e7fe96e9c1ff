"""C10: saving and loading agree on the format.

The value written to the file is followed as a tree of keys, the values read from it as paths into that tree.  For every
path a load reads the corresponding save must write that path on every way to the end; what is under it must be the part
of the model that the load puts it into."""
from .. import lib, logic, patterns, dictx, rank, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts
from . import c14

V = 'vgram_core::'
OPS = ('encode', 'decode', 'get', 'freqs', 'code_map', 'alphabet', 'size')
LOADERS = {'load_int_stream_vgram': V + 'IntStreamVGram', 'load_int_vgram': V + 'IntVGram',
           'load_string_stream_vgram': V + 'StringStreamVGram', 'load_string_vgram': V + 'StringVGram'}
TEXT = (V + 'StringStreamVGram', V + 'StringVGram')


def op(fn):
    return 'pure' if fn.get('n') in OPS and not fn.get('ctor') else None


def check(cx):
    cx.rule('written', 'everything a load reads is written by the corresponding save, whatever the state of the model', 4)
    cx.rule('part', 'what is read is put into the part of the model it was written from, unchanged', 8)
    cx.rule('codes', 'symbols are written in the order of their codes and given codes again in that order, each once', 8)
    cx.rule('entries', 'all entries of the dictionary are written and read, each whole, in order, with their parts from the same entry', 8)
    cx.rule('texts', 'a symbol gets the text that was written for the entry that is this one symbol', 2)
    saves = {}
    for u in cx.fns(V + 'Saver', 'save'):
        run = cx.run(u, ('c10',), keepmem=True, opaque=op)
        ps = run.fn['params']
        k = ps[0]['t'].get('rc') if ps else None
        if k:
            saves[k] = Save(cx, run, k)
    for n, k in LOADERS.items():
        for u in cx.fns(V + 'Loader', n):
            run = cx.run(u, ('c10',), keepmem=True, opaque=op)
            s = saves.get(k)
            if s is None or not s.worlds:
                cx.ob('written', lib.at(run), None, 'what %s writes is not recognised' % k)
                continue
            Load(cx, run, s, k).check()
    for s in saves.values():
        s.check()


# -- values -----------------------------------------------------------------------------------------------------------------

def worlds(run, v, facts=frozenset(), n=0):
    """[(facts, {key: value})] an object that is put together key by key; None when it is not followed"""
    if n > 60:
        return None
    if v.op == 'jnull':
        return [(facts, {})]
    if v.op == 'jset':
        if v.a[1].op != 'str':
            return None
        r = worlds(run, v.a[0], facts, n + 1)
        return None if r is None else [(f, dict(d, **{str(v.a[1].a[0]): v.a[2]})) for f, d in r]
    if v.op == 'phi' and v in run.I.phis and v.a[0] not in run.I.headers:
        r = []
        for e, x in run.I.phis[v].items():
            if e not in run.I.out:
                continue
            f2 = facts | run.I.out[e][1]
            if lib.contradictory(f2):
                continue
            w = worlds(run, x, f2, n + 1)
            if w is None:
                return None
            r += w
        return r if len(r) <= 64 else None
    return None


def plain(v):
    while v.op == 'json' and len(v.a) == 1 and isinstance(v.a[0], T):
        v = v.a[0]
    return v


def built(run, v):
    """(loop, what it was before, element) of a list that is appended to in a loop, one element per append"""
    if v.op != 'phi' or v not in run.I.phis or v.a[0] not in run.I.headers:
        return None
    L = next((L for L in loops(run) if L.header == v.a[0]), None)
    els, init = [], []
    for e, x in run.I.phis[v].items():
        if e in run.I.backedge:
            for f, y in lib.alts(run, x, run.I.out[e][1] if e in run.I.out else frozenset()):
                els.append(y)
        else:
            init.append(x)
    if L is None or not all(x.op in ('jnull', 'empty') for x in init):
        return None
    return L, els


def loops(run):
    ls = run.LL.loops
    return list(ls.values() if isinstance(ls, dict) else ls)


def counter(run, L, i):
    """+1 / -1 / None: how the position moves, and whether it starts at the right end"""
    for ph, init, st in run.LL.counters(L):
        if ph is i:
            return init, st
    return None


def cdiff(a, b):
    d = sub(a, b)
    return d.op == 'c' and d.a[0] != 0


def off(run, L, i, vs):
    """the position is not the one of this round of the loop"""
    if i.op == 'c':
        return True
    if len(vs) != 1:
        return False
    init, st = counter(run, L, vs[0])
    if st == 1:
        return cdiff(i, vs[0]) or lin_parts(i)[1].get(vs[0]) == -1 and i.op == 'lin'
    return st == -1 and i is vs[0]


def walked(cx, rule, run, L, i, n, place, what):
    """the loop goes with i over 0 .. n-1"""
    tr = [(o, end) for o, ph, end in run.LL.traversals(L) if ph is i]
    if not tr:
        c = counter(run, L, i)
        if c and c[0].op == 'c' and c[1] == 1 and c[0].a[0] > 0:
            cx.ob(rule, place, False, '%s: the first is left out' % what)
        elif c and c[1] not in (1, -1):
            cx.ob(rule, place, False, '%s: not every one is visited' % what)
        elif short(run, L, i, n):
            cx.ob(rule, place, False, '%s: the last is left out' % what)
        else:
            cx.ob(rule, place, None, '%s: the walk is not recognised' % what)
        return None
    o, end = tr[0]
    ok = True if o is n or run.G.proves_eq(run.I.out[end][1], o, n) else (False if cdiff(o, n) else None)
    cx.ob(rule, place, ok, '%s: all are visited' % what, None if ok else '%s / %s' % (t.show(o, 3), t.show(n, 3)))
    if run.LL.exits(L, end):
        ok = all(not run.LL.succ.get(run.I.blocks[b].succ[k].id) for b, k in [(x[0], x[1]) for x in run.LL.exits(L, end)]
                 if k < len(run.I.blocks[b].succ))
        cx.ob(rule, place, True if ok else False, '%s: the walk is not cut short' % what)
    return end


def short(run, L, i, n):
    for b, k, d in L.exits:
        f = run.I.out.get((b, k))
        for x in f[1] if f else ():
            if x[0] == 'sel' or x[0].op != 'ge0' or x[1]:
                continue
            c, dd = lin_parts(x[0].a[0])
            m, md = lin_parts(n)
            rest = {z: y for z, y in dd.items() if z is not i}
            if dd.get(i) == -1 and rest == md and c + 1 < m:
                return True
    return False


def every(cx, rule, run, L, evs, what):
    none, two = rank.periter(run, L, evs)
    if not none:
        cx.ob(rule, evs[0], not two, '%s: once for each' % what)
        return
    # a way round without: what is known on it?
    cx.ob(rule, evs[0], False if rank.skips(run, L, evs) else None, '%s: some are left out' % what)


def path(a, alsoel=True):
    """path into the file of an address or value"""
    r = []
    while True:
        if a.op in ('jel', 'jat') and a.a[1].op == 'str':
            r.append(str(a.a[1].a[0]))
            a = a.a[0]
        elif a.op in ('el', 'idx'):
            r.append('*')
            a = a.a[0]
        elif a.op == 'init':
            a = a.a[0]
        else:
            break
    return tuple(reversed(r)), a


def model(run, v):
    """field path of a value that is a part of the model given: [names] from the outside in"""
    if v.op == 'init':
        v = v.a[0]
    r = []
    while v.op in ('fld', 'obj', 'init', 'ptr'):
        if v.op == 'fld':
            r.append(v.a[1])
        v = v.a[0]
    return tuple(reversed(r)) if v.op in ('argp', 'arg', 'this') else None


INTS = {'bool': 0, 'char': 1, 'short': 2, 'int': 3, 'unsigned int': 3, 'long': 4, 'unsigned long': 4, 'size_t': 4, 'long long': 4, 'int64_t': 4, 'uint64_t': 4}
FLTS = {'float': 5, 'double': 6, 'long double': 7}


def compat(w, r):
    """a value of type w survives being read as r"""
    w, r = [x.replace('const ', '').strip() for x in (w, r)]
    if w == r:
        return True
    if w in FLTS and r in FLTS:
        return FLTS[r] >= FLTS[w]
    if w in FLTS and r in INTS:
        return False
    if w in INTS and r in INTS:
        return INTS[r] >= INTS[w] if w != 'bool' and r != 'bool' else False
    if w in INTS and r == 'double' and w != 'bool':
        return True
    if ('vector' in w) != ('vector' in r) or ('string' in w) != ('string' in r):
        return False
    return None


def ftype(cx, cls, name):
    seen, st = set(), [cls]
    while st:
        c = st.pop()
        rec = cx.P.records.get(c)
        if rec is None or c in seen:
            continue
        seen.add(c)
        for f in rec['fields']:
            if f['n'] == name:
                return f['t'].get('s')
        st += rec['bases']
    return None


# -- saving -----------------------------------------------------------------------------------------------------------------

class Save:
    def __init__(self, cx, run, cls):
        self.cx, self.run, self.cls = cx, run, cls
        self.worlds, self.out = None, None
        for e in run.ev:
            v = e.val if e.kind == 'out' else None
            if isinstance(v, T) and v.op == 'jdump':
                v = v.a[0]
            if isinstance(v, T) and (v.op in ('jset', 'jnull') or v.op == 'phi' and worlds(run, v, e.facts)):
                self.out = e
                self.worlds = worlds(run, v, frozenset())
        self.role = {}
        self.elem = {}
        if self.worlds is None:
            return
        for f, d in self.worlds:
            for k, v in d.items():
                self.role.setdefault((k,), []).append((f, v))
                b = built(run, v)
                if b is None:
                    continue
                L, els = b
                ws = []
                for x in els:
                    x = x if x.op != 'push' else x.a[1]
                    w = worlds(run, x)
                    if w is None:
                        ws = None
                        break
                    ws += w
                self.elem[k] = (L, ws, els, v)

    def event(self, key):
        for e in self.run.ev:
            if e.kind == 'json' and e.how == 'set' and e.addr is not None and e.addr.op == 'jel' and e.addr.a[1].op == 'str' and str(e.addr.a[1].a[0]) == key:
                return e
        return self.out or lib.at(self.run)

    def has(self, p):
        """is the path written?  True, False or None; and the way on which it is not"""
        if len(p) == 1 or p[1:] == ('*',):
            w = [f for f, d in self.worlds if p[0] not in d]
            if not w:
                return True, ''
            return False, 'the key is missing' if len(w) == len(self.worlds) else 'on some ways the key is missing'
        if len(p) == 3 and p[1] == '*':
            h, why = self.has(p[:1])
            if not h:
                return h, why
            if p[0] not in self.elem or not self.elem[p[0]][1]:
                return None, 'the elements are not recognised'
            ws = self.elem[p[0]][1]
            w = [f for f, d in ws if p[2] not in d]
            if not w:
                return True, ''
            if len(w) < len(ws) and self.cls in TEXT and all(self.notok(f) for f in w):
                return True, ''
            return False, 'the key is missing' if len(w) == len(ws) else 'the key is missing for some'
        return None, 'not recognised'

    def notok(self, facts):
        """the model has no tokenizer, which a model of texts always has"""
        for f in facts:
            if f[0] != 'sel' and f[0].op == 'eq' and f[1] and any(x.op == 'null' for x in f[0].a):
                o = [x for x in f[0].a if x.op != 'null']
                if o and (model(self.run, o[0]) or ('',))[-1].startswith('tokenizer'):
                    return True
        return False

    def field(self, key):
        """fields of the model a top level value is written from: {name} ; None: not a plain copy of one"""
        r = set()
        for f, v in self.role.get((key,), ()):
            for g, x in lib.cases(self.run, f, plain(v)):
                m = model(self.run, x) if x.op == 'init' else None
                r.add(m[-1] if m else (None if lib.visible(x) else '?'))
        return r

    def check(self):
        cx, run = self.cx, self.run
        if self.worlds is None:
            cx.ob('written', lib.at(run), None, 'what is written is not recognised')
            return
        for k, (L, ws, els, v) in self.elem.items():
            if any(w for w in ws or () if w[1]):
                self.entries(k, L, ws)
            else:
                self.coder(k, L, els)

    # symbol codes
    def coder(self, key, L, els):
        cx, run = self.cx, self.run
        pushes = [e for e in run.ev if e.kind == 'json' and e.how == 'push' and e.blk in L.body and run.LL.enclosing(e.blk)[-1].header == L.header]
        if not pushes:
            return
        if L is None or any(x.op != 'push' for x in els):
            every(cx, 'codes', run, L, pushes, 'writing symbols')
        else:
            every(cx, 'codes', run, L, pushes, 'writing symbols')
        for e in pushes:
            v = plain(e.val)
            fd = None
            if v.op == 'getf':
                fd, v = v.a[1], v.a[0]
            if v.op != 'idx':
                cx.ob('codes', e, None, 'what is written for a symbol is not recognised')
                continue
            X, i = v.a
            src = [x for x in t.walk(X) if x.op == 'rf' and str(x.a[0]).endswith('code_map')]
            if fd is None or not src:
                cx.ob('codes', e, None, 'what is written for a symbol is not recognised: %s' % t.show(v, 3))
                continue
            cx.ob('codes', e, fd == 'first', 'symbols are written, not their codes')
            walked(cx, 'codes', run, L, i, size(X) if size(X).op != 'size' or X.op != 'sorted' else size(X), e, 'writing symbols')
            if X.op == 'sorted':
                d = self.direction(X.a[1])
                cx.ob('codes', e, None if d is None else d == 1, 'in the order of their codes', '' if d == 1 else str(d))
            elif X.op == 'reversed' and X.a[0].op == 'sorted':
                d = self.direction(X.a[0].a[1])
                cx.ob('codes', e, None if d is None else d == -1, 'in the order of their codes')
            elif X.op == 'rf':
                cx.ob('codes', e, False, 'in the order of their codes', 'the order of the map')
            else:
                cx.ob('codes', e, None, 'in the order of their codes', t.show(X, 3))

    def direction(self, cmpf):
        """1: by ascending code; -1: by descending; 0: by something else"""
        cx = self.cx
        if cmpf.op == 'lessthan':
            return 0            # by symbol first
        if cmpf.op == 'greaterthan':
            return 0
        cmpf = c14.target(cx, cmpf)
        if cmpf.op != 'lam' or cmpf.a[0] not in cx.P.functions:
            return None
        try:
            tb, rows = c14.truth(cx.run(cmpf.a[0]), 0)
            ft = c14.table(tb, rows)
        except Exception:
            return None
        ks = [(j, c14.keyname(k) or '') for j, k in enumerate(tb.keys)]
        se = [j for j, n in ks if 'second' in n]
        fi = [j for j, n in ks if 'first' in n]
        for j in se:
            d = c14.direction(tb, ft, j)
            if d in (1, -1):
                return d
        if fi and any(c14.direction(tb, ft, j) for j in fi):
            return 0
        return None

    # dictionary entries
    def entries(self, key, L, ws):
        cx, run = self.cx, self.run
        R = dictx.roles(cx)
        pushes = [e for e in run.ev if e.kind == 'json' and e.how == 'push' and e.blk in L.body and run.LL.enclosing(e.blk)[-1].header == L.header]
        if pushes:
            every(cx, 'entries', run, L, pushes, 'writing entries')
        done = set()
        for f, d in ws:
            for k, v in d.items():
                v = plain(v)
                if (k, v) in done:
                    continue
                done.add((k, v))
                e = self.event(k)
                cs = {x for g, x in lib.cases(run, f, v) if not lib.contradictory(g)}
                for x in cs:
                    self.entry(k, x, L, e, f)

    def loopvar(self, L, x):
        return [ph for ph, i, s in self.run.LL.counters(L) if any(y is ph for y in t.walk(x))]

    def got(self, v):
        """(dictionary, position) of an entry"""
        x = v.a[0] if v.op == 'init' else v
        if x.op == 'rf' and str(x.a[0]).endswith('::get') and len(x.a) == 3:
            return x.a[1], x.a[2]
        if v.op == 'idx':
            y = v.a[0].a[0] if v.a[0].op == 'init' else v.a[0]
            if y.op == 'rf' and str(y.a[0]).endswith('::alphabet'):
                return y.a[1], v.a[1]
        return None

    def entry(self, k, v, L, e, facts):
        cx, run = self.cx, self.run
        g = self.got(v)
        if g is not None:
            D, i = g
            m = model(run, D)
            cx.ob('entries', e, True if m and m[-1] in self.dicts() else None, 'entries are those of the dictionary of the model', '.'.join(m or ()))
            cnt = counter(run, L, i)
            if cnt is None:
                vs = self.loopvar(L, i)
                cx.ob('entries', e, False if off(run, L, i, vs) else None, 'the entry written is the next one', t.show(i, 3))
                return
            n = raw('rf', v_size(run, D), D) if v_size(run, D) else None
            tr = [o for o, ph, end in run.LL.traversals(L) if ph is i]
            if tr and tr[0].op == 'size' and v.op == 'idx':
                n = size(v.a[0])
            if n is None:
                n = tr[0] if tr else ZERO
                cx.ob('entries', e, None, 'how many entries there are is not recognised')
                return
            if cnt[1] == -1:
                cx.ob('entries', e, False, 'entries are written in order')
                return
            walked(cx, 'entries', run, L, i, n, e, 'writing entries')
            self.at = (D, i)
            return
        if v.op == 'idx' and any(x.op == 'rf' and str(x.a[0]).endswith('::freqs') or x.op == 'init' and 'freqs' in str(x.a[0].a[-1]) for x in t.walk(v.a[0]) if x.op in ('rf', 'init') and x.a):
            j = v.a[1]
            cnt = counter(run, L, j)
            vs = self.loopvar(L, j)
            cx.ob('entries', e, True if cnt and cnt[1] == 1 else (False if off(run, L, j, vs) else None), 'the number written is that of the entry')
            return
        rf = [x for x in t.walk(v) if x.op == 'rf']
        if rf and str(v.op) == 'rf' and str(v.a[0]).endswith('::decode') and str(rf[0].a[0]).count('Tokenizer'):
            inner = v.a[-1]
            if inner.op == 'rf' and str(inner.a[0]).endswith('SeqCoder::decode'):
                g = self.got(inner.a[-1])
                if g:
                    cnt = counter(run, L, g[1])
                    vs = self.loopvar(L, g[1])
                    cx.ob('texts', e, True if cnt and cnt[1] == 1 else (False if off(run, L, g[1], vs) else None), 'the text written is that of the entry')
                    return
            g = self.got(inner)
            if g:
                cx.ob('texts', e, False, 'the text written is that of the symbols of the entry, not of their codes')
                return
            cx.ob('texts', e, None, 'the text written is not recognised: %s' % t.show(v, 3))
            return
        # something else is made of an entry
        if v.op in ('lin', 'b/', 'b%', 'b*', 'b>>') and any(x.op == 'idx' for x in t.walk(v)) and not any(x.op in lib.OPQ - {'rf'} or x.op == 'phi' and not counter(run, L, x) for x in t.walk(v)):
            cx.ob('entries', e, False, 'the number is written as it is', t.show(v, 3))
            return
        ent = [x for x in t.walk(v) if self.got(x)]
        if ent and not any(x.op in lib.OPQ - {'rf'} for x in t.walk(v)) and v.op in ('sub', 'push', 'sorted', 'reversed', 'pop', 'cat', 'upd', 'resize'):
            cx.ob('entries', e, False, 'the entry is written whole', t.show(v, 3))
            return
        if v.op in ('c', 'lin', 'bool') or v.op == 'size':
            cx.ob('entries', e, False if lib.visible(v) and not any(x.op == 'idx' for x in t.walk(v)) else None, 'what is written comes from the entry', t.show(v, 3))
            return
        cx.ob('entries', e, None, 'what is written for an entry is not recognised: %s' % t.show(v, 3))

    def dicts(self):
        """the member of a model that is its dictionary"""
        k = ('c10dict',)
        if k not in self.cx.cache:
            r = set()
            for c in (V + 'IntStreamVGram', V + 'IntVGram'):
                for f in (self.cx.P.records.get(c) or {'fields': ()})['fields']:
                    if 'IntDict' in (f['t'].get('s') or ''):
                        r.add(f['n'])
            self.cx.cache[k] = r
        return self.cx.cache[k]


def v_size(run, D):
    for e in run.ev:
        if e.kind == 'call' and e.r is not None and e.r.op == 'rf' and len(e.r.a) == 2 and e.r.a[1] is D and str(e.r.a[0]).endswith('::size'):
            return e.r.a[0]
    return None


# -- loading ----------------------------------------------------------------------------------------------------------------

class Load:
    def __init__(self, cx, run, save, cls):
        self.cx, self.run, self.save, self.cls = cx, run, save, cls

    def check(self):
        cx, run, s = self.cx, self.run, self.save
        reads = {}
        for e in run.ev:
            if e.kind == 'json' and e.how == 'get' and e.addr is not None:
                p, b = path(e.addr)
                ty = (e.x or {}).get('rt', {}).get('s') or ''
                reads.setdefault((p, ty), e)
        for e in run.ev:
            if e.kind == 'json' and e.how == 'key' and e.key is not None and isinstance(e.key, T) and e.key.op == 'str':
                p, b = path(raw('jel', e.addr, e.key))
                if not any(q[0][:len(p)] == p for q in reads):
                    reads.setdefault((p, None), e)
        if not reads:
            cx.ob('written', lib.at(run), None, 'what is read is not recognised')
        for (p, ty), e in sorted(reads.items(), key=lambda z: z[0][0]):
            if not p:
                continue
            if p[-1] == '*' and len(p) == 1:
                continue
            h, why = s.has(p)
            if h is False and any(x.op in ('obj', 'ext', 'itadv', 'phi', 'opq') for x in t.walk(path(e.addr)[1])):
                h = None                # a part of the file that is reached in an unknown way
            cx.ob('written', e, h, '%s is written when a %s is saved' % ('.'.join(p), self.cls.split('::')[-1]), why or None)
            if h and ty and len(p) == 1:
                fs = s.field(p[0])
                for f in fs:
                    w = ftype(cx, self.inner(), f) if f and f != '?' else None
                    if w and ty:
                        ok = compat(w, ty)
                        cx.ob('part', e, ok, '%s is read as what it was written as' % p[0], None if ok else '%s, read as %s' % (w, ty))
        self.fields(reads)
        self.coder()
        self.lists()
        if self.cls in TEXT:
            self.texts()

    def inner(self):
        return V + 'IntVGram' if self.cls in (V + 'IntVGram', V + 'StringVGram') else V + 'IntStreamVGram'

    def models(self):
        """models the load makes"""
        r = []
        for e in self.run.ev:
            if e.kind == 'alloc' and e.r is not None and e.r.op == 'ptr' and e.r.a[0].op == 'new' and e.r.a[0].a[-1] in (V + 'IntVGram', V + 'IntStreamVGram'):
                r.append(e.r.a[0])
        return r

    def fields(self, reads):
        cx, run, s = self.cx, self.run, self.save
        ms = self.models()
        if len(ms) != 1:
            cx.ob('part', lib.at(run), None, 'the model made is not recognised')
            return
        m = ms[0]
        for r in lib.returns(run):
            if r.mem is None:
                continue
            have = {}
            for a, v in r.mem.items():
                if a.op == 'fld' and a.a[0] is m:
                    for g, x in lib.cases(run, r.facts, v):
                        have.setdefault(a.a[1], set()).add(x)
            for (key,) in [k for k in s.role if len(k) == 1]:
                fs = s.field(key)
                if key in s.elem:
                    continue
                if len(fs) != 1 or None in fs or '?' in fs:
                    if not any(p[0][:1] == (key,) for p in reads):
                        continue
                    cx.ob('part', s.event(key), False if fs and None in fs and self.derived(key) else None, '%s is written from a part of the model' % key)
                    continue
                F = next(iter(fs))
                got = {n for n, vs in have.items() if any(self.is_read(x, key) for x in vs)}
                vs = have.get(F)
                if vs is None:
                    cx.ob('part', r, None, 'what the loaded model has as %s is not seen' % F)
                    continue
                if all(self.is_read(x, key) for x in vs):
                    ok = True
                elif all(lib.visible(x) or x.op == 'jget' for x in vs) or got and F not in got:
                    ok = False
                else:
                    ok = None
                cx.ob('part', r, ok, '%s is restored as %s' % (key, F), None if ok else ' '.join(t.show(x, 3) for x in vs))

    def derived(self, key):
        """what is written is made of parts of the model, or is always the same"""
        for f, v in self.save.role.get((key,), ()):
            for g, x in lib.cases(self.save.run, f, plain(v)):
                if lib.visible(x) and x.op not in ('init',):
                    return True
        return False

    def is_read(self, v, key):
        while v.op in ('json', 'cast', 'todouble', 'tobool') and len(v.a) and isinstance(v.a[0], T):
            v = v.a[0]
        return v.op == 'jget' and path(v.a[0])[0] == (key,)

    def strip(self, v):
        """path of a value read, and the position in the list"""
        if v.op != 'jget':
            return None
        p, b = path(v.a[0])
        i = None
        for x in t.walk(v.a[0]):
            if x.op == 'idx' and path(x)[0] == p[:2]:
                i = x.a[1]
        return p, i

    def listof(self, key):
        for e in self.run.ev:
            for v in (e.val, e.new, e.key, *(e.a or ())):
                for w in v if isinstance(v, (tuple, list)) else (v,):
                    if isinstance(w, T):
                        for x in t.walk(w):
                            if x.op == 'jat' and path(x)[0] == (key,):
                                return x
        return None

    def coder(self):
        cx, run, s = self.cx, self.run, self.save
        ck = [k for k, (L, ws, els, v) in s.elem.items() if not any(w[1] for w in ws or ())]
        if len(ck) != 1:
            return
        key = ck[0]
        cs = []
        for e in lib.calls(run, 'encode'):
            for x in t.walk(e.val[-1] if isinstance(e.val, (list, tuple)) and e.val else ZERO):
                if x.op == 'jget' and path(x.a[0])[0][:1] == (key,):
                    cs.append((e, x))
        if not cs:
            enc = lib.calls(run, 'encode')
            cx.ob('codes', enc[0] if enc else lib.at(run), None if enc else False, 'symbols read are given codes')
            return
        for e, x in cs:
            obj = e.a[0]
            arg = e.val[-1]
            p, i = self.strip(x)
            if len(p) == 1:
                cx.ob('codes', e, True if arg is x else None, 'symbols read are given codes in order')
            else:
                L = run.LL.enclosing(e.blk)
                L = L[-1] if L else None
                one = arg.op == 'push' and arg.a[0] is EMPTY and arg.a[1] is x or arg.op == 'fill' and arg.a[0] is ONE and arg.a[1] is x
                cx.ob('codes', e, True if one else None, 'the symbol read is given a code')
                if L is None or i is None:
                    cx.ob('codes', e, None, 'the walk over the symbols read is not recognised')
                else:
                    c = counter(run, L, i)
                    if c is None:
                        vs = [ph for ph, a, b in run.LL.counters(L) if any(y is ph for y in t.walk(i))]
                        cx.ob('codes', e, False if off(run, L, i, vs) else None, 'symbols read are given codes in order', t.show(i, 3))
                    elif c[1] == -1:
                        cx.ob('codes', e, False, 'symbols read are given codes in order')
                    else:
                        walked(cx, 'codes', run, L, i, size(self.src(x)), e, 'reading symbols')
                    every(cx, 'codes', run, L, [y for y, z in cs if y.blk in L.body], 'reading symbols')
            # the coder of the loaded model
            ms = self.models()
            for r in lib.returns(run):
                if r.mem is None or len(ms) != 1:
                    continue
                vals = [v for a, v in r.mem.items() if a.op == 'fld' and a.a[0] is ms[0] and v.op == 'ptr' and v.a[0].op == 'new' and str(v.a[0].a[-1]).endswith('SeqCoder')]
                if vals:
                    cx.ob('codes', e, True if any(v.a[0] is obj for v in vals) else (False if obj.op == 'new' else None), 'the model gets the coder that was restored')

    def src(self, x):
        for y in t.walk(x.a[0]):
            if y.op == 'idx':
                return y.a[0]
        return x

    def lists(self):
        cx, run, s = self.cx, self.run, self.save
        ek = [k for k, (L, ws, els, v) in s.elem.items() if any(w[1] for w in ws or ())]
        if len(ek) != 1:
            cx.ob('entries', lib.at(run), None, 'the list of entries is not recognised')
            return
        key = ek[0]
        pushes = {}
        for e in run.ev:
            if e.kind == 'mut' and isinstance(e.val, T):
                q = self.strip(e.val)
                if q and len(q[0]) == 3 and q[0][:2] == (key, '*'):
                    pushes.setdefault((e.addr, q[0][2]), []).append((e, q[1]))
        for (a, k), evs in pushes.items():
            for e, i in evs:
                if e.how in ('insat', 'put', 'upd'):
                    cx.ob('entries', e, None if e.how != 'insat' else (False if e.key is ZERO else None), 'entries are kept in order')
                    continue
                if e.how != 'push':
                    continue
                Ls = run.LL.enclosing(e.blk)
                if not Ls or i is None:
                    cx.ob('entries', e, None, 'the walk over the entries read is not recognised')
                    continue
                L = Ls[-1]
                c = counter(run, L, i)
                if c is None:
                    vs = [ph for ph, x, y in run.LL.counters(L) if any(z is ph for z in t.walk(i))]
                    cx.ob('entries', e, False if off(run, L, i, vs) else None, 'the entry read is the next one', t.show(i, 3))
                elif c[1] == -1:
                    cx.ob('entries', e, False, 'entries are read in order')
                else:
                    walked(cx, 'entries', run, L, i, size(self.src(e.val)), e, 'reading entries')
                every(cx, 'entries', run, L, [x for x, j in evs if x.blk in L.body], 'reading entries')
        self.given(key, pushes)

    def unknown(self):
        """parts of the file are reached in an unknown way"""
        return any(e.kind == 'json' and e.addr is not None and any(x.op in ('obj', 'ext', 'itadv', 'opq') for x in t.walk(path(e.addr)[1])) for e in self.run.ev)

    def given(self, key, pushes):
        """the lists read are handed to the model"""
        cx, run = self.cx, self.run
        ms = self.models()
        if len(ms) != 1:
            return
        m = ms[0]
        vec = [a for (a, k) in pushes if self.save.elem and self.isentry(key, k)]
        num = [a for (a, k) in pushes if not self.isentry(key, k)]
        ctor = [e for e in run.ev if e.kind == 'enter' and e.a and isinstance(e.a[0], T) and e.a[0].op == 'ptr' and e.a[0].a[0] is m]
        if not ctor:
            cx.ob('part', lib.at(run), None, 'how the model is made is not seen')
            return
        e = ctor[0]
        args = [x for x in e.a[1:] if isinstance(x, T)]
        vals = set()
        for r in run.ev:
            for v in (r.val, r.new, r.key):
                if isinstance(v, T):
                    vals |= {x for x in t.walk(v) if x.op == 'phi'}
        for what, ls in (('entries', vec), ('numbers', num)):
            if not ls:
                cx.ob('part', e, None if self.whole(key) or self.unknown() else False, 'the %s read are restored' % what)
                continue
            ok = any(x is a for x in args for a in ls) or any(self.from_(x, a) for x in args for a in ls)
            cx.ob('part', e, True if ok else None, 'the %s read are given to the model' % what)

    def whole(self, key):
        for e in self.run.ev:
            for v in (e.val, e.new):
                if isinstance(v, T) and any(x.op == 'jget' and path(x.a[0])[0] in ((key,), (key, '*')) for x in t.walk(v)):
                    return True
        return False

    def from_(self, x, a):
        return any(p.op == 'phi' and p.a[1] is a for p in t.walk(x))

    def isentry(self, key, k):
        L, ws, els, v = self.save.elem[key]
        return any(self.save.got(plain(d[k])) for f, d in ws if k in d)

    def texts(self):
        cx, run = self.cx, self.run
        puts = []
        for e in run.ev:
            if e.kind == 'mut' and e.how in ('put', 'ins', 'try') and isinstance(e.key, T) and isinstance(e.val, T):
                q = self.strip(e.key)
                if q and len(q[0]) == 3:
                    puts.append((e, q))
        if not puts:
            cx.ob('texts', lib.at(run), None, 'how texts are restored is not recognised')
            return
        for e, (p, i) in puts:
            v = e.val
            dec = v.a[0] if v.op == 'idx' else None
            if dec is None or dec.op != 'rf' or not str(dec.a[0]).endswith('SeqCoder::decode'):
                raw_ = v.a[0] if v.op == 'idx' else v
                q = self.strip(raw_)
                if q and q[0][:2] == p[:2] and v.op == 'idx':
                    cx.ob('texts', e, False, 'the text is that of a symbol, not of its code')
                else:
                    cx.ob('texts', e, None, 'the symbol of the text is not recognised: %s' % t.show(v, 3))
                continue
            q = self.strip(dec.a[-1])
            if q is None:
                cx.ob('texts', e, None, 'the entry of the text is not recognised')
                continue
            cx.ob('texts', e, True if q[1] is i else (False if cdiff(q[1], i) else None), 'the text is that of the same entry')
            one = t.eq(size(dec), ONE)
            one2 = t.eq(size(dec.a[-1]), ONE)
            ok = run.G.proves(e.facts, one, 3) or run.G.proves(e.facts, one2, 3) or lib.always(run, e, one) or lib.always(run, e, one2)
            cx.ob('texts', e, True if ok else (False if not self.strange(e, dec, p) else None), 'only an entry of one symbol says what the text of a symbol is')
            L = run.LL.enclosing(e.blk)
            if L:
                n = self.src(e.key)
                walked(cx, 'texts', run, L[-1], i, size(n), e, 'reading texts')
                sk = rank.skips(run, L[-1], [e])
                bad = []
                for ed in sk:
                    fs = run.I.out[ed][1] if ed in run.I.out else frozenset()
                    if run.G.proves(fs, t.not_(one), 3) or run.G.proves(fs, t.not_(one2), 3) or (one, False) in fs or (one2, False) in fs:
                        continue
                    bad.append(ed)
                cx.ob('texts', e, True if not bad else None, 'every entry of one symbol gives a text')

    def strange(self, e, dec, p):
        """something else is asked about the entry"""
        for f in e.facts:
            if f[0] == 'sel':
                continue
            if not any(x is dec or x is dec.a[-1] for x in t.walk(f[0])):
                continue
            for x in t.walk(f[0]):
                if x.op == 'rf' and x is not dec and not str(x.a[0]).endswith(('::decode', '::size', '::code_map')) or x.op == 'jq':
                    return True
        return False
