"""C26: models can be used in every state of their life.

For every pointer member it is worked out, from all constructors and all operations together, whether it can be null between
operations; every dereference of one that can is then required to be reached only where it is known not to be null.  The
state right after each constructor is also tried as the state in which an operation is called."""
from .. import lib, logic, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size

MODELS = ['IntVGramBuilderImpl', 'StatDictImpl', 'vgram_core::IntStreamVGram', 'vgram_core::IntVGram', 'vgram_core::StringStreamVGram', 'vgram_core::StringVGram']
PTR = ('std::shared_ptr', 'std::unique_ptr')


def check(cx):
    cx.rule('set', 'every constructor gives each pointer member something to point to, or it is one that is checked before use', 6)
    cx.rule('use', 'nothing is dereferenced that does not exist yet', 30)
    cx.rule('any', 'no operation refuses to run because of the state the model is in', 1)
    A = Analysis(cx)
    A.fix()
    A.judge()


class Analysis:
    def __init__(self, cx):
        self.cx = cx
        self.runs = lib.surface(cx, ('km',), keepmem=True)
        self.members = {}
        for c, r in cx.P.records.items():
            for f in r['fields']:
                ty = f['t']
                if ty.get('ptr') or ty.get('rc') in PTR:
                    self.members.setdefault(f['n'], []).append(c)
        self.nullable = {}
        self.memo = {}

    def field(self, v):
        """the pointer member a value was loaded from"""
        if v.op == 'init' and v.a[0].op == 'fld' and v.a[0].a[1] in self.members:
            return v.a[0].a[1]
        if v.op == 'init' and v.a[0].op == 'init':
            return None
        return None

    def param(self, run, v):
        """a parameter that may be left out"""
        if v.op in ('arg', 'argp') and isinstance(v.a[0], int):
            ps = run.fn['params']
            p = ps[v.a[0]] if v.a[0] < len(ps) else None
            d = p and p.get('def')
            return bool(d) and isnull(d)
        return False

    def null(self, run, v, facts, blk=None, ev=None, depth=0):
        """can a pointer be null here?  True, False or None; under what it is known to be the case"""
        v = strip(v)
        if v.op in ('ptr', 'this', 'str', 'fn', 'lam', 'it'):
            return False
        if v.op == 'null' or v.op == 'undef':
            return True
        if v.op == 'c':
            return v.a[0] == 0
        if (t.eq(raw('null'), v), False) in facts or (t.eq(v, raw('null')), False) in facts:
            return False
        if v.op == 'phi' and v in run.I.phis and depth < 6:
            r = False
            sel = [f[2] for f in facts if f[0] == 'sel' and f[1] == v.a[0]]
            for e, x in run.I.phis[v].items():
                if e not in run.I.out or x is v or any(e not in s for s in sel):
                    continue
                n = self.null(run, x, run.I.out[e][1], depth=depth + 1)
                if n:
                    return True
                if n is None:
                    r = None
            return r
        f = self.field(v)
        if f is not None:
            return bool(self.nullable.get(f))
        if v.op in ('arg', 'argp'):
            return True if self.param(run, v) else False
        if v.op == 'init' and v.a[0].op in ('obj', 'argp', 'el') and any(x.op == 'argp' for x in t.walk(v.a[0])):
            p = next(x for x in t.walk(v.a[0]) if x.op == 'argp')
            return True if v.a[0].op != 'el' and self.param(run, p) else False
        return None

    def stores(self, run):
        """(event, member, value) what pointer members are set to at the end of a run, and by what"""
        for r in lib.returns(run):
            if r.mem is None:
                continue
            for a, v in r.mem.items():
                if a.op == 'fld' and a.a[1] in self.members and own(a.a[0]):
                    yield r, a, v

    def fix(self):
        """members that can be null between operations"""
        for _ in range(6):
            before = dict(self.nullable)
            for run in self.runs:
                for r, a, v in self.stores(run):
                    for f, x in lib.alts(run, v, r.facts):
                        if self.null(run, x, f):
                            self.nullable.setdefault(a.a[1], []).append((run, r, a, x))
            for f in self.nullable:
                self.nullable[f] = self.nullable[f][:40]
            if set(before) == set(self.nullable):
                break

    def judge(self):
        cx = self.cx
        for m, ks in sorted(self.members.items()):
            bad = self.nullable.get(m)
            if not any(k in lib.CORE for k in ks):
                continue
            cx.ob('set', bad[0][1] if bad else ('', ks[0]), True, '%s of %s: %s' % (m, ', '.join(k.split('::')[-1] for k in ks), 'may not exist yet; every use is checked' if bad else 'always there'))
        done = {}
        for run in self.runs:
            for e in run.ev:
                if e.kind != 'pderef' or not e.a or not isinstance(e.a[0], T):
                    continue
                v = strip(e.a[0])
                if v.op in ('ptr', 'this', 'str', 'fn', 'lam'):
                    continue
                n = self.null(run, v, e.facts)
                k = (e.loc, e.fn)
                if n is False:
                    done.setdefault(k, (e, True, ''))
                    continue
                if n is None:
                    if k not in done:
                        done[k] = (e, None, t.show(v, 3)) if any(x.op in ('rf', 'rcall', 'load', 'hav', 'ext', 'opq') for x in t.walk(v)) else (e, None, t.show(v, 3))
                    continue
                ok = self.guarded(run, e, v)
                why = ''
                if not ok:
                    ok, why = self.reachable(run, e, v)
                o = done.get(k)
                if o is None or rank(ok) > rank(o[1]):
                    done[k] = (e, ok, why)
        for e, ok, why in done.values():
            cx.ob('use', e, ok, 'what is dereferenced exists', why or None)
        self.throws()

    def guarded(self, run, e, v):
        nn = {(t.eq(raw('null'), v), False), (t.eq(v, raw('null')), False)}

        def pred(fs):
            if fs & nn:
                return True
            # the join it came from
            return self.null(run, v, fs) is False
        return lib.everyway(run, e, pred)

    def reachable(self, run, e, v):
        """is it null there in a state that exists?  The state right after a constructor is put in for the initial values"""
        if v.op in ('null', 'undef'):
            return False, 'it is null'
        f = self.field(v)
        if f is None:
            srcs = {self.field(x) for x in lib.sources(run, v)} - {None}
            srcs = {x for x in srcs if self.nullable.get(x)}
            if any(x.op in ('null',) for x in lib.sources(run, v)):
                return None, 'null on some way'
            if self.param(run, v):
                return False, 'it may be left out'
            if len(srcs) != 1:
                return None, t.show(v, 3)
            f = srcs.pop()
        base = v.a[0].a[0] if v.op == 'init' else None
        seen = False
        for crun, r, a, x in self.nullable[f]:
            isctor = ctorof(self.cx, crun)
            if not isctor:
                # some operation leaves it null
                if a.a[0] is lib.SELF and strip(x).op == 'null':
                    return False, 'null after %s' % crun.q
                continue
            seen = True
            if base is None:
                continue
            st = {}
            for b, y in r.mem.items():
                if b.op == 'fld' and b.a[0] is a.a[0] and y.op in ('c', 'null', 'empty', 'true', 'false'):
                    st[raw('init', raw('fld', base, b.a[1]))] = y
            if not self.excluded(run, e, st):
                return False, 'null after %s' % crun.q
            if a.a[0] is lib.SELF and strip(x).op == 'null':
                for how, s2 in self.later(crun, r, a):
                    if not self.excluded(run, e, {raw('init', raw('fld', base, n)): y for n, y in s2.items()}):
                        return False, 'null after %s and %s' % (crun.q, how)
        return None, 'null in some state' if seen else ''

    def later(self, crun, r, a):
        """states after one more operation in which the member is still null: [(operation, {member: constant})]"""
        key = (crun.usr, r.pos, a)
        if key in self.memo:
            return self.memo[key]
        out = self.memo[key] = []
        st = {b: y for b, y in r.mem.items() if b.op == 'fld' and b.a[0] is lib.SELF and y.op in ('c', 'null', 'empty', 'true', 'false', 'str', 'ptr')}
        cls = crun.fn['fn'].get('cls')
        for run in self.runs:
            f = run.fn['fn']
            if f.get('cls') != cls or f.get('ctor') or f.get('const') or f.get('dtor'):
                continue
            asm = {b: y for b, y in st.items() if y.op != 'ptr'}
            run2 = self.cx.run(run.usr, ('c26', crun.usr, r.pos), keepmem=True, assume=asm)
            for q in lib.returns(run2):
                if q.mem is None:
                    continue
                if a in q.mem and strip(q.mem[a]).op != 'null':
                    continue
                base = {b.a[1]: y for b, y in asm.items() if b not in q.mem}
                for b, y in q.mem.items():
                    if b.op == 'fld' and b.a[0] is lib.SELF and y.op in ('c', 'null', 'empty', 'true', 'false'):
                        base[b.a[1]] = y
                split = [(b, z) for b, y in q.mem.items() if b.op == 'fld' and b.a[0] is lib.SELF and y.op == 'phi'
                         for _, z in lib.alts(run2, y, q.facts) if z.op in ('c', 'true', 'false')]
                for b, z in split[:12]:
                    out.append((f['n'], dict(base, **{b.a[1]: z})))
                if not split:
                    out.append((f['n'], base))
        return out

    def excluded(self, run, e, st):
        """the dereference is not reached in that state"""
        def pred(fs):
            for g in fs:
                if g[0] == 'sel':
                    continue
                h = logic.rebuild(g[0], st)
                h, pol = t.atom(h)
                if h.op == 'c' and bool(h.a[0]) != (pol == g[1]):
                    return True
                if h.op == 'eq' and any(x.op == 'null' for x in h.a) and h.a[0] is h.a[1] and (pol == g[1]) is False:
                    return True
                if h.op == 'eq' and any(x.op == 'null' for x in h.a) and any(x.op == 'ptr' for x in h.a) and (pol == g[1]):
                    return True
            return False
        return lib.everyway(run, e, pred)

    def throws(self):
        cx = self.cx
        n = 0
        for run in self.runs:
            cls = owner(cx, run)
            if cls not in MODELS or ctorof(cx, run):
                continue
            n += 1
            for e in run.ev:
                if e.kind == 'throw' or e.kind == 'call' and (e.x.get('fn') or {}).get('q') in ('abort', 'exit', 'std::abort', 'std::exit', 'std::terminate', '__assert_fail', 'quick_exit'):
                    if ctorframe(cx, e):
                        continue
                    if any(x.op == 'sstate' for f in e.facts if f[0] != 'sel' for x in t.walk(f[0])):
                        continue            # a file that cannot be read or written
                    ways = [e.facts] + [run.I.out[p][1] for p in run.I.blocks[e.blk].pred if p in run.I.out]
                    st = [state_only(run, fs) for fs in ways]
                    if st[0] or len(st) > 2 and all(st[1:]):
                        cx.ob('any', e, False, 'an operation is refused because of the state of the model')
                    else:
                        cx.ob('any', e, None, 'an operation may end with an error')
        cx.ob('any', ('', 'all operations of the models'), True, '%d operations looked at' % n)


def state_only(run, facts):
    """what decides it is only the state of the model"""
    fs = [f for f in facts if f[0] != 'sel' and not any(x.a[0] in run.I.headers for x in t.phis(f[0]))]
    dec = [f for f in fs if any(x.op == 'init' and x.a[0].op == 'fld' for x in t.walk(f[0]))]
    par = [f for f in fs if any(x.op in ('arg', 'argp', 'rcall', 'rf', 'ext', 'opq', 'hav', 'stream', 'sstate') for x in t.walk(f[0]))]
    return bool(dec) and not par


def rank(ok):
    return {True: 0, None: 1, False: 2}[ok]


def strip(v):
    while v.op == 'sv' and v.a and str(v.a[0]) in PTR and len(v.a) > 1 and isinstance(v.a[-1], T):
        v = v.a[-1]
    return v


def own(b):
    """part of the object the operation is called on, or of one it owns or makes"""
    while b.op in ('obj', 'fld', 'init', 'ptr', 'new', 'this'):
        if b.op in ('new', 'this'):
            return True
        b = b.a[0]
    return False


def isnull(d):
    k = d.get('k')
    if k in ('null', 'nullptr'):
        return True
    if k == 'lit' and d.get('v') in (None, 0) and not (d.get('t') or {}).get('int'):
        return True
    for z in d.values():
        if isinstance(z, dict) and z is not d.get('t') and isnull(z):
            return True
        if isinstance(z, list) and any(isinstance(y, dict) and isnull(y) for y in z):
            return True
    return False


def owner(cx, run):
    return run.q.rsplit('::', 1)[0]


def ctorof(cx, run):
    a = run.q.split('::')
    return len(a) > 1 and a[-1] == a[-2]


def ctorframe(cx, e):
    q = e.fn.split('::')
    return len(q) > 1 and q[-1] == q[-2]
