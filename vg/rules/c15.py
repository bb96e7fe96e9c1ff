"""C15: empty inputs are handled everywhere.

Every operation is evaluated with each of its container arguments empty (or holding one empty entry), in an arbitrary state
and in the states a new, a just loaded and a just fitted empty model has.  What is known to be empty decides the branches it
decides; wherever an element of something known to be too short is then still touched, or a number is divided by zero, this
is reported."""
from .. import lib, logic, terms as t
from ..terms import T, C, raw, ZERO, EMPTY, size

VEC = ('std::vector', 'std::basic_string', 'std::set', 'std::unordered_set', 'std::map', 'std::unordered_map')
ACC = ('read', 'elem', 'load')
HIST = ('update_dict', 'fit', 'accept', 'update')


def check(cx):
    cx.rule('touch', 'no element that does not exist is touched when something is empty', 60)
    cx.rule('divide', 'nothing is divided by the size of something empty', 1)
    A = Analysis(cx)
    A.explore()
    A.report()


class Analysis:
    def __init__(self, cx):
        self.cx = cx
        self.site = {}
        self.n = 0

    # ------------------------------------------------------------ what is tried
    def empties(self, base):
        """the ways the arguments of an operation can be empty: [(description, {address: value})]"""
        ps = []
        for i, p in enumerate(base.fn['params']):
            if (p.get('t') or {}).get('rc') in VEC and not (p.get('t') or {}).get('ptr'):
                ps.append((i, p))
        r = []
        every = {}
        for i, p in ps:
            a = self.address(base, i)
            if a is None:
                continue
            every[a] = EMPTY
            if len(ps) > 1:
                r.append(('%s is empty' % p.get('n'), {a: EMPTY}))
            ta = ((p.get('t') or {}).get('ta') or [{}])[0]
            if ta.get('rc') in ('std::vector', 'std::basic_string') and (p.get('t') or {}).get('rc') == 'std::vector':
                r.append(('%s holds one empty entry' % p.get('n'), {a: t.push(EMPTY, EMPTY) if hasattr(t, 'push') else raw('push', EMPTY, EMPTY)}))
        if every:
            r.insert(0, ('every argument is empty' if len(every) > 1 else '%s is empty' % ps[0][1].get('n'), every))
        return r

    def address(self, run, i):
        p = run.fn['params'][i]
        if (p.get('t') or {}).get('ref'):
            return t.OBJ(raw('argp', i, p['n']))
        return t.OBJ(raw('argp', i, p['n']))

    def explore(self):
        cx = self.cx
        base = lib.surface(cx, ('km',), keepmem=True)
        self.base = base
        ops = {}
        for run in base:
            ops.setdefault(run.fn['fn'].get('cls'), []).append(run)
        tasks = [('', r) for r in range(0, len(base), 12)] + [(c, 0) for c in sorted(ops, key=str) if c and not c.startswith('Py')]
        tasks.sort(key=lambda z: -sum(len(r.ev) for r in ops.get(z[0], base[z[1]:z[1] + 12])))

        def work(z):
            self.site, self.n = {}, 0
            if z[0]:
                self.states(ops[z[0]])
            else:
                for run in base[z[1]:z[1] + 12]:
                    self.look(run, 'in some state')
                    for d, m in self.empties(run):
                        self.look(self.go(run, d, m), d)
            return self.site, self.n
        for st, n in lib.spread(work, tasks):
            self.n += n
            for k, v in st.items():
                o = self.site.setdefault(k, ([], [], []))
                for x, y in zip(o, v):
                    x.extend(y)

    def states(self, rs):
        """the states a model can have early in its life"""
        states = []
        for run in rs:
            if not run.fn['fn'].get('ctor'):
                continue
            es = self.empties(run)
            for d, m in (es[:1] or [('', {})]):
                for st in self.final(self.go(run, d, m)):
                    states.append(('right after construction' + (' from nothing' if d else ''), st))
        more = []
        for d, st in uniq(states):
            for run in rs:
                if run.fn['fn']['n'] in HIST and not run.fn['fn'].get('ctor'):
                    for d2, m in (self.empties(run)[:1] or [('', {})]):
                        for s2 in self.final(self.go(run, d + d2, merge(st, m)), st):
                            more.append(('%s after %s' % (d, run.fn['fn']['n']), s2))
        for d, st in uniq(states + more):
            for run in rs:
                if not run.fn['fn'].get('ctor'):
                    for d2, m in [('', {})] + self.empties(run):
                        self.look(self.go(run, d + d2, merge(st, m)), d + (', ' + d2 if d2 else ''))

    def go(self, run, key, m):
        self.n += 1
        if not m:
            return run
        return self.cx.run(run.usr, ('c15', run.usr, key, frozenset((a.n, v.n) for a, v in m.items())), keepmem=True, assume=m)

    def final(self, run, before=None):
        """the states an operation ends in"""
        rs = [r for r in lib.returns(run) if r.mem is not None]
        out = []
        for r in rs[:3]:
            st = dict(before or {})
            ok = {}
            for a, v in r.mem.items():
                if rootof(a).op not in ('new', 'this') and not own(a):
                    continue
                ok[a] = v if closed(v) else None
            for a, v in ok.items():
                st[a] = v if v is not None else raw('init', raw('later', a))
            if not any(same(st, x) for x in out):
                out.append(st)
        return [self.rename(x) for x in out if before is None or not same(x, before)]

    def rename(self, st):
        memo, ids = {}, {}

        def go(x):
            if not isinstance(x, T):
                return x
            if x in memo:
                return memo[x]
            if x.op == 'new':
                memo[x] = raw('new', 's%d' % ids.setdefault(x, len(ids)), *x.a[1:])
            else:
                b = tuple(go(z) for z in x.a)
                memo[x] = x if all(p is q for p, q in zip(b, x.a)) else raw(x.op, *b)
            return memo[x]
        return {go(a): go(v) for a, v in st.items()}

    # ------------------------------------------------------------ what is looked at
    def look(self, run, how):
        for e in run.ev:
            if e.kind == 'div':
                d = e.a[1]
                self.put('divide', e, (False if free(run, e) else None) if d.op == 'c' and d.a[0] == 0 else True if d.op == 'c' else None, how)
                continue
            if e.kind == 'call':
                # from ... to: not backwards, and not before the beginning
                its = [v for v in (e.val if isinstance(e.val, (tuple, list)) else e.a or ()) if isinstance(v, T) and v.op == 'it' and len(v.a) == 2]
                if (e.x.get('fn') or {}).get('n') in ('insert', 'swap', 'iter_swap'):
                    its = its[1:] if len(its) == 3 else []
                for p, q in zip(its, its[1:]):
                    if p.a[0] is q.a[0] and p.a[1].op == 'c' and q.a[1].op == 'c':
                        bad = p.a[1].a[0] > q.a[1].a[0] or p.a[1].a[0] < 0
                        if bad and ((e.x.get('fn') or {}).get('n') or '').startswith('operator'):
                            continue
                        self.put('touch', e, (False if free(run, e) else None) if bad else True, how)
                continue
            if e.kind not in ACC or not isinstance(e.c, T) or not isinstance(e.idx, T) or (e.x or {}).get('range') or not linear(e):
                continue
            i, n = e.idx, size(e.c)
            if n.op != 'c' and e.c.op == 'idx':
                ns = {size(x) for x in contents(run, e.c.a[0]) or ()}
                if len(ns) == 1:
                    n = ns.pop()
            ok = None
            if i.op == 'c' and isinstance(i.a[0], int) and i.a[0] < 0:
                ok = False
            elif n.op == 'c' and (i.op == 'c' and isinstance(i.a[0], int) or n.a[0] == 0):
                x = i.a[0] if i.op == 'c' else 0
                ok = x < n.a[0] or x == n.a[0] and text(e) and e.how == '[]'
            if ok is False and (given(i) or not free(run, e)):
                ok = None
            self.put('touch', e, ok, how)

    def put(self, rule, e, ok, how):
        k = (rule, e.loc, e.fn)
        o = self.site.setdefault(k, ([], [], []))
        o[0 if ok is False else 1 if ok is None else 2].append(how)

    def report(self):
        cx = self.cx
        for (rule, loc, fn), (bad, unk, good) in sorted(self.site.items(), key=lambda z: str(z[0])):
            what = 'divided by something that is not zero' if rule == 'divide' else 'what is touched exists'
            if bad:
                cx.ob(rule, (loc, fn), False, what, '; '.join(sorted(set(bad))[:3]))
            else:
                cx.ob(rule, (loc, fn), True, what, 'not reached or within bounds in every case of emptiness tried')
        cx.notes.append('%d evaluations of operations with something empty' % self.n)


def given(i):
    """a position the caller gives"""
    return any(x.op == 'arg' for x in t.walk(i))


def contents(run, v):
    """what a list that is put together in a loop consists of"""
    r, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in run.I.phis:
            st += [y for e, y in run.I.phis[x].items() if e in run.I.out]
        elif x.op == 'push':
            r.append(x.a[1])
            st.append(x.a[0])
        elif x.op != 'empty':
            return None
    return r


def free(run, e, depth=0):
    """what is not decided on the way there is up to what is passed in, not to anything computed"""
    ok = {}

    def made(v):
        # a list something is certainly put in
        if depth > 3 or v.op != 'phi' or not contents(run, v):
            return False
        return all(free(run, m, depth + 1) for m in run.ev if m.kind == 'mut' and m.how == 'push' and isinstance(m.new, T) and m.new.op == 'push'
                   and any(m.new is y for y in run.I.phis.get(v, {}).values()))

    def plain(v):
        if v.op == 'size' and v.a[0].op == 'phi':
            return made(v.a[0])
        if v.op == 'phi':
            if v not in ok:
                ok[v] = True
                ok[v] = all(plain(z) for z in run.I.phis.get(v, {}).values())
            return ok[v]
        if v.op in ('rf', 'rcall', 'hav', 'bot', 'load', 'push', 'append', 'cat', 'upd', 'resize', 'find', 'lb', 'ub'):
            return False
        return all(plain(x) for x in v.a if isinstance(x, T))
    return all(plain(f[0]) for f in e.facts if f[0] != 'sel')


def linear(e):
    """an access to a sequence, by position"""
    return kind(e).startswith('std::vector') or text(e) or '__normal_iterator' in kind(e)


def kind(e):
    x = e.x or {}
    return str((x.get('ot') or x.get('t') or {}).get('rc') or '')


def text(e):
    return 'basic_string' in kind(e)


def rootof(a):
    while a.op in ('fld', 'el', 'sfld', 'obj') and a.a and isinstance(a.a[0], T):
        a = a.a[0]
    return a


def own(a):
    while a.op in ('fld', 'el', 'sfld', 'obj', 'init', 'ptr'):
        a = a.a[0]
    return a.op in ('this', 'new')


def closed(v):
    return not any(x.op in ('phi', 'bot', 'hav', 'ext', 'arg', 'argp', 'rf', 'rcall', 'load', 'var', 'undef') for x in t.walk(v))


def same(a, b):
    return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())


def merge(a, b):
    r = dict(a)
    r.update(b)
    return r


def uniq(sts):
    seen, r = set(), []
    for d, s in sts:
        k = frozenset((a.n, v.n) for a, v in s.items())
        if k not in seen:
            seen.add(k)
            r.append((d, s))
    return r
