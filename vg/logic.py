"""Deriving facts from facts: linear integer arithmetic, case split over join phis, induction over loop phis."""
from . import terms as t
from .terms import T, C, raw, ZERO, ONE, TRUE, FALSE, add, sub, size, lin_parts
from .interp import root_all

SMART = {
    'ge0': lambda a: t.ge0(a[0]), 'eq': lambda a: t.eq(*a), 'not': lambda a: t.not_(a[0]), 'has': lambda a: t.has(*a),
    'get': lambda a: t.get(*a), 'size': lambda a: t.size(a[0]), 'idx': lambda a: t.index(*a), 'push': lambda a: t.push(*a),
    'fill': lambda a: t.fill(*a), 'sub': lambda a: t.subr(*a), 'cat': lambda a: t.cat(*a), 'getf': lambda a: t.getf(*a),
    'mval': lambda a: t.get(a[0], a[1].a[-1]) if a[1].op in ('find', 'kp') else raw('mval', *a),
    'mkey': lambda a: a[1].a[-1] if a[1].op in ('find', 'kp') else raw('mkey', *a),
    'flt': lambda a: t.flt(*a), 'mul': lambda a: t.mul(*a), 'setf': lambda a: t.setf(*a),
}


def rebuild(x, mp, memo=None):
    """x with some leaves replaced, normalised again"""
    if memo is None:
        memo = {}
    r = mp.get(x)
    if r is not None:
        return r
    r = memo.get(x)
    if r is not None:
        return r
    if x.op in ('phi', 'c', 'var', 'str', 'hav', 'ext', 'new') or not x.a or x.op == 'init' and not t.phis(x):
        memo[x] = x
        return x
    if x.op == 'lin':
        r = C(x.a[0])
        ch = False
        for k, v in zip(x.a[1::2], x.a[2::2]):
            k2 = rebuild(k, mp, memo)
            ch = ch or k2 is not k
            r = add(r, t.mul(C(v), k2))
        if not ch:
            r = x
    else:
        a = [rebuild(y, mp, memo) if isinstance(y, T) else y for y in x.a]
        if all(p is q for p, q in zip(a, x.a)):
            r = x
        elif x.op == 'cnt':
            h = t.has(*a)
            r = C(int(h.a[0])) if h.op == 'c' else raw('cnt', *a)
        elif x.op in SMART:
            r = SMART[x.op](a)
        elif x.op in ('min', 'max') and all(y.op == 'c' for y in a):
            r = C((min if x.op == 'min' else max)(y.a[0] for y in a))
        elif x.op in ('min', 'max'):
            r = a[0] if a[0] is a[1] else raw(x.op, *sorted(a, key=lambda z: z.n))
        else:
            r = raw(x.op, *a)
    memo[x] = r
    return r


def phis(x):
    return t.phis(x)


class Logic:
    def __init__(self, I, hyps=(), budget=4000):
        self.I = I
        I.activate()
        self.hyps = frozenset(hyps)
        self.budget0 = budget
        self.byblk = {}
        for p in I.phis:
            self.byblk.setdefault(p.a[0], []).append(p)
        self.defmemo = {}
        self._loops = None
        self.floor = None       # term -> known lower bound or None

    # ------------------------------------------------------------ interface
    def proves(self, facts, goal, depth=6):
        """goal (a boolean term) follows from facts"""
        self.I.activate()
        self.budget = self.budget0
        return self._pr(frozenset(facts) | self.hyps, goal, depth, frozenset())

    def proves_eq(self, facts, x, y, depth=6):
        if x is y:
            return True
        return self.proves(facts, t.eq(x, y), depth)

    def at(self, ev, goal, depth=6):
        return self.proves(ev.facts, goal, depth)

    # ------------------------------------------------------------ proving
    def _pr(self, facts, goal, depth, busy):
        self.budget -= 1
        if self.budget < 0:
            return False
        at, pol = t.atom(goal)
        if at.op == 'c':
            return bool(at.a[0]) == pol
        d = self.quick(facts, at)
        if d is not None:
            return d == pol
        if depth <= 0:
            return False
        # numeric equality: both inequalities
        if at.op == 'eq' and at.a[1] is ZERO and pol:
            if self.lin(facts, t.ge0(at.a[0])) and self.lin(facts, t.ge0(t.neg(at.a[0]))):
                return True
        if at.op == 'ge0':
            if self.lin(facts, goal):
                return True
        if at.op == 'eq' and at.a[1] is ZERO and not pol:
            if self.lin(facts, t.ge0(add(at.a[0], C(-1)))) or self.lin(facts, t.ge0(add(t.neg(at.a[0]), C(-1)))):
                return True
        # split
        ps = [p for p in phis(goal) if p in self.I.phis]
        if not ps:
            return False
        num = self.I.num
        for b in sorted({p.a[0] for p in ps}, key=lambda x: -num.get(x, 0)):
            key = (b, at, pol)
            if key in busy:
                continue
            if self.split(facts, goal, b, depth, busy | {key}):
                return True
        return False

    def edges(self, b, facts):
        es = [e for e in self.I.blocks[b].pred if e in self.I.out]
        for f in facts:
            if f[0] == 'sel' and f[1] == b:
                es = [e for e in es if e in f[2]]
        return es

    def subst_map(self, b, e):
        m = {}
        for p in self.byblk.get(b, ()):
            ops = self.I.phis.get(p)
            if ops and e in ops:
                m[p] = ops[e]
        return m

    def subst_facts(self, facts, mp, memo, b):
        """-> set of facts, or None when contradictory"""
        r = set()
        for f in facts:
            if f[0] == 'sel':
                if f[1] != b:
                    r.add(f)
                continue
            a, pol = f
            a2 = rebuild(a, mp, memo)
            if a2 is a:
                r.add(f)
                continue
            a2, p2 = t.atom(a2 if pol else t.not_(a2))
            if a2.op == 'c':
                if bool(a2.a[0]) != p2:
                    return None
                continue
            r.add((a2, p2))
        return r

    def split(self, facts, goal, b, depth, busy, hyp=None):
        I = self.I
        header = b in I.headers
        es = self.edges(b, facts)
        if not es:
            return False
        if header and hyp is None:
            # told by which way the round was entered: no induction over that way alone
            every = [e for e in I.blocks[b].pred if e in I.out]
            if len(es) < len(every):
                return self.split(facts, goal, b, depth, busy, (es, False)) or self.split(facts, goal, b, depth, busy, (every, True))
            hyp = (es, True)
        es = hyp[0] if hyp else es
        # loops whose symbols stand for an earlier round by now: what is known outside of them is of the last round
        past = set()
        for x in busy:
            if x[0] == 'past' and b not in self.loopbody(x[1]):
                past |= self.loopbody(x[1])
        if header:
            body = self.loopbody(b)
            own = set(self.byblk.get(b, ()))
            if any(set(self.defs1(y)) & body for y in t.walk(goal) if y not in own):
                return False
        for e in es:
            mp = self.subst_map(b, e)
            memo = {}
            g2 = rebuild(goal, mp, memo)
            ef = I.out[e][1]
            if past:
                if g2 is not goal and any(self.defs(mp[y]) & past for y in t.walk(goal) if y in mp):
                    return False
                ef = frozenset(f for f in ef if not (f[1] in past if f[0] == 'sel' else self.defs(f[0]) & past))
            back = e in I.backedge
            if header:
                # induction: carried along are the goal and what is known of values made outside the loop
                f2 = set(ef) | self.hyps | self.outside(facts, b)
                if back and hyp[1]:
                    at, pol = t.atom(goal)
                    f2.add((at, pol))
                g = g2
            else:
                f2 = self.subst_facts(facts, mp, memo, b)
                if f2 is None:
                    continue
                f2 |= ef
                g = g2
            if self.contradictory(f2):
                continue
            if not self._pr(frozenset(f2), g, depth - 1, busy | {('past', b, 0)} if back else busy):
                return False
        return True

    def defs1(self, y):
        return self.defs(y) if not [x for x in y.a if isinstance(x, T)] or y.op in ('phi', 'hav', 'ext', 'opq', 'stream', 'sstr') else ()

    def loopbody(self, b):
        if self._loops is None:
            from .loops import Loops
            self._loops = Loops(self.I).loops
        L = self._loops.get(b)
        return L.body if L else {b}

    def outside(self, facts, b):
        body = self.loopbody(b)
        r = set()
        for f in facts:
            if f[0] == 'sel':
                if f[1] not in body:
                    r.add(f)
            elif not (self.defs(f[0]) & body):
                r.add(f)
        return r

    def defs(self, x):
        """blocks in which the symbols of a term get their value"""
        r = self.defmemo.get(x)
        if r is None:
            r = set()
            for y in t.walk(x):
                if y.op in ('phi', 'hav', 'ext', 'opq', 'stream', 'sstr'):
                    r |= {z for z in y.a[:1] if isinstance(z, int)} | {z for z in y.a[1:3] if isinstance(z, int) and y.op != 'phi'}
                elif y.op in ('rcall', 'sstate', 'new', 'var', 'bot', 'bot2'):
                    r |= {z for z in y.a if isinstance(z, int)} if y.op in ('rcall', 'sstate') else set()
            r = frozenset(r)
            self.defmemo[x] = r
        return r

    def contradictory(self, fs):
        for f in fs:
            if f[0] != 'sel' and (f[0], not f[1]) in fs:
                return True
        return False

    def quick(self, facts, at):
        if (at, True) in facts:
            return True
        if (at, False) in facts:
            return False
        if at.op == 'prefix':
            x, y = at.a
            if x is y or x is t.EMPTY:
                return True
            e = t.eq(x, y)
            if (e, True) in facts:
                return True
        if at.op == 'has':
            m, k = at.a
            # additions keep what is there
            while m.op in ('ins', 'put', 'updkey', 'ens', 'try'):
                if m.a[1] is k:
                    return True
                m = m.a[0]
                if (raw('has', m, k), True) in facts:
                    return True
        return None

    # ------------------------------------------------------------ linear arithmetic
    def constraints(self, facts):
        cs = []
        dis = []
        for f in facts:
            if f[0] == 'sel':
                continue
            a, pol = f
            if a.op == 'ge0':
                c, d = lin_parts(a.a[0])
                if pol:
                    cs.append((c, d))
                elif isint(c, d):
                    cs.append((-c - 1, {k: -v for k, v in d.items()}))
            elif a.op == 'eq':
                l = a.a[0] if a.a[1] is ZERO else sub(a.a[0], a.a[1]) if numlike(a.a[0]) and numlike(a.a[1]) else None
                if l is None:
                    continue
                c, d = lin_parts(l)
                if pol:
                    cs.append((c, d))
                    cs.append((-c, {k: -v for k, v in d.items()}))
                else:
                    dis.append((c, d))
        return cs, dis

    def lin(self, facts, goal):
        """linear entailment of ge0 goal (or negated)"""
        at, pol = t.atom(goal)
        if at.op == 'c':
            return bool(at.a[0]) == pol
        if at.op != 'ge0':
            return False
        c, d = lin_parts(at.a[0])
        if pol:
            if not isint(c, d):
                neg = (-c, {k: -v for k, v in d.items()})       # l <= 0, weaker: only for floats
            else:
                neg = (-c - 1, {k: -v for k, v in d.items()})
        else:
            neg = (c, d)
        cs, dis = self.constraints(facts)
        # keep what is connected to the goal
        vs = set(neg[1])
        cs = cs + self.axioms(cs, vs)
        use, rest = [neg], list(cs)
        grew = True
        while grew and len(use) < 60:
            grew = False
            for x in list(rest):
                if any(k in vs for k in x[1]):
                    use.append(x)
                    rest.remove(x)
                    vs |= set(x[1])
                    grew = True
        for k in list(vs):
            if t.nonneg(k):
                use.append((0, {k: 1}))
        if infeasible(use):
            return True
        for c2, d2 in dis:
            if all(k in vs for k in d2):
                if infeasible(use + [(c2 - 1, dict(d2))]) and infeasible(use + [(-c2 - 1, {k: -v for k, v in d2.items()})]):
                    return True
        return False

    def axioms(self, cs, vs):
        """defining properties of the terms involved"""
        r = []
        seen = set()
        todo = set(vs)
        for _, d in cs:
            todo |= set(d)
        st = list(todo)
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if self.floor is not None:
                fl = self.floor(k)
                if fl is not None:
                    r.append((-fl, {k: 1}))
            if k.op == 'min':
                for x in k.a:
                    c, d = lin_parts(sub(x, k))
                    r.append((c, d))
                    st += list(d)
            elif k.op == 'max':
                for x in k.a:
                    c, d = lin_parts(sub(k, x))
                    r.append((c, d))
                    st += list(d)
            elif k.op == 'lb':
                lo, hi = k.a[2], k.a[3]
                for l in (sub(k, lo), sub(hi, k)):
                    c, d = lin_parts(l)
                    r.append((c, d))
                    st += list(d)
            elif k.op == 'b%':
                if t.nonneg(k.a[1]) or True:
                    c, d = lin_parts(add(sub(k.a[1], k), C(-1)))
                    if t.nonneg(k.a[1]):
                        r.append((c, d))
                        st += list(d)
            elif k.op == 'size' and k.a[0].op in ('ins', 'put', 'ens', 'try'):
                x = k.a[0].a[0]
                c, d = lin_parts(sub(k, size(x)))
                r.append((c, d))
                st += list(d)
        return r


def isint(c, d):
    return isinstance(c, int) and all(isinstance(v, int) for v in d.values())


def numlike(x):
    return x.op in ('c', 'lin', 'size', 'idx', 'arg', 'phi', 'cnt', 'get', 'mul', 'init', 'getf') and x is not t.EMPTY


def infeasible(cs, limit=400):
    """Fourier-Motzkin over the rationals: no solution of all (c + sum d >= 0)"""
    seen = set()
    work = []
    for c, d in cs:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c < 0:
                return True
            continue
        key = (c, tuple(sorted((k.n, v) for k, v in d.items())))
        if key not in seen:
            seen.add(key)
            work.append((c, d))
    while True:
        vs = {}
        for c, d in work:
            for k, v in d.items():
                p = vs.setdefault(k, [0, 0])
                p[v > 0] += 1
        if not vs:
            return False
        k = min(vs, key=lambda z: (vs[z][0] * vs[z][1] - vs[z][0] - vs[z][1], z.n))
        pos = [x for x in work if x[1].get(k, 0) > 0]
        neg = [x for x in work if x[1].get(k, 0) < 0]
        work = [x for x in work if k not in x[1]]
        seen = {(c, tuple(sorted((y.n, v) for y, v in d.items()))) for c, d in work}
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = -d2[k], d1[k]
                d = {}
                for y, v in d1.items():
                    d[y] = d.get(y, 0) + a * v
                for y, v in d2.items():
                    d[y] = d.get(y, 0) + b * v
                d = {y: v for y, v in d.items() if v}
                c = a * c1 + b * c2
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                from math import gcd
                for v in d.values():
                    if isinstance(v, int):
                        g = gcd(g, v)
                    else:
                        g = 1
                        break
                if g > 1:
                    d = {y: v // g for y, v in d.items()}
                    c = c // g if isinstance(c, int) else c / g
                key = (c, tuple(sorted((y.n, v) for y, v in d.items())))
                if key not in seen:
                    seen.add(key)
                    work.append((c, d))
        if len(work) > limit:
            return False
