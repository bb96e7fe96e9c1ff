"""Loops, what they traverse, what they emit; paths between program points."""
from . import terms as t
from .terms import T, C, raw, ZERO, ONE, add, sub, size, lin_parts


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = {header}
        self.back = []
        self.entry = []
        self.exits = []     # (block, succ index, target block id)
        self.parent = None


class Loops:
    def __init__(self, I):
        self.I = I
        B = I.blocks
        self.edge_ok = lambda b, i: (b, i) in I.out or b not in I.reach
        self.loops = {}
        pred = {}
        for b in I.rpo:
            if b.id not in I.reach:
                continue
            for i, s in enumerate(b.succ):
                if (b.id, i) in I.out:
                    pred.setdefault(s.id, []).append((b.id, i))
        self.pred = pred
        self.succ = {}
        for d, es in pred.items():
            for (b, i) in es:
                self.succ.setdefault(b, []).append((d, i))
        for h in I.headers:
            if h not in I.reach:
                continue
            backs = [e for e in pred.get(h, ()) if e in I.backedge]
            if not backs:
                continue
            L = Loop(h)
            L.back = backs
            L.entry = [e for e in pred.get(h, ()) if e not in I.backedge]
            st = [e[0] for e in backs]
            while st:
                x = st.pop()
                if x in L.body:
                    continue
                L.body.add(x)
                st += [p for p, _ in pred.get(x, ())]
            for b in L.body:
                for d, i in self.succ.get(b, ()):
                    if d not in L.body:
                        L.exits.append((b, i, d))
            L.exits.sort()
            self.loops[h] = L
        for h, L in self.loops.items():
            ps = [M for g, M in self.loops.items() if g != h and h in M.body]
            if ps:
                L.parent = min(ps, key=lambda m: len(m.body)).header

    def of_block(self, b):
        """innermost loop containing the block"""
        ls = [L for L in self.loops.values() if b in L.body]
        return min(ls, key=lambda m: len(m.body)) if ls else None

    def enclosing(self, b):
        return sorted([L for L in self.loops.values() if b in L.body], key=lambda m: len(m.body))

    # ------------------------------------------------------------ counters
    def leaves(self, v, stop, seen=None):
        """values a join phi can have (through non-header phis inside the loop)"""
        I = self.I
        if seen is None:
            seen = set()
        if v in seen:
            return []
        seen.add(v)
        if v is stop:
            return [v]
        if v.op == 'phi' and v in I.phis and v.a[0] not in I.headers:
            r = []
            for e, x in I.phis[v].items():
                if e in I.out:
                    r += self.leaves(x, stop, seen)
            return r
        return [v]

    def counter(self, ph):
        """loop phi -> (init values, step) when every iteration adds the same constant"""
        I = self.I
        L = self.loops.get(ph.a[0])
        if L is None or ph not in I.phis:
            return None
        ops = I.phis[ph]
        init = [ops[e] for e in L.entry if e in ops]
        steps = set()
        for e in L.back:
            if e not in ops:
                return None
            for v in self.leaves(ops[e], ph):
                d = sub(v, ph)
                if d.op != 'c':
                    return None
                steps.add(d.a[0])
        if len(steps) != 1 or not init or any(v is not init[0] for v in init):
            return None
        return init[0], steps.pop()

    def counters(self, L):
        r = []
        for ph in self.I.phis:
            if ph.a[0] == L.header:
                c = self.counter(ph)
                if c is not None and c[1] != 0:
                    r.append((ph, c[0], c[1]))
        return r

    def traversals(self, L):
        """containers this loop walks from the first to the last element: [(container, position, exit edges)].
        The position is the loop's counter (vectors) or position phi (maps)."""
        I = self.I
        res = []
        for ph, init, step in self.counters(L):
            if step != 1 or init is not ZERO:
                continue
            for b, i, d in L.exits:
                f = I.out.get((b, i))
                if f is None:
                    continue
                for a, pol in [x for x in f[1] if x[0] != 'sel']:
                    if a.op != 'ge0' or pol:
                        continue
                    c, dd = lin_parts(a.a[0])
                    # not (size - i - 1 >= 0)
                    if c == -1 and dd.get(ph) == -1 and len(dd) == 2:
                        o = [k for k in dd if k is not ph][0]
                        if dd[o] == 1:
                            res.append((o, ph, (b, i)))
        for ph, ops in I.phis.items():
            if ph.a[0] == L.header and isinstance(ph.a[1], T) and ph.a[1].op == 'pos':
                init = [ops[e] for e in L.entry if e in ops]
                if len(init) == 1 and init[0].op == 'mbegin':
                    ok = True
                    for e in L.back:
                        for v in self.leaves(ops.get(e, ph), ph):
                            if not (v.op == 'mpos' and v.a[0] is ph and v.a[1] is ONE):
                                ok = False
                    if ok:
                        for b, i, d in L.exits:
                            f = I.out.get((b, i))
                            for a, pol in [x for x in (f[1] if f else ()) if x[0] != 'sel']:
                                if a.op == 'eq' and pol and ph in a.a and any(z.op == 'pend' for z in a.a):
                                    res.append((size(init[0].a[0]), ph, (b, i)))
        out = []
        for n, ph, e in res:
            if not any(n is x[0] and ph is x[1] and e == x[2] for x in out):
                out.append((n, ph, e))
        return out

    # ------------------------------------------------------------ emissions
    def emissions(self, v, ph, facts=frozenset(), depth=0):
        """v as a sequence appended to ph: list of (facts, [items]); None when it is something else.
        item: ('one', x) | ('seq', s) | ('at', i, x) | ('loop', header, alternatives, inner phi)"""
        I = self.I
        if depth > 40:
            return None
        if v is ph:
            return [(facts, [])]
        if v.op == 'push':
            r = self.emissions(v.a[0], ph, facts, depth + 1)
            return None if r is None else [(f, x + [('one', v.a[1])]) for f, x in r]
        if v.op == 'cat':
            r = self.emissions(v.a[0], ph, facts, depth + 1)
            return None if r is None else [(f, x + [('seq', v.a[1])]) for f, x in r]
        if v.op == 'upd':
            r = self.emissions(v.a[0], ph, facts, depth + 1)
            return None if r is None else [(f, x + [('at', v.a[1], v.a[2])]) for f, x in r]
        if v.op == 'phi' and v in I.phis:
            b = v.a[0]
            if b not in I.headers:
                r = []
                for e, x in I.phis[v].items():
                    if e not in I.out:
                        continue
                    y = self.emissions(x, ph, facts | I.out[e][1], depth + 1)
                    if y is None:
                        return None
                    r += y
                return r
            L = self.loops.get(b)
            if L is None:
                return None
            ops = I.phis[v]
            pre = None
            for e in L.entry:
                if e in ops:
                    pre = self.emissions(ops[e], ph, facts, depth + 1)
            if pre is None:
                return None
            inner = []
            for e in L.back:
                y = self.emissions(ops[e], v, I.out[e][1], depth + 1)
                if y is None:
                    return None
                inner += y
            return [(f, x + [('loop', b, inner, v)]) for f, x in pre]
        return None

    def accumulation(self, ph):
        """loop phi of a container -> (init value, alternatives per iteration)"""
        I = self.I
        L = self.loops.get(ph.a[0])
        if L is None or ph not in I.phis:
            return None
        ops = I.phis[ph]
        init = [ops[e] for e in L.entry if e in ops]
        if not init or any(x is not init[0] for x in init):
            return None
        alts = []
        for e in L.back:
            if e not in ops:
                return None
            y = self.emissions(ops[e], ph, I.out[e][1])
            if y is None:
                return None
            alts += y
        return init[0], alts, L

    def returning(self):
        """blocks from which a normal return can be reached"""
        if not hasattr(self, '_ret'):
            src = {e.ins.blk for e in self.I.events if e.kind == 'return' and not e.ins.stack}
            pr = self.pred
            seen, st = set(), list(src)
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += [p for p, _ in pr.get(x, ())]
            self._ret = seen
        return self._ret

    def exits(self, L, but=None):
        """ways out of a loop other than `but` that do not end in an exception"""
        r = self.returning()
        return [(b, i) for b, i, d in L.exits if (b, i) != but and d in r]

    # ------------------------------------------------------------ paths
    def path(self, src, dst, avoid=(), within=None):
        """is there a path from just after src to one of dst not passing avoid?  Points are (block, index); a block
        end is (block, 10**9).  Returns the list of blocks or None."""
        dst, avoid = set(dst), set(avoid)
        db, ab = {}, {}
        for b, p in dst:
            db.setdefault(b, []).append(p)
        for b, p in avoid:
            ab.setdefault(b, []).append(p)
        seen = set()
        st = [(src[0], src[1], (src[0],))]
        while st:
            b, p, tr = st.pop()
            d = min([x for x in db.get(b, ()) if x > p], default=None)
            a = min([x for x in ab.get(b, ()) if x > p], default=None)
            if d is not None and (a is None or d < a):
                return tr
            if a is not None:
                continue
            for s, i in self.succ.get(b, ()):
                if within is not None and s not in within:
                    continue
                if s not in seen:
                    seen.add(s)
                    st.append((s, -1, tr + (s,)))
        return None
