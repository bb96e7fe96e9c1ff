"""Forward dataflow over the lowered graph: every variable, field and container gets a value term (global value
numbering over SSA with memory); every block gets the branch facts that hold there."""
from . import terms as t
from .terms import T, C, raw, TRUE, FALSE, ZERO, ONE, NULL, UNDEF, EMPTY, add, sub, size, atom, root

VEC = {'std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::deque', 'std::list', 'std::array', 'std::initializer_list'}
MAP = {'std::unordered_map', 'std::map'}
SET = {'std::unordered_set', 'std::set'}
PTRC = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'}
PURE = {'log', 'log2', 'log10', 'log1p', 'exp', 'sqrt', 'pow', 'abs', 'fabs', 'tolower', 'toupper', 'isalnum', 'isalpha', 'isdigit', 'isspace',
        'ispunct', 'to_string', 'stoi', 'floor', 'ceil', 'islower', 'isupper', 'lowest', 'max', 'min', 'infinity', 'epsilon', 'round', 'hash', 'isfinite', 'isnan', 'isinf'}
STREAMS = ('std::basic_ostream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_istream', 'std::basic_fstream', 'std::basic_ios',
           'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::__cxx11::basic_stringstream',
           'std::__cxx11::basic_ostringstream', 'std::__cxx11::basic_istringstream', 'std::basic_iostream', 'std::ios_base')


def isit(ty):
    r = ty.get('rc') or ''
    return 'iterator' in r or 'Iterator' in r


class Ev:
    __slots__ = ('kind', 'a', 'r', 'x', 'facts', 'ins', 'addr', 'old', 'new', 'key', 'val', 'idx', 'c', 'how', 'blk', 'mem')

    def __init__(self, kind, ins, facts, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind, self.ins, self.facts = kind, ins, facts
        self.blk = ins.blk
        for f, v in k.items():
            setattr(self, f, v)

    @property
    def loc(self):
        return self.ins.loc

    @property
    def fn(self):
        return self.ins.fn

    @property
    def pos(self):
        return (self.ins.blk, self.ins.pos)

    def __repr__(self):
        return '<%s %s %s a=%s r=%s>' % (self.kind, self.how or (self.x or {}).get('name', ''), self.loc.rsplit('/', 1)[-1], self.a, self.r)


class Interp:
    def __init__(self, L, assume=None, maxpass=100, keepmem=False):
        self.L, self.P = L, L.P
        self.assume = assume or {}
        self.tv = {}
        self.phis = {}          # phi term -> {pred: value}
        self.out = {}           # (block, succ index) -> (mem, facts) ; missing = not reached
        self.events = None
        self.blockfacts = {}
        self.inmem = {}
        self.keepmem = keepmem
        self.maxpass = maxpass
        self.cachelits()
        self.prepare()
        self.run()

    # ------------------------------------------------------------ graph
    def prepare(self):
        L = self.L
        seen, order = set(), []
        st = [(L.entryblk, iter(L.entryblk.succ))]
        seen.add(L.entryblk.id)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(s.succ)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.num = {b.id: i for i, b in enumerate(order)}
        self.blocks = {b.id: b for b in order}
        for b in order:
            b.pred = []
        for b in order:
            for i, s in enumerate(b.succ):
                s.pred.append((b.id, i))
        for b in order:
            for i, ins in enumerate(b.ins):
                ins.blk, ins.pos = b.id, i
        self.backedge = {(b.id, i) for b in order for i, s in enumerate(b.succ) if self.num[s.id] <= self.num[b.id]}
        self.headers = {s.id for b in order for i, s in enumerate(b.succ) if (b.id, i) in self.backedge}

    def cachelits(self):
        c = getattr(self.P, '_lits', None)
        if c is None:
            c = {}
            for q, g in self.P.globals.items():
                e = g.get('init')
                while e is not None and e['k'] in ('mat', 'definit', 'cast') and e.get('e'):
                    e = e['e']
                if e is not None and e['k'] == 'lit' and (g['const'] or g.get('constexpr')):
                    c[('G', q)] = C(float(e['v'])) if g['t'].get('flt') else C(e['v'])
            # const fields with a literal initialiser that no constructor overrides
            over = set()
            for f in self.P.functions.values():
                for i in f.get('inits', ()):
                    if 'f' in i and i.get('written'):
                        over.add((f['fn'].get('cls'), i['f']))
            for q, r in self.P.records.items():
                for f in r['fields']:
                    e = f.get('init')
                    if e is None or not f['t'].get('const') or f['t'].get('ptr') or (q, f['n']) in over:
                        continue
                    while e['k'] in ('mat', 'definit', 'cast') and e.get('e'):
                        e = e['e']
                    if e['k'] == 'lit':
                        c[('F', f['n'])] = C(float(e['v'])) if f['t'].get('flt') else C(e['v'])
            self.P._lits = c
        self.lits = c

    def run(self):
        """to a fixpoint; joins that turn out to have a single value are dropped and the rest is done again"""
        self.total = 0
        keys, ban, never = set(), set(), set()
        for attempt in range(8):
            self.phikeys = set(keys)
            self.ban, self.banops = ban, {}
            self.phis, self.out, self.tv = {}, {}, {}
            self.blockfacts = {}
            self.nonneg = t.NONNEG_PHI = set()
            self.neveragain = set()
            self.entrysig = {}
            self.fixpoint()
            bad = {k for k in ban if k in self.banops and not self.agree(self.banops[k])}
            never |= bad
            triv = self.trivial() - never
            if not bad and (not triv or attempt >= 4):
                break
            ban = set() if attempt >= 6 else (ban | triv) - bad
            keys = self.phikeys - triv
        n = self.total
        self.passes = n
        self.events = []
        for b in self.rpo:
            if b.id == self.L.entryblk.id or any((p, i) in self.out for p, i in b.pred):
                self.do_block(b, final=True)
        self.finish()

    def agree(self, ops):
        vs = [v for e, v in ops.items() if e in self.out]
        return all(v is vs[0] for v in vs)

    def trivial(self):
        """keys of joins whose operands, apart from themselves, are one value"""
        val = {}

        def res(v):
            seen = set()
            while v in val and v not in seen:
                seen.add(v)
                v = val[v]
            return v
        grew = True
        while grew:
            grew = False
            for p, ops in self.phis.items():
                if p in val or (p.a[0], p.a[1]) not in self.phikeys:
                    continue
                vs = {res(v) for e, v in ops.items() if e in self.out} - {p}
                if len(vs) == 1:
                    val[p] = vs.pop()
                    grew = True
        return {(p.a[0], p.a[1]) for p in val}

    def fixpoint(self):
        n = 0
        self.monotone = False
        allb = {b.id for b in self.rpo}
        self.converged = False
        while n < self.maxpass:
            # to a fixpoint, then once more over everything until a whole sweep changes nothing
            self.dirty = set(allb)
            self.changed = False
            while self.dirty and n < self.maxpass:
                n += 1
                self.monotone = n > self.maxpass // 2
                for b in self.rpo:
                    if b.id in self.dirty:
                        self.dirty.discard(b.id)
                        self.do_block(b)
            if not self.changed and not self.dirty:
                self.converged = True
                break
        self.total += n

    # ------------------------------------------------------------ joins
    def initial(self, k):
        if self.assume:
            v = self.assume.get(k)
            if v is not None:
                return v
        r = root(k)
        if r.op == 'sfld':
            r = root_all(k)
        if r.op == 'new':
            return UNDEF
        if r.op == 'var' and not (len(r.a) > 1 and r.a[1] == 'G'):
            return UNDEF
        if k.op == 'var':
            v = self.lits.get(('G', k.a[0]))
            if v is not None:
                return v
        if k.op == 'fld':
            v = self.lits.get(('F', k.a[1]))
            if v is not None:
                return v
        return raw('init', k)

    def join(self, b):
        ins = [(p, i) for p, i in b.pred if (p, i) in self.out]
        if b.id == self.L.entryblk.id:
            return {}, frozenset()
        if not ins:
            return None
        if len(ins) == 1 and b.id not in self.headers:
            m, f = self.out[ins[0]]
            return dict(m), f
        mems = [self.out[e][0] for e in ins]
        facts = frozenset.intersection(*[self.out[e][1] for e in ins])
        res = {}
        for k in [k for k in self.banops if k[0] == b.id]:
            del self.banops[k]
        keys = set(mems[0])
        for m in mems[1:]:
            keys |= set(m)
        for k in keys:
            vals = [m.get(k) for m in mems]
            v0 = vals[0]
            if v0 is not None and all(v is v0 for v in vals) and (b.id, k) not in self.phikeys:
                res[k] = v0
                continue
            if any(v is None for v in vals):
                r = root_all(k)
                if r.op == 'new':
                    vals = [v for v in vals if v is not None]
                    if all(v is vals[0] for v in vals) and (b.id, k) not in self.phikeys:
                        res[k] = vals[0]
                        continue
                    x = iter(vals)
                    ops = {e: m[k] for e, m in zip(ins, mems) if k in m}
                    res[k] = self.mkphi(b.id, k, ops)
                    continue
                if r.op == 'var' and not (len(r.a) > 1 and r.a[1] == 'G'):
                    continue
                vals = [self.initial(k) if v is None else v for v in vals]
                if all(v is vals[0] for v in vals) and (b.id, k) not in self.phikeys:
                    res[k] = vals[0]
                    continue
            res[k] = self.mkphi(b.id, k, dict(zip(ins, vals)))
        return res, facts

    phikeys = None

    def mkphi(self, bid, k, ops):
        vs = list(ops.values())
        if (bid, k) in self.ban:
            # known from an earlier attempt to be one value; run() checks this again at the end
            self.banops[(bid, k)] = ops
            fw = [e for e in ops if e not in self.backedge] or list(ops)
            return ops[min(fw, key=lambda e: self.num[e[0]])]
        # iterators into the same container: join the positions
        if all(v.op == 'it' for v in vs) and all(v.a[0] is vs[0].a[0] for v in vs):
            return raw('it', vs[0].a[0], self.mkphi(bid, raw('pos', k), {e: v.a[1] for e, v in ops.items()}))
        if all(v.op == 'it' or (v.op == 'phi' and v.a == (bid, k)) for v in vs) and any(v.op == 'it' for v in vs):
            pass
        self.phikeys.add((bid, k))
        ph = raw('phi', bid, k)
        self.phis[ph] = ops
        if ph not in self.neveragain:
            if all(t.nonneg(v) or v is ph or (v.op == 'lin' and self.selfinc(v, ph)) for v in vs):
                self.nonneg.add(ph)
            elif ph in self.nonneg:
                self.nonneg.discard(ph)
                self.neveragain.add(ph)
                self.changed = True
        return ph

    def activate(self):
        t.NONNEG_PHI = self.nonneg

    @staticmethod
    def selfinc(v, ph):
        c, d = t.lin_parts(v)
        return c >= 0 and d.get(ph) == 1 and all(x > 0 and (k is ph or t.nonneg(k)) for k, x in d.items())

    # ------------------------------------------------------------ blocks
    def do_block(self, b, final=False):
        if b.id in self.headers and not final and not self.monotone:
            # what went round the loop under other entry values says nothing about these
            sig = [self.out.get(e) for e in b.pred if e not in self.backedge]
            old = self.entrysig.get(b.id)
            self.entrysig[b.id] = sig
            if old is not None and (len(old) != len(sig) or any(x is not y for x, y in zip(old, sig))):
                for e in b.pred:
                    if e in self.backedge and e in self.out:
                        del self.out[e]
                        self.dirty.add(e[0])
                        self.changed = True
        j = self.join(b)
        if j is None:
            return
        mem, facts = j
        self.mem, self.facts, self.final, self.blkid = mem, facts, final, b.id
        if final:
            self.blockfacts[b.id] = facts
            if self.keepmem:
                self.inmem[b.id] = dict(mem)
        for ins in b.ins:
            self.step(ins)
        if final:
            if b.term and b.term[0] == 'br':
                self.log('br', b.ins[-1] if b.ins else Dummy(b), a=(self.val(b.term[1]),))
            return
        outs = {}
        tm = b.term
        if tm[0] == 'br':
            c = self.val(tm[1])
            at, pol = atom(self.truth(c))
            known = self.known(at)
            if at.op == 'c':
                known = bool(at.a[0])
            for i in (0, 1):
                want = (i == 0) == pol
                if known is not None and known != want:
                    continue
                f = self.facts
                if at.op != 'c':
                    f = self.learn(f, at, want)
                outs[i] = (mem, f)
        elif tm[0] in ('jmp', 'any'):
            for i in range(len(b.succ)):
                outs[i] = (mem, self.facts)
        for i, s in enumerate(b.succ):
            k = (b.id, i)
            new = outs.get(i)
            old = self.out.get(k)
            if new is None:
                if old is not None and not self.monotone:
                    del self.out[k]
                    self.dirty.add(s.id)
                    self.changed = True
                continue
            if self.monotone and old is not None and old[1] != new[1]:
                new = (new[0], old[1] & new[1])
            if old is None or old[1] != new[1] or not same(old[0], new[0]):
                self.out[k] = new
                self.dirty.add(s.id)
                self.changed = True

    def learn(self, f, at, pol):
        s = set(f)
        s.add((at, pol))
        # which edge did a phi come from
        for ph in phis_in(at):
            ops = self.phis.get(ph)
            if not ops or len(ops) > 12:
                continue
            ok = []
            for e, v in ops.items():
                r = subst(at, ph, v)
                if r is None:
                    ok.append(e)
                    continue
                ra, rp = atom(r)
                if ra.op == 'c':
                    if bool(ra.a[0]) == (pol == rp):
                        ok.append(e)
                else:
                    # contradicted by what held on that edge?
                    fe = self.out.get(e)
                    if fe is not None and (ra, not (pol == rp)) in fe[1]:
                        continue
                    ok.append(e)
            if ok and len(ok) < len(ops):
                s.add(('sel', ph.a[0], frozenset(ok)))
                if ph.a[0] not in self.headers:
                    fs = [self.out[e][1] for e in ok if e in self.out]
                    if fs:
                        s |= set(frozenset.intersection(*fs))
        return frozenset(s)

    def truth(self, c):
        """int/pointer value used as a condition"""
        if c.op in t.BOOLOPS or c.op in ('c', 'phi', 'cnt', 'raw'):
            return c
        if c.op == 'null':
            return FALSE
        if c.op == 'ptr' or c.op == 'this':
            return TRUE
        return c

    def known(self, at):
        if (at, True) in self.facts:
            return True
        if (at, False) in self.facts:
            return False
        if at.op == 'ge0':
            return self.entails(self.facts, at)
        return None

    def entails(self, facts, at):
        """does some fact decide ge0(l)?"""
        l = at.a[0]
        c, d = t.lin_parts(l)
        for f in facts:
            if f[0] == 'sel':
                continue
            a, pol = f
            if a.op != 'ge0':
                continue
            c2, d2 = t.lin_parts(a.a[0])
            if pol:
                # a: l2 >= 0 ; l = l2 + k, k >= 0
                if d2 == d and c >= c2:
                    return True
                # l2 >= 0 and l = -l2 - k, k > 0
                if len(d2) == len(d) and all(d2.get(k) == -v for k, v in d.items()) and c + c2 < 0:
                    return False
        return None

    def val(self, o):
        if isinstance(o, T):
            return o
        v = self.tv.get(o)
        return v if v is not None else raw('bot', o)

    # ------------------------------------------------------------ memory
    def load(self, a, cls=None):
        m = self.mem
        if cls is not None and a.op not in ('el', 'mv', 'mel', 'sfld') and a not in m:
            fs = self.fields(cls)
            if fs is not None:
                args = [cls]
                for f in fs:
                    fa = raw('fld', a, f['n'])
                    args += [f['n'], self.load(fa, self.reccls(f['t']))]
                return raw('sv', *args)
        v = m.get(a)
        if v is not None:
            return v
        op = a.op
        if op == 'el':
            return self.index(self.load(a.a[0]), a.a[1])
        if op == 'mv':
            return t.get(self.load(a.a[0]), a.a[1])
        if op == 'mel':
            return raw('entry', self.load(a.a[0]), a.a[1])
        if op == 'sfld':
            b = a.a[0]
            if b.op == 'mel':
                m2, pos = self.load(b.a[0]), b.a[1]
                if pos.op in ('find', 'kp'):
                    k = pos.a[-1]
                    return k if a.a[1] == 'first' else t.get(m2, k)
                if a.a[1] == 'first':
                    return raw('mkey', m2, pos)
                return raw('mval', m2, pos)
            return t.getf(self.load(b), a.a[1])
        if op == 'fld':
            b = a.a[0]
            if root(b).op in ('el', 'mv', 'mel') or b.op in ('el', 'mv', 'mel', 'sfld', 'fld') and self.valued(b):
                return t.getf(self.load(b), a.a[1])
            if b in m:
                return t.getf(m[b], a.a[1])
        if op == 'jel':
            return t.jat(self.load(a.a[0]), a.a[1])
        if op == 'strobj':
            return raw('str', a.a[0])
        if op == 'fn' or op == 'lam':
            return a
        if op == 'phi' and a.a[0] not in self.headers and a in self.phis and self.curpos is not None:
            # one of several places: the value is a join of what they hold now
            ops = self.phis[a]
            if all(v.op not in ('phi', 'bot', 'undef', 'hav', 'ext', 'it') for v in ops.values()):
                vals = {e: self.load(v, cls) for e, v in ops.items()}
                v0 = next(iter(vals.values()))
                if all(v is v0 for v in vals.values()):
                    return v0
                return self.mkphi(a.a[0], raw('ld', a, *self.curpos), vals)
        if op in ('phi', 'bot', 'undef', 'hav', 'ext') or op == 'entry':
            return raw('load', a)
        return self.initial(a)

    def valued(self, b):
        while True:
            if b.op in ('el', 'mv', 'mel'):
                return True
            if b.op in ('fld', 'sfld'):
                b = b.a[0]
                continue
            return False

    def index(self, c, i):
        if c.op == 'phi' and False:
            pass
        return t.index(c, i)

    def fields(self, cls):
        r = self.P.records.get(cls)
        if r is None:
            return None
        fs = []
        for b in r['bases']:
            fs += self.fields(b) or []
        return fs + r['fields']

    def reccls(self, ty):
        if ty.get('ptr') or ty.get('ref'):
            return None
        return ty.get('rc') if ty.get('rc') in self.P.records else None

    def store(self, a, v, ins, cls=None, init=False):
        op = a.op
        if op == 'el':
            c = self.load(a.a[0])
            self.mut(ins, a.a[0], raw('upd', c, a.a[1], v), 'upd', key=a.a[1], val=v, old=c)
            return
        if op == 'mv':
            m = self.load(a.a[0])
            self.mapput(ins, a.a[0], m, a.a[1], v, 'assign')
            return
        if op == 'mel':
            return
        if op == 'sfld':
            b = a.a[0]
            if b.op == 'mel':
                if a.a[1] == 'second':
                    pos = b.a[1]
                    m = self.load(b.a[0])
                    if pos.op in ('find', 'kp'):
                        self.mapput(ins, b.a[0], m, pos.a[-1], v, 'second')
                    else:
                        self.mut(ins, b.a[0], raw('updpos', m, pos, v), 'updpos', key=pos, val=v, old=m)
                return
            self.store(b, t.setf(self.load(b), a.a[1], v), ins)
            return
        if op == 'fld' and self.valued(a.a[0]):
            self.store(a.a[0], t.setf(self.load(a.a[0]), a.a[1], v), ins)
            return
        if cls is not None and cls in self.P.records and op not in ('el', 'mv'):
            for f in self.fields(cls):
                self.store(raw('fld', a, f['n']), t.getf(v, f['n']), ins, self.reccls(f['t']), init)
            return
        if op in ('phi', 'bot', 'hav', 'ext', 'undef', 'load'):
            self.log('wildstore', ins, addr=a, val=v)
            return
        old = self.mem.get(a)
        self.mem[a] = v
        if self.final:
            self.log('store', ins, addr=a, old=old if old is not None else self.initial(a), new=v, how='init' if init else 'asg')
        self.kill(a, ins)

    def kill(self, a, ins):
        """other names the same cell may have"""
        if a.op != 'fld':
            if a.op == 'obj' and not concrete(a):
                pass
            return
        f, b = a.a[1], a.a[0]
        for k in list(self.mem):
            if k.op == 'fld' and k is not a and k.a[1] == f and self.mayalias(b, k.a[0]):
                self.mem[k] = raw('hav', ins.blk, ins.pos, k)

    def mayalias(self, a, b):
        if a is b:
            return True
        if a.op == 'fld' or b.op == 'fld':
            return False
        if a.op in ('var', 'new') and b.op in ('var', 'new'):
            return False
        for x, y in ((a, b), (b, a)):
            if x.op in ('var', 'new'):
                if y.op == 'obj':
                    return self.ptrmay(y.a[0], x)
                return False
        if a.op == 'obj' and b.op == 'obj':
            pa, pb = self.ptrset(a.a[0]), self.ptrset(b.a[0])
            for x in pa:
                for y in pb:
                    if x is y:
                        return True
                    if x.op in ('init', 'load', 'hav', 'getf', 'idx', 'ext') and y.op in ('init', 'load', 'hav', 'getf', 'idx', 'ext'):
                        return True
            return False
        return False

    def ptrset(self, p, seen=None):
        if seen is None:
            seen = set()
        if p in seen:
            return set()
        seen.add(p)
        if p.op == 'phi' and p in self.phis:
            r = set()
            for v in self.phis[p].values():
                r |= self.ptrset(v, seen)
            return r
        return {p}

    def ptrmay(self, p, addr):
        return any(x.op == 'ptr' and x.a[0] is addr for x in self.ptrset(p))

    def mut(self, ins, addr, new, how, key=None, val=None, old=None, **k):
        if self.final:
            self.log('mut', ins, addr=addr, old=old if old is not None else self.load(addr), new=new, how=how, key=key, val=val, **k)
        self.storeraw(addr, new, ins)

    def storeraw(self, addr, new, ins):
        op = addr.op
        if op == 'jel':
            self.storeraw(addr.a[0], raw('jset', self.load(addr.a[0]), addr.a[1], new), ins)
            return
        if op == 'el':
            c = self.load(addr.a[0])
            self.mut(ins, addr.a[0], raw('upd', c, addr.a[1], new), 'upd-inner', key=addr.a[1], val=new, old=c)
            return
        if op in ('mv', 'mel', 'sfld') or (op == 'fld' and self.valued(addr.a[0])):
            self.store(addr, new, ins)
            return
        if op in ('phi', 'bot', 'hav', 'ext', 'undef', 'load'):
            return
        self.mem[addr] = new
        self.kill(addr, ins)

    def hask(self, m, k):
        h = t.has(m, k)
        if h.op == 'c':
            return bool(h.a[0])
        r = self.known(h)
        if r is not None:
            return r
        # a version of the map that had the key, with only additions since
        x = m
        while x.op in ('ins', 'put', 'updkey', 'ens'):
            x = x.a[0]
            r = self.known(raw('has', x, k))
            if r is True:
                return True
        return self.haskphi(m, k, self.facts, 0)

    def haskphi(self, m, k, facts, depth):
        """presence of a key on every edge into a join"""
        h = t.has(m, k)
        if h.op == 'c':
            return bool(h.a[0])
        if (h, True) in facts:
            return True
        if (h, False) in facts:
            return False
        if m.op in ('ins', 'put', 'updkey', 'ens', 'try'):
            return True if self.haskphi(m.a[0], k, facts, depth + 1) is True else None
        if m.op != 'phi' or m.a[0] in self.headers or depth > 6 or m not in self.phis:
            return None
        sel = [f[2] for f in facts if f[0] == 'sel' and f[1] == m.a[0]]
        res = set()
        for e, v in self.phis[m].items():
            if e not in self.out or any(e not in x for x in sel):
                continue
            k2 = k
            if k.op == 'phi' and k.a[0] == m.a[0]:
                k2 = self.phis.get(k, {}).get(e, k)
            elif any(x.op == 'phi' and x.a[0] == m.a[0] for x in t.walk(k)):
                return None
            res.add(self.haskphi(v, k2, self.out[e][1], depth + 1))
        return res.pop() if len(res) == 1 else None

    def mapput(self, ins, addr, m, k, v, how):
        if m.op == 'ens' and m.a[1] is k:
            m0, h = m.a[0], m.a[2].a[0]
            h = {0: False, 1: True, 2: None}[h]
        else:
            m0, h = m, self.hask(m, k)
        if h is True:
            new = raw('updkey', m0, k, v)
        elif h is False:
            new = raw('ins', m0, k, v)
        else:
            new = raw('put', m0, k, v)
        self.mut(ins, addr, new, new.op, key=k, val=v, old=m0)

    def log(self, kind, ins, **k):
        if self.final:
            e = Ev(kind, ins, self.facts, **k)
            self.events.append(e)
            return e

    # ------------------------------------------------------------ instructions
    curpos = None

    def step(self, i):
        op = i.op
        self.curpos = (i.blk, i.pos)
        a = [self.val(x) for x in i.a]
        r = None
        if op == 'load':
            ad = a[0]
            cls = i.x.get('cls')
            r = self.load(ad, cls)
            if not i.x.get('ref'):
                if self.final:
                    self.log('load', i, addr=ad, r=r, x=i.x)
                self.elread(i, ad)
        elif op == 'store':
            v = a[1]
            tx = i.x.get('t')
            if v.op == 'bot':
                pass
            self.store(a[0], v, i, i.x.get('cls'), bool(i.x.get('init')))
        elif op == 'fld':
            b, f, cls = a[0], i.x['f'], i.x.get('cls')
            if cls in self.P.records:
                r = raw('fld', b, f)
            else:
                r = raw('sfld', b, f)
        elif op == 'deref':
            r = self.deref(i, a[0])
        elif op == 'addr':
            r = t.PTR(a[0])
        elif op == 'decay':
            r = raw('it', a[0], ZERO)
        elif op == 'bin':
            r = self.bin(i, a[0], a[1])
        elif op == 'un':
            r = self.un(i, a[0])
        elif op == 'icast':
            r = a[0]
            if self.final:
                self.log('icast', i, a=tuple(a), x=i.x)
        elif op == 'alloc':
            r = t.PTR(i.x['site'])
            for k in [k for k in self.mem if root_all(k) is i.x['site']] if i.x['how'] == 'new' else ():
                del self.mem[k]
            self.log('alloc', i, r=r, x=i.x)
        elif op == 'ilist':
            ty = i.x['t']
            r = EMPTY
            for x in a:
                r = t.push(r, x)
        elif op == 'stddef':
            r = self.stddefault(i.x['t'])
        elif op == 'range':
            self.log('range', i, addr=a[0], c=self.load(a[0]), x=i.x)
        elif op == 'rangecond':
            c = self.load(a[0])
            n = self.csize(c, i.x['t'])
            r = t.lt(a[1], n)
        elif op == 'elem':
            c = self.load(a[0])
            ty = i.x['t']
            if (ty.get('rc') or '') in MAP or (ty.get('rc') or '') in SET:
                r = raw('mel', a[0], raw('at', a[1])) if ty['rc'] in MAP else raw('el', a[0], raw('at', a[1]))
            else:
                r = raw('el', a[0], a[1])
            self.log('elem', i, addr=r, c=c, idx=a[1], x=i.x)
        elif op == 'enter':
            self.log('enter', i, a=tuple(a), x=i.x)
        elif op == 'leave':
            self.log('leave', i, a=tuple(a), x=i.x)
            cid = i.x['ctx']
            dead = [k for k in self.mem if isdead(k, cid)]
            for k in dead:
                del self.mem[k]
        elif op == 'return':
            self.log('return', i, a=tuple(a), mem=dict(self.mem) if self.final else None)
        elif op == 'throw':
            self.log('throw', i, a=tuple(a), x=i.x)
        elif op == 'lam':
            r = raw('lam', i.x['usr'])
        elif op == 'call':
            r = self.call(i, a)
        elif op == 'outit':
            self.outit(i, a[0], a[1])
        elif op == 'opaque':
            r = raw('opq', i.blk, i.pos)
        elif op in ('downcast', 'vcall', 'staticdecl', 'delete', 'catch'):
            self.log(op, i, a=tuple(a), x=i.x)
        if i.d is not None:
            self.tv[i.d] = r if r is not None else raw('opq', i.blk, i.pos)

    def csize(self, c, ty=None):
        if ty is not None and ty.get('arr') is not None:
            return C(ty['arr'])
        return size(c)

    def elread(self, i, ad):
        """reading a value through an element address"""

    def deref(self, i, p):
        if p.op == 'it':
            if self.final:
                self.log('read', i, addr=p.a[0], c=self.load(p.a[0]), idx=p.a[1], how='deref', x=i.x)
            return self.itaddr(p)
        if self.final and i.x:
            self.log('pderef', i, a=(p,), x=i.x)
        if p.op == 'ptr':
            return p.a[0]
        if p.op == 'str':
            return raw('strobj', p.a[0])
        if p.op == 'fn' or p.op == 'lam':
            return p
        return raw('obj', p)

    def itaddr(self, p):
        c, pos = p.a
        if pos.op in ('find', 'kp', 'at', 'mpos'):
            # set elements are their keys
            return raw('mel', c, pos)
        if p.op == 'it' and len(p.a) == 2:
            return raw('el', c, pos)
        return raw('el', c, pos)

    def un(self, i, v):
        op = i.x['op']
        if op == '!':
            at = self.truth(v)
            if at.op in t.BOOLOPS or at.op in ('c',):
                return t.not_(at)
            return raw('not', at)
        if op == '-':
            if v.op == 'c':
                return C(-v.a[0])
            return t.neg(v)
        if op == '+':
            return v
        if op == 'bool':
            if v.op in t.BOOLOPS:
                return v
            if v.op == 'c':
                return C(bool(v.a[0]))
            if v.op in ('null',):
                return FALSE
            if v.op in ('ptr', 'this', 'str', 'it'):
                return TRUE
            if i.x.get('ptr'):
                return t.not_(t.eq(v, NULL))
            if v.op == 'cnt':
                return raw('has', *v.a)
            return t.not_(t.eq(v, ZERO))
        if op == 'f2i':
            if v.op == 'c':
                return C(int(v.a[0]))
            return raw('f2i', v)
        if op == '~':
            if v.op == 'c':
                return C(~v.a[0])
            return raw('inv', v)
        return raw('un', op, v)

    def bin(self, i, x, y):
        op = i.x['op']
        if x.op == 'bot' or y.op == 'bot':
            return raw('bot2', x, y)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if self.final:
                self.log('cmp', i, a=(x, y), x=i.x)
            if op not in ('==', '!='):
                for p, q, o in ((x, y, ('<', '<=')), (y, x, ('>', '>='))):
                    if q.op == 'c' and isinstance(q.a[0], int) and ((i.x.get('at') or {}).get('uns') or (i.x.get('bt') or {}).get('uns')):
                        if q.a[0] < 0 and not (p.op == 'c' and p.a[0] < 0):
                            # a negative number seen as an unsigned one is larger than any other
                            return t.TRUE if op in o else t.FALSE
                        if q.a[0] == 0 and op == o[0]:
                            return t.FALSE
                        if q.a[0] == 0 and op not in o and op in ('<=', '>='):
                            return t.TRUE
            return self.cmp(op, x, y, self.isflt(i.x.get('at')) or self.isflt(i.x.get('bt')))
        if x.op == 'it' or y.op == 'it':
            if op == '+':
                if y.op == 'it':
                    x, y = y, x
                return raw('it', x.a[0], self.posadd(x.a[1], y, 1))
            if op == '-':
                if y.op == 'it':
                    if x.op == 'it' and x.a[0] is y.a[0]:
                        return sub(x.a[1], y.a[1])
                    return raw('distance', y, x)
                return raw('it', x.a[0], self.posadd(x.a[1], y, -1))
        ty = i.x.get('t') or {}
        if op == '+':
            if x.op == 'str' or y.op == 'str':
                return t.cat(x, y)
            return add(x, y)
        if op == '-':
            if x is y:
                return ZERO
            return sub(x, y)
        if op == '*':
            return t.mul(x, y)
        if op in ('/', '%') and self.final and not ty.get('flt'):
            self.log('div', i, a=(x, y), x=i.x)
        if x.op == 'c' and y.op == 'c':
            try:
                u, v = x.a[0], y.a[0]
                if op == '/':
                    if isinstance(u, float) or isinstance(v, float):
                        return C(u / v)
                    q = abs(u) // abs(v)
                    return C(q if (u < 0) == (v < 0) else -q)
                if op == '%':
                    return C(abs(u) % abs(v) * (1 if u >= 0 else -1))
                return C({'<<': lambda: u << v, '>>': lambda: u >> v, '&': lambda: u & v, '|': lambda: u | v, '^': lambda: u ^ v}[op]())
            except (ZeroDivisionError, KeyError, TypeError):
                pass
        if op in ('|', '&', '^') and x.n > y.n:
            x, y = y, x
        if op in ('<<', '>>'):
            return raw('b' + op, x, y, ty.get('w'), 1 if ty.get('uns') else 0)
        return raw('b' + op, x, y)

    def posadd(self, p, n, s):
        if p.op in ('find', 'kp', 'pend', 'mpos', 'at'):
            return raw('mpos', p, n if s > 0 else t.neg(n))
        return add(p, n, s)

    def isflt(self, ty):
        return bool(ty and ty.get('flt'))

    def cmp(self, op, x, y, isflt=False):
        if op in ('==', '!='):
            if x.op in ('phi', 'init') and y.op == 'c' and False:
                pass
            b = None
            for p, q in ((x, y), (y, x)):
                if p.op in t.BOOLOPS and q.op == 'c' and q.a[0] in (0, 1):
                    b = p if q.a[0] else t.not_(p)
            if b is None:
                if x.op == 'it' and y.op == 'it' and x.a[0] is not y.a[0]:
                    b = raw('eq', *sorted((x, y), key=lambda z: z.n))
                else:
                    b = t.eq(x, y)
            return b if op == '==' else t.not_(b)
        if x.op == 'it' and y.op == 'it':
            x, y = x.a[1], y.a[1]
        if op in ('>', '>='):
            x, y = y, x
            op = '<' if op == '>' else '<='
        if isflt or (x.op == 'c' and isinstance(x.a[0], float)) or (y.op == 'c' and isinstance(y.a[0], float)):
            if op == '<':
                return t.flt(x, y)
            r = t.flt(y, x)
            return t.not_(r)
        return t.lt(x, y) if op == '<' else t.le(x, y)

    # ------------------------------------------------------------ library calls
    def stddefault(self, ty):
        rc = ty.get('rc') or ''
        if rc in VEC or rc in MAP or rc in SET or 'basic_string' in rc:
            return EMPTY
        if rc in ('std::shared_ptr', 'std::unique_ptr'):
            return NULL
        if rc == 'std::pair' and ty.get('ta'):
            return t.sv('std::pair', first=self.stddefault(ty['ta'][0]), second=self.stddefault(ty['ta'][-1]))
        if ty.get('int'):
            return ZERO
        if ty.get('flt'):
            return C(0.0)
        if ty.get('ptr'):
            return NULL
        return raw('defv', rc or ty.get('s'))

    def argval(self, i, a, k):
        """value of argument k (0-based, after the object)"""
        o = i.x['obj'] if i.x.get('obj') else 0
        if o + k >= len(a):
            return None
        v = a[o + k]
        if k < len(i.x['kinds']) and i.x['kinds'][k] == 'addr':
            at = i.x.get('at') or ()
            cls = None
            if k < len(at):
                cls = self.reccls(dict(at[k], ref=0))
            return self.load(v, cls)
        return v

    def call(self, i, a):
        x = i.x
        name, cls = x['name'], x.get('cls') or ''
        kinds = x['kinds']
        n = len(kinds)
        args = [self.argval(i, a, k) for k in range(n)]
        r = None
        if x.get('repo'):
            r = self.opaque(i, a, args)
        elif x.get('ctor'):
            r = self.ctor(i, a, args)
        elif x.get('obj'):
            r = self.method(i, a, args)
        elif x.get('op'):
            r = self.freeop(i, a, args)
        else:
            r = self.free(i, a, args)
        if r is None:
            r = self.unknown(i, a, args)
        if self.final:
            self.log('call', i, a=tuple(a), r=r, x=x, val=tuple(args))
        return r

    def isref(self, i):
        rt = i.x['rt']
        return rt.get('ref') or rt.get('rref')

    def unknown(self, i, a, args):
        """a library call without a model: opaque result, non-const arguments lose their value"""
        x = i.x
        fn = x['fn']
        o = 1 if x.get('obj') else 0
        pts = x.get('pt') or ()
        if fn.get('n') in PURE and not x.get('obj'):
            return raw('f', fn['n'], *args)
        if self.final:
            self.log('unknown', i, a=tuple(a), x=x)
        if o and not fn.get('const') and a[0].op not in ('fn', 'lam'):
            self.havoc(i, a[0])
        for k, kd in enumerate(x['kinds']):
            pt = pts[k] if k < len(pts) else None
            if kd == 'addr' and pt is not None and pt.get('ref') and not pt.get('const'):
                self.havoc(i, a[o + k])
            if pt is not None and pt.get('ptr') and not pt.get('const') and a[o + k].op == 'ptr':
                self.havoc(i, a[o + k].a[0])
        if self.isref(i):
            if o and i.x['rt'].get('rc') == (x.get('ot') or {}).get('rc'):
                return a[0]
            if a and x['kinds'] and x['kinds'][0] == 'addr' and i.x['rt'].get('rc') and any(s in i.x['rt']['rc'] for s in ('stream',)):
                return a[0]
            return raw('ext', i.blk, i.pos)
        return raw('ext', i.blk, i.pos)

    def havoc(self, i, ad):
        if ad.op in ('var', 'obj', 'fld', 'el', 'mv', 'sfld'):
            self.storeraw(ad, raw('hav', i.blk, i.pos, ad), i)
            for k in list(self.mem):
                if k is not ad and k.op in ('fld', 'sfld') and root_all(k) is ad:
                    self.mem[k] = raw('hav', i.blk, i.pos, k)

    def opaque(self, i, a, args):
        eff = i.x['repo']
        if eff == 'pure':
            return raw('rf', i.x['fn']['q'], *args) if not i.x.get('obj') else raw('rf', i.x['fn']['q'], a[0], *args)
        if eff == 'const':
            return raw('rcall', i.x['fn']['q'], i.blk, i.pos)
        if eff != 'none':
            for k in list(self.mem):
                r = root_all(k)
                if r.op == 'obj' or r.op == 'new' or (r.op == 'var' and r.a[1] == 'G'):
                    self.mem[k] = raw('hav', i.blk, i.pos, k)
        o = 1 if i.x.get('obj') else 0
        pts = i.x.get('pt') or ()
        for k, kd in enumerate(i.x['kinds']):
            pt = pts[k] if k < len(pts) else None
            if kd == 'addr' and pt is not None and pt.get('ref') and not pt.get('const'):
                self.havoc(i, a[o + k])
            if pt is not None and pt.get('ptr') and not pt.get('const') and a[o + k].op in ('ptr', 'argp'):
                self.havoc(i, t.OBJ(a[o + k]))
        return raw('rcall', i.x['fn']['q'], i.blk, i.pos)

    def conv(self, v, ty):
        return v

    def mkobj(self, i, ty, args, a=None):
        """construct a value of a library type from argument values"""
        rc = ty.get('rc') or ''
        if ty.get('ptr') or not rc:
            return args[0] if args else self.stddefault(ty)
        if rc in VEC or 'basic_string' in rc:
            if not args:
                return EMPTY
            if len(args) >= 2 and args[0].op in ('it', 'rit') and args[1].op == args[0].op:
                return self.rangeval(i, args[0], args[1])
            at = [x for x in (i.x.get('at') or ())]
            if len(args) >= 2:
                if args[0].op == 'str' and 'string' in rc:
                    return args[0]
                return t.fill(args[0], args[1])
            v = args[0]
            if v.op == 'str' and v.a[0] == '':
                return EMPTY
            if at and at[-1].get('int') and not at[-1].get('rc') and 'string' not in rc:
                return t.fill(v, self.stddefault(ty['ta'][0]) if ty.get('ta') else UNDEF)
            return v
        if rc in SET or rc in MAP:
            if len(args) >= 2 and args[0].op == 'it':
                return self.rangeval(i, args[0], args[1])
            if args and args[0].op not in ('c', 'size', 'init', 'lin') and not (i.x.get('at') and i.x['at'][0].get('int')):
                return args[0]
            return EMPTY
        if rc == 'std::pair' and len(args) == 2:
            return t.sv('std::pair', first=args[0], second=args[1])
        if rc in PTRC:
            return args[0] if args else NULL
        if len(args) == 1:
            return args[0]
        return None

    def ctor(self, i, a, args):
        ty = i.x['rt']
        rc = ty.get('rc') or ''
        # trailing defaulted allocator / hash arguments
        keep = []
        for k, v in enumerate(args):
            at = i.x['at'][k] if k < len(i.x['at']) else {}
            if any(s in (at.get('rc') or '') for s in ('allocator', 'hash', 'equal_to')) and not isit(at):
                continue
            keep.append(v)
        if rc in VEC and len(keep) == 1 and i.x['at'] and i.x['at'][0].get('int') and not i.x['at'][0].get('rc'):
            return t.fill(keep[0], self.stddefault(ty['ta'][0]) if ty.get('ta') else UNDEF)
        if isit(ty) and len(keep) == 1:
            return keep[0]
        if 'basic_json' in rc:
            if not keep or len(keep) == 1 and keep[0].op == 'null':
                return raw('jnull')
            if len(keep) == 1 and keep[0].op in ('jnull', 'json', 'jset', 'jat'):
                return keep[0]
            if len(keep) == 1 and i.x['at'] and 'basic_json' in (i.x['at'][0].get('rc') or ''):
                return keep[0]
            if len(keep) == 1:
                return raw('json', keep[0])
            return raw('json', *keep)
        if any(rc == s for s in STREAMS):
            return raw('stream', rc, i.blk, i.pos)
        if 'engine' in rc or 'random_device' in rc or 'distribution' in rc or 'mersenne' in rc:
            return raw('rng', rc, *keep)
        if not keep:
            return self.stddefault(ty)
        return self.mkobj(i, ty, keep)

    def rangeval(self, i, p, q):
        if p.op == 'it' and q.op == 'it':
            c = self.load(p.a[0])
            if p.a[0] is not q.a[0]:
                return raw('badrange', p, q)
            pp, qq = p.a[1], q.a[1]
            if qq.op == 'pend' or pp.op == 'at':
                return c if qq.op == 'pend' and pp.op == 'mbegin' else raw('sub', c, pp, qq)
            return t.subr(c, pp, qq)
        if p.op == 'rit' and q.op == 'rit' and p.a[0] is q.a[0] and p.a[1] in ('rbegin', 'crbegin') and q.a[1] in ('rend', 'crend'):
            c = self.load(p.a[0])
            return EMPTY if c is EMPTY else raw('reversed', c)
        return raw('range', p, q)

    def outit(self, i, ov, v):
        """*out++ = v"""
        cur = self.load(ov)
        if cur.op == 'binserter':
            c = self.load(cur.a[0])
            self.mut(i, cur.a[0], t.push(c, v), 'push', val=v, old=c)
            return
        if cur.op == 'it':
            c = self.load(cur.a[0])
            self.mut(i, cur.a[0], raw('upd', c, cur.a[1], v), 'upd', key=cur.a[1], val=v, old=c)
            self.store(ov, raw('it', cur.a[0], add(cur.a[1], ONE)), i)

    def kind(self, i):
        x = i.x
        cls = x.get('cls') or ''
        if cls in VEC or 'basic_string' in cls:
            return 'vec'
        if cls in MAP:
            return 'map'
        if cls in SET:
            return 'set'
        if cls in PTRC:
            return 'ptr'
        if 'basic_json' in cls:
            return 'json'
        if 'iterator' in cls or 'Iterator' in cls:
            return 'it'
        if any(cls == s for s in STREAMS) or 'stream' in cls:
            return 'stream'
        return cls

    def method(self, i, a, args):
        kd = self.kind(i)
        o = a[0]
        f = getattr(self, 'm_' + kd, None)
        if f is not None:
            return f(i, o, args, a)
        # iterators hidden behind their base classes
        ov = self.load(o) if o.op not in ('fn', 'lam') else o
        if ov.op == 'it' or kd.startswith('std::__detail::_Node'):
            return self.m_it(i, o, args, a)
        if 'engine' in kd or 'distribution' in kd or 'random_device' in kd:
            return self.m_rng(i, o, args, a)
        return None

    def m_rng(self, i, o, args, a):
        if i.x.get('op') == '()':
            return raw('ext', i.blk, i.pos)
        return None

    def m_ptr(self, i, o, args, a):
        n = i.x['name']
        v = self.load(o)
        if n == 'operator->' or n == 'get':
            return v
        if n == 'operator*':
            if self.final:
                self.log('pderef', i, a=(v,), x={'star': 1})
            return t.OBJ(v) if v.op != 'it' else None
        if n == 'operator bool':
            return self.un(PseudoI({'op': 'bool', 'ptr': 1}), v)
        if n == 'operator=':
            self.store(o, args[0], i)
            return o
        if n == 'reset':
            self.store(o, args[0] if args else NULL, i)
            return UNDEF
        if n == 'swap':
            w = args[0]
            self.store(o, w, i)
            self.store(a[1], v, i)
            return UNDEF
        if n == 'release':
            self.store(o, NULL, i)
            return v
        if n in ('use_count', 'unique'):
            return raw('ext', i.blk, i.pos)
        return None

    def m_it(self, i, o, args, a):
        op = i.x.get('op')
        v = self.load(o)
        if v.op == 'binserter':
            return o
        if v.op != 'it':
            if op == '*' or op == '->':
                if self.final:
                    self.log('read', i, addr=None, c=None, idx=v, how='deref', x=i.x)
                p = raw('obj', v)
                return p if op == '*' else t.PTR(p)
            if op in ('++', '--'):
                nv = raw('itadv', v)
                self.store(o, nv, i)
                return o if self.isref(i) else v
            if op in ('+', '-'):
                return raw('itadv', v, args[0])
            if op in ('==', '!='):
                return self.cmp(op, v, args[0])
            return None
        if op in ('*', '->'):
            if self.final:
                self.log('read', i, addr=v.a[0], c=self.load(v.a[0]), idx=v.a[1], how='deref', x=i.x)
            ad = self.itaddr(v)
            if self.is_mapit(i, v):
                ad = raw('mel', v.a[0], v.a[1])
            elif self.is_setit(i):
                pos = v.a[1]
                if pos.op in ('find', 'kp'):
                    b = raw('var', 'setkey', i.blk)
                    self.mem[b] = pos.a[-1]
                    ad = b
                else:
                    ad = raw('el', v.a[0], pos)
            return ad if op == '*' else t.PTR(ad)
        if op in ('++', '--'):
            nv = raw('it', v.a[0], self.posadd(v.a[1], ONE, 1 if op == '++' else -1))
            self.store(o, nv, i)
            if i.x['kinds'] or not self.isref(i):
                return v
            return o
        if op == '+':
            return raw('it', v.a[0], self.posadd(v.a[1], args[0], 1))
        if op == '-':
            if args[0].op == 'it':
                return sub(v.a[1], args[0].a[1]) if args[0].a[0] is v.a[0] else raw('distance', args[0], v)
            return raw('it', v.a[0], self.posadd(v.a[1], args[0], -1))
        if op in ('+=', '-='):
            self.store(o, raw('it', v.a[0], self.posadd(v.a[1], args[0], 1 if op == '+=' else -1)), i)
            return o
        if op == '[]':
            p = add(v.a[1], args[0])
            if self.final:
                self.log('read', i, addr=v.a[0], c=self.load(v.a[0]), idx=p, how='deref', x=i.x)
            return raw('el', v.a[0], p)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.cmp(op, v, args[0])
        if op == '=':
            self.store(o, args[0], i)
            return o
        return None

    def is_mapit(self, i, v):
        rt = i.x['rt']
        return rt.get('rc') == 'std::pair' and 'Node' in (i.x.get('cls') or '') or 'Rb_tree' in (i.x.get('cls') or '') and rt.get('rc') == 'std::pair'

    def is_setit(self, i):
        return ('Node' in (i.x.get('cls') or '') or 'Rb_tree' in (i.x.get('cls') or '')) and i.x['rt'].get('rc') != 'std::pair'

    def read(self, i, o, c, idx, how):
        if self.final:
            self.log('read', i, addr=o, c=c, idx=idx, how=how, x=i.x)

    def elemty(self, i):
        ta = (i.x.get('ot') or {}).get('ta')
        return ta[0] if ta else {}

    def m_vec(self, i, o, args, a):
        n = i.x['name']
        c = self.load(o)
        if n in ('size', 'length'):
            return size(c)
        if n == 'empty':
            return t.not_(t.ge0(add(size(c), C(-1))))
        if n in ('operator[]', 'at'):
            self.read(i, o, c, args[0], '[]' if n != 'at' else 'at')
            return raw('el', o, args[0])
        if n == 'front':
            self.read(i, o, c, ZERO, 'front')
            return raw('el', o, ZERO)
        if n == 'back':
            ix = add(size(c), C(-1))
            self.read(i, o, c, ix, 'back')
            return raw('el', o, ix)
        if n in ('begin', 'cbegin', 'data', 'c_str'):
            if n == 'c_str':
                return c
            return raw('it', o, ZERO)
        if n in ('end', 'cend'):
            return raw('it', o, size(c))
        if n in ('rbegin', 'rend', 'crbegin', 'crend'):
            return raw('rit', o, n)
        if n == 'push_back':
            self.mut(i, o, t.push(c, args[0]), 'push', val=args[0], old=c)
            return UNDEF
        if n == 'emplace_back':
            v = self.mkobj(i, self.elemty(i), args)
            if v is None:
                v = raw('mk', *args)
            self.mut(i, o, t.push(c, v), 'push', val=v, old=c)
            return raw('el', o, size(c)) if self.isref(i) else UNDEF
        if n == 'pop_back':
            if self.final:
                self.log('read', i, addr=o, c=c, idx=add(size(c), C(-1)), how='pop_back', x=i.x)
            self.mut(i, o, c.a[0] if c.op == 'push' else raw('pop', c), 'pop', old=c)
            return UNDEF
        if n == 'clear':
            self.mut(i, o, EMPTY, 'clear', old=c)
            return UNDEF
        if n in ('reserve', 'shrink_to_fit'):
            if self.final:
                self.log('mut', i, addr=o, old=c, new=c, how='reserve', val=args[0] if args else None)
            return UNDEF
        if n == 'resize':
            v = args[1] if len(args) > 1 else self.stddefault(self.elemty(i))
            nv = t.fill(args[0], v) if c is EMPTY else raw('resize', c, args[0], v)
            self.mut(i, o, nv, 'resize', key=args[0], val=v, old=c)
            return UNDEF
        if n == 'operator=':
            v = args[0]
            if v.op == 'str' and v.a[0] == '':
                v = EMPTY
            if self.final:
                self.log('mut', i, addr=o, old=c, new=v, how='assign', val=v)
            self.storeraw(o, v, i)
            return o
        if n == 'assign':
            if len(args) == 2 and args[0].op in ('it', 'rit'):
                v = self.rangeval(i, args[0], args[1])
            elif len(args) == 2:
                v = t.fill(args[0], args[1])
            else:
                v = args[0]
            self.mut(i, o, v, 'assign', val=v, old=c)
            return UNDEF if not self.isref(i) else o
        if n in ('insert', 'append'):
            if n == 'append':
                v = self.rangeval(i, args[0], args[1]) if len(args) == 2 and args[0].op == 'it' else \
                    (t.fill(args[0], args[1]) if len(args) == 2 and args[0].op != 'str' and args[1].op != 'it' and (i.x['at'][0].get('int')) else args[0])
                self.mut(i, o, t.cat(c, v), 'append', val=v, old=c)
                return o
            p = args[0]
            if len(args) == 3 and args[1].op in ('it', 'rit', 'range'):
                v = self.rangeval(i, args[1], args[2])
            elif len(args) == 3:
                v = t.fill(args[1], args[2])
            else:
                v = None
            atend = p.op == 'it' and p.a[1] is size(c)
            if v is not None:
                nv = t.cat(c, v) if atend else raw('insat', c, p, v)
                self.mut(i, o, nv, 'append' if atend else 'insat', key=p, val=v, old=c)
            else:
                w = args[1]
                nv = t.push(c, w) if atend else raw('insat', c, p, w)
                self.mut(i, o, nv, 'push' if atend else 'insat', key=p, val=w, old=c)
            return raw('it', o, p.a[1]) if p.op == 'it' else raw('ext', i.blk, i.pos)
        if n == 'operator+=':
            v = args[0]
            if i.x['at'] and i.x['at'][0].get('int'):
                nv = t.push(c, v)
                self.mut(i, o, nv, 'push', val=v, old=c)
            else:
                self.mut(i, o, t.cat(c, v), 'append', val=v, old=c)
            return o
        if n == 'erase':
            p = args[0]
            if p.op == 'it' and len(args) == 2 and args[1].op == 'it':
                if p.a[1] is ZERO:
                    nv = t.subr(c, args[1].a[1], size(c))
                elif args[1].a[1] is size(c):
                    nv = t.subr(c, ZERO, p.a[1])
                else:
                    nv = raw('erased', c, p.a[1], args[1].a[1])
                if c is EMPTY:
                    nv = EMPTY
            elif p.op == 'it' and p.a[1] is ZERO:
                nv = t.subr(c, ONE, size(c))
            elif p.op == 'it' and p.a[1] is add(size(c), C(-1)):
                nv = raw('pop', c)
            else:
                nv = raw('erased', c, p)
            self.mut(i, o, nv, 'erase', key=p, old=c)
            return raw('it', o, p.a[1]) if p.op == 'it' else raw('ext', i.blk, i.pos)
        if n == 'swap':
            w = args[0]
            self.mut(i, o, w, 'assign', val=w, old=c)
            self.storeraw(a[1], c, i)
            return UNDEF
        if n in ('operator==', 'operator!=', 'compare'):
            return None
        if n == 'substr':
            p = args[0] if args else ZERO
            q = add(p, args[1]) if len(args) > 1 and not (args[1].op == 'c' and args[1].a[0] in (-1, 2 ** 64 - 1)) else size(c)
            return t.subr(c, p, q)
        return None

    def m_map(self, i, o, args, a):
        n = i.x['name']
        m = self.load(o)
        if n == 'size':
            return size(m)
        if n == 'empty':
            return t.not_(t.ge0(add(size(m), C(-1))))
        if n in ('count', 'contains'):
            h = self.hask(m, args[0])
            if h is not None:
                return C(int(h))
            return raw('cnt', m, args[0]) if n == 'count' else t.has(m, args[0])
        if n == 'find':
            return raw('it', o, raw('find', m, args[0]))
        if n in ('end', 'cend'):
            return raw('it', o, raw('pend', m))
        if n in ('begin', 'cbegin'):
            return raw('it', o, raw('mbegin', m))
        if n == 'at':
            self.read(i, o, m, args[0], 'mat')
            return raw('mv', o, args[0])
        if n == 'operator[]':
            h = self.hask(m, args[0])
            self.read(i, o, m, args[0], 'mget' if h is not True else 'mat')
            if h is not True:
                if self.final:
                    self.log('mapdef', i, addr=o, old=m, key=args[0], how='def', x=i.x)
                self.mem_set(o, raw('ens', m, args[0], C({False: 0, None: 2}[h])), i)
            return raw('mv', o, args[0])
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if n == 'insert' and len(args) == 1:
                p = args[0]
                if p.op == 'it':
                    return None
                k, v = t.getf(p, 'first'), t.getf(p, 'second')
            elif len(args) == 2 and not (args[0].op == 'it' and args[1].op == 'it'):
                k, v = args
            elif len(args) == 2:
                v = self.rangeval(i, *args)
                self.mut(i, o, raw('union', m, v), 'union', val=v, old=m)
                return UNDEF
            else:
                return None
            h = self.hask(m, k)
            if n == 'insert_or_assign':
                self.mapput(i, o, m, k, v, n)
            elif h is True:
                if self.final:
                    self.log('mut', i, addr=o, old=m, new=m, how='noop', key=k, val=v)
            else:
                new = raw('ins', m, k, v) if h is False else raw('try', m, k, v)
                self.mut(i, o, new, new.op, key=k, val=v, old=m)
            return t.sv('std::pair', first=raw('it', o, raw('kp', k)), second=C(int(not h)) if h is not None else t.not_(t.has(m, k)))
        if n == 'erase':
            k = args[0]
            if k.op == 'it':
                k = k.a[1].a[-1] if k.a[1].op in ('find', 'kp') else k
            self.mut(i, o, raw('del', m, k), 'erase', key=k, old=m)
            return raw('ext', i.blk, i.pos)
        if n == 'clear':
            self.mut(i, o, EMPTY, 'clear', old=m)
            return UNDEF
        if n == 'operator=':
            if self.final:
                self.log('mut', i, addr=o, old=m, new=args[0], how='assign', val=args[0])
            self.storeraw(o, args[0], i)
            return o
        if n in ('reserve', 'rehash', 'max_load_factor'):
            return UNDEF
        if n == 'swap':
            w = args[0]
            self.mut(i, o, w, 'assign', val=w, old=m)
            self.storeraw(a[1], m, i)
            return UNDEF
        return None

    def mem_set(self, o, v, i):
        self.storeraw(o, v, i)

    def m_set(self, i, o, args, a):
        n = i.x['name']
        if n in ('insert', 'emplace') and len(args) == 1:
            m = self.load(o)
            k = args[0]
            h = self.hask(m, k)
            new = raw('ins', m, k, k) if h is False else m if h else raw('try', m, k, k)
            self.mut(i, o, new, 'noop' if h else new.op, key=k, val=k, old=m)
            return t.sv('std::pair', first=raw('it', o, raw('kp', k)), second=C(int(not h)) if h is not None else t.not_(t.has(m, k)))
        return self.m_map(i, o, args, a)

    def m_json(self, i, o, args, a):
        n = i.x['name']
        if n == 'operator[]' or n == 'at':
            pt = [p.get('s') or '' for p in i.x['fn'].get('pt') or ()]
            if pt and any(w in pt[0] for w in ('size_type', 'unsigned', 'size_t', 'int')) and args[0].op != 'str':
                ad = raw('el', o, args[0])
                self.log('elem', i, addr=ad, c=self.load(o), idx=args[0], x=i.x)
                return ad
            self.log('json', i, addr=o, key=args[0], how='key', x=i.x)
            return raw('jel', o, args[0])
        if n == 'operator=':
            self.log('json', i, addr=o, val=args[0], how='set', x=i.x)
            self.storeraw(o, args[0], i)
            return o
        if n in ('push_back', 'emplace_back'):
            self.log('json', i, addr=o, val=args[0], how='push', x=i.x)
            c = self.load(o)
            self.storeraw(o, t.push(c if c.op != 'jnull' else EMPTY, args[0]), i)
            return UNDEF
        if n in ('get', 'get_to') or n.startswith('operator ') or i.x['fn'].get('conv'):
            self.log('json', i, addr=o, how='get', x=i.x)
            return raw('jget', self.load(o), (i.x['rt'].get('s') or ''))
        if n in ('begin', 'cbegin'):
            return raw('it', o, ZERO)
        if n in ('end', 'cend'):
            return raw('it', o, self.csize(self.load(o), {'rc': i.x.get('cls') or ''}))
        if n == 'size':
            return self.csize(self.load(o))
        if n == 'dump' and (len(args) < 4 or args[3].op == 'c' and args[3].a[0] == 0):
            return raw('jdump', self.load(o))
        if n in ('empty', 'is_null', 'is_array', 'is_object', 'count', 'contains'):
            return raw('jq', n, self.load(o), *args)
        return None

    def m_stream(self, i, o, args, a):
        n = i.x['name']
        if n == 'operator<<':
            self.log('out', i, addr=o, val=args[0] if args else None, x=i.x, how='<<')
            return o
        if n == 'operator>>':
            self.log('in', i, addr=o, x=i.x, how='>>')
            if a[1:]:
                self.havoc(i, a[1])
            return o
        if n in ('write', 'put'):
            self.log('out', i, addr=o, x=i.x, how=n)
            return o
        if n in ('operator bool', 'operator!', 'good', 'fail', 'bad', 'is_open', 'eof', 'rdstate'):
            r = raw('sstate', n if n not in ('operator bool',) else 'ok', o, i.blk, i.pos)
            if n == 'operator!':
                return raw('not', raw('sstate', 'ok', o, i.blk, i.pos))
            return r
        if n in ('flush', 'close', 'open', 'exceptions', 'clear', 'setstate', 'precision', 'width', 'fill', 'setf'):
            self.log('sop', i, addr=o, x=i.x, how=n, val=args[0] if args else None)
            return o if self.isref(i) else UNDEF
        if n == 'str' and not args:
            return raw('sstr', o, i.blk, i.pos)
        return None

    def freeop(self, i, a, args):
        op = i.x['op']
        at = i.x.get('at') or ()
        fk = lambda ty: (ty.get('rc') or '')
        if op in ('<<', '>>') and len(args) == 2:
            t0 = fk(at[0]) if at else ''
            if 'stream' in t0 or 'stream' in fk(i.x['rt']):
                if op == '<<':
                    self.log('out', i, addr=a[0], val=args[1], x=i.x, how='<<')
                else:
                    self.log('in', i, addr=a[0], val=args[1], x=i.x, how='>>')
                    if i.x['kinds'][1] == 'addr':
                        self.havoc(i, a[1])
                return a[0]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x, y = args
            if x.op == 'it' or y.op == 'it':
                return self.cmp(op, x, y)
            if any(s in fk(z) for z in at for s in ('shared_ptr', 'unique_ptr', 'nullptr')) or any('nullptr' in z.get('s', '') for z in at):
                return self.cmp(op, x, y)
            if op in ('==', '!='):
                b = t.eq(x, y)
                return b if op == '==' else t.not_(b)
            return raw('lex', op, x, y)
        if op == '+':
            x, y = args
            if x.op == 'it':
                return raw('it', x.a[0], self.posadd(x.a[1], y, 1))
            if y.op == 'it':
                return raw('it', y.a[0], self.posadd(y.a[1], x, 1))
            if at and at[1].get('int') and not at[1].get('rc'):
                return t.push(x, y)
            if at and at[0].get('int') and not at[0].get('rc'):
                return t.cat(t.push(EMPTY, x), y)
            return t.cat(x, y)
        if op == '-':
            x, y = args
            if x.op == 'it' and y.op == 'it':
                return sub(x.a[1], y.a[1]) if x.a[0] is y.a[0] else raw('distance', y, x)
        return None

    def free(self, i, a, args):
        q = i.x['fn']['q']
        n = i.x['name']
        if q.startswith('std::numeric_limits'):
            return raw('lim', n, (i.x['rt'].get('s') or ''))
        if n in ('min', 'max') and q.startswith('std::') and len(args) == 2:
            x, y = args
            ty = i.x['rt']
            b = raw('var', 'mm%d' % i.pos, i.blk)
            if x is y:
                v = x
            elif x.op == 'c' and y.op == 'c':
                v = C(min(x.a[0], y.a[0]) if n == 'min' else max(x.a[0], y.a[0]))
            else:
                v = raw(n, *sorted((x, y), key=lambda z: z.n))
                other = 'max' if n == 'min' else 'min'
                for p, q2 in ((x, y), (y, x)):
                    # min(a, max(b, x)) with a <= b
                    if p.op == 'c' and q2.op == other:
                        for z in q2.a:
                            if z.op == 'c' and (p.a[0] <= z.a[0] if n == 'min' else p.a[0] >= z.a[0]):
                                v = p
            if self.isref(i):
                self.mem[b] = v
                return b
            return v
        if n in ('begin', 'cbegin', 'end', 'cend') and q.startswith('std::') and a:
            at = i.x['at'][0]
            c = self.load(a[0])
            if (at.get('rc') or '') in MAP | SET:
                return raw('it', a[0], raw('mbegin' if 'begin' in n else 'pend', c))
            if 'begin' in n:
                return raw('it', a[0], ZERO)
            return raw('it', a[0], C(at['arr']) if at.get('arr') is not None else size(c))
        if n in ('next', 'prev') and q.startswith('std::'):
            k = args[1] if len(args) > 1 else ONE
            if args[0].op == 'it':
                return raw('it', args[0].a[0], self.posadd(args[0].a[1], k, 1 if n == 'next' else -1))
        if n == 'advance' and args[0].op == 'it':
            self.store(a[0], raw('it', args[0].a[0], self.posadd(args[0].a[1], args[1], 1)), i)
            return UNDEF
        if n == 'distance' and len(args) == 2 and args[0].op == 'it' and args[1].op == 'it':
            if args[0].a[0] is args[1].a[0]:
                return sub(args[1].a[1], args[0].a[1])
        if n == 'size' and q.startswith('std::') and a:
            return self.csize(self.load(a[0]), i.x['at'][0])
        if n == 'empty' and q.startswith('std::') and a:
            return t.not_(t.ge0(add(size(self.load(a[0])), C(-1))))
        if n == 'back_inserter':
            return raw('binserter', a[0])
        if n == 'make_pair':
            return t.sv('std::pair', first=args[0], second=args[1])
        if n in ('make_shared', 'make_unique'):
            r = raw('ptr', raw('new', 'm%d_%d' % (i.blk, i.pos), (i.x['rt'].get('ta') or [{}])[0].get('s')))
            ty = (i.x['rt'].get('ta') or [{}])[0]
            self.mem[r.a[0]] = self.mkobj(i, ty, args) or UNDEF
            self.log('alloc', i, r=r, x={'how': 'make', 't': ty, 'site': r.a[0]})
            return r
        if n in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            self.log('downcast', i, a=(args[0],), x={'to': i.x['rt'], 'from': i.x['at'][0], 'dyn': int(n.startswith('dyn')), 'sp': 1})
            return args[0]
        if n in ('sort', 'stable_sort') and args[0].op == 'it':
            ad = args[0].a[0]
            c = self.load(ad)
            full = args[0].a[1] is ZERO and args[1].op == 'it' and args[1].a[1] is size(c)
            cmpf = args[2] if len(args) > 2 else raw('lessthan')
            if self.final:
                self.log('sort', i, addr=ad, c=c, a=tuple(args), how=n, x=i.x, val=cmpf)
            new = EMPTY if c is EMPTY else raw('sorted', c, cmpf) if full else raw('hav', i.blk, i.pos, ad)
            self.mut(i, ad, new, 'sort', val=cmpf, old=c)
            return UNDEF
        if n == 'reverse' and args[0].op == 'it':
            ad = args[0].a[0]
            c = self.load(ad)
            self.mut(i, ad, raw('reversed', c), 'reverse', old=c)
            return UNDEF
        if n == 'fill' and args[0].op == 'it':
            ad = args[0].a[0]
            c = self.load(ad)
            self.mut(i, ad, raw('filled', c, args[2]), 'fill', val=args[2], old=c)
            return UNDEF
        if n in ('lower_bound', 'upper_bound') and args[0].op == 'it' and args[1].op == 'it':
            ad = args[0].a[0]
            c = self.load(ad)
            if self.final:
                self.log('bisect', i, addr=ad, c=c, a=tuple(args), how=n, x=i.x, val=args[2])
            cm = args[3] if len(args) > 3 else raw('lessthan')
            return raw('it', ad, raw('lb', n, c, args[0].a[1], args[1].a[1], args[2], cm))
        if n in ('binary_search', 'equal_range') and args[0].op == 'it':
            ad = args[0].a[0]
            c = self.load(ad)
            if self.final:
                self.log('bisect', i, addr=ad, c=c, a=tuple(args), how=n, x=i.x, val=args[2])
            if n == 'binary_search':
                return raw('f', 'bsearch', c, args[0].a[1], args[1].a[1], args[2])
            return None
        if n == 'mismatch' and args[0].op == 'it':
            p, pe, s = args[0], args[1], args[2]
            if self.final:
                self.log('mismatch', i, a=tuple(args), x=i.x)
            if s.op == 'it':
                mm = raw('mm', self.load(p.a[0]), p.a[1], pe.a[1] if pe.op == 'it' else pe, self.load(s.a[0]), s.a[1])
                return t.sv('std::pair', first=raw('it', p.a[0], mm), second=raw('it', s.a[0], mm))
        if n == 'equal' and q == 'std::equal' and args[0].op == 'it' and args[2].op == 'it':
            p, pe, s = args[:3]
            if self.final:
                self.log('mismatch', i, a=tuple(args), x=i.x)
            cp = self.load(p.a[0])
            if p.a[1] is ZERO and pe.op == 'it' and pe.a[1] is size(cp) and s.a[1] is ZERO:
                if len(args) >= 4 and args[3].op == 'it':
                    return t.eq(cp, self.load(s.a[0]))
                return raw('prefix', cp, self.load(s.a[0]))
        if n == 'accumulate' and len(args) == 3 and args[0].op == 'it' and args[1].op == 'it':
            return add(raw('sum', self.rangeval(i, args[0], args[1])), args[2]) if True else None
        if n == 'to_string' and q.startswith('std::'):
            return raw('f', 'to_string', *args)
        if n == 'getline':
            return None
        if n in ('swap',) and q.startswith('std::') and len(args) == 2 and i.x['kinds'] == ('addr', 'addr'):
            v, w = args
            self.store(a[0], w, i)
            self.store(a[1], v, i)
            return UNDEF
        if n in ('setw', 'setprecision', 'setfill'):
            return raw('manip', n, *args)
        if n in ('move', 'copy') and len(args) == 3 and args[2].op == 'binserter':
            v = self.rangeval(i, args[0], args[1])
            ad = args[2].a[0]
            c = self.load(ad)
            self.mut(i, ad, t.cat(c, v), 'append', val=v, old=c)
            return args[2]
        if n == 'count' and q.startswith('std::') and len(args) == 3:
            return raw('f', 'count', self.rangeval(i, args[0], args[1]), args[2])
        if n == 'find' and q.startswith('std::') and args[0].op == 'it':
            return raw('it', args[0].a[0], raw('pfind', self.rangeval(i, args[0], args[1]), args[2], args[0].a[1]))
        if n in ('isalnum', 'tolower', 'toupper', 'isalpha', 'isdigit', 'isspace', 'islower', 'isupper', 'ispunct'):
            self.log('ctype', i, a=tuple(args), x=i.x)
            if len(args) == 1:
                return raw('f', n, *args)
        if n in PURE:
            return raw('f', n, *args)
        return None

    # ------------------------------------------------------------ results
    def finish(self):
        self.reach = {b.id for b in self.rpo if b.id == self.L.entryblk.id or any((p, i) in self.out for p, i in b.pred)}


class PseudoI:
    def __init__(self, x):
        self.x = x


class Dummy:
    def __init__(self, b):
        self.blk, self.pos, self.loc, self.fn, self.stack = b.id, -1, '', '', ()


def root_all(a):
    while a.op in ('fld', 'el', 'mv', 'mel', 'sfld', 'jel'):
        a = a.a[0]
    return a


def concrete(a):
    return a.op in ('var', 'new')


def isdead(k, cid):
    r = root_all(k)
    return r.op == 'var' and len(r.a) > 1 and r.a[1] == cid


def same(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if b.get(k) is not v:
            return False
    return True


def phis_in(at):
    r = []
    if at.op == 'phi':
        return [at]
    for x in at.a:
        if isinstance(x, T):
            if x.op == 'phi':
                r.append(x)
            elif x.op == 'lin':
                for y in x.a:
                    if isinstance(y, T) and y.op == 'phi':
                        r.append(y)
    return r


def subst(at, ph, v):
    """at with phi replaced, for the simple shapes conditions have; None if not simple"""
    if at is ph:
        return v
    if at.op == 'ge0':
        c, d = t.lin_parts(at.a[0])
        k = d.pop(ph, None)
        if k is None or isinstance(c, float):
            return None
        try:
            return t.ge0(add(t.lin_make(c, d), t.mul(C(k), v)))
        except TypeError:
            return None
    if at.op == 'eq':
        x, y = at.a
        if x.op == 'lin' and isc0(y):
            c, d = t.lin_parts(x)
            k = d.pop(ph, None)
            if k is None:
                return None
            try:
                return t.eq(add(t.lin_make(c, d), t.mul(C(k), v)), ZERO)
            except TypeError:
                return None
        if x is ph:
            return t.eq(v, y)
        if y is ph:
            return t.eq(x, v)
    return None


def isc0(x):
    return x.op == 'c' and x.a[0] == 0
