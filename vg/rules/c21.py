"""C21: no reference or iterator is used after its container changed.

A dataflow over every operation: each variable and intermediate result that refers into a container is followed from where
it was obtained; an operation that may move or remove elements of that container marks it, obtaining it again clears the
mark, and a use of a marked one is the violation.  A second rule looks at the owners of what is referred to: a reference
into something only a temporary owned is dead after the statement.  A third looks at every range made of two iterators."""
from .. import lib, terms as t
from ..terms import T, ZERO, C, raw, size, add

VEC = {'push', 'append', 'insat', 'assign', 'clear', 'resize', 'erase', 'pop', 'reserve'}
HASH = {'ins', 'try', 'ens', 'union', 'def'}
COMPARE = {'==', '!=', '<', '>', '<=', '>=', '-'}


def check(cx):
    cx.rule('use', 'what refers into a container is obtained again after the container changed', 40)
    cx.rule('owner', 'what a reference refers to is owned by more than a temporary', 6)
    cx.rule('range', 'the two ends of a range belong to one container', 8)
    runs = list(lib.surface(cx))
    done = {q for r in runs for q in list(r.L.inlined) + [r.q]}
    for usr, f in sorted(cx.P.functions.items(), key=lambda x: x[1]['fn']['q']):
        if f.get('body') and not f['fn'].get('lambda') and f['fn']['q'] not in done:
            try:
                runs.append(cx.run(usr))
            except Exception as x:      # a shape the engine does not know
                cx.ob('use', (None, f['fn']['q']), None, 'not analysed: %s' % type(x).__name__)
    sites = {}
    for run in runs:
        Flow(cx, run, sites).go()
    for (rule, loc, fn), (w, ok, msg, det) in sites.items():
        cx.ob(rule, w, ok, msg, det)


def spine(a):
    """containers an address or iterator value lies in: {container address: 'it' | 'ref'}"""
    r = {}
    k = 'ref'
    while isinstance(a, T):
        if a.op == 'it' and len(a.a) == 2:
            r[a.a[0]] = 'it'
            a = a.a[0]
        elif a.op in ('el', 'mel', 'mv') and len(a.a) == 2:
            r.setdefault(a.a[0], 'ref')
            a = a.a[0]
        elif a.op in ('fld', 'sfld'):
            a = a.a[0]
        elif a.op == 'ptr' and a.a and isinstance(a.a[0], T):
            a = a.a[0]
        elif a.op == 'obj' and a.a[0].op == 'init' and a.a[0].a[0].op == 'fld' and len(r) < 8:
            r[a] = 'own'
            a = a.a[0].a[0].a[0]
        else:
            break
    return {c: k for c, k in r.items() if not t.phis(c)}


class Flow:
    def __init__(self, cx, run, sites):
        self.cx, self.run, self.I, self.sites = cx, run, run.I, sites
        self.muts = {}
        for e in run.ev:
            if e.kind in ('mut', 'mapdef') and e.addr is not None or e.kind == 'store' and e.how == 'asg':
                self.muts.setdefault(id(e.ins), []).append(e)
        self.reserved = {e.addr for e in run.ev if e.kind == 'mut' and e.how == 'reserve'}
        self.lookups = {}
        for e in run.ev:
            if e.kind == 'enter' and e.x['fn']['n'] == 'search':
                self.lookups[e.ins.stack + ((e.ins.loc, e.x['fn']['q']),)] = e
        self.prepare_owners()
        self.found = {}
        self.checked = {}

    def ob(self, rule, i, ok, msg, det=''):
        """one obligation per place: violated in one of the runs is violated"""
        k = (rule, i.loc, i.fn)
        o = self.sites.get(k)
        r = {True: 0, None: 1, False: 2}
        if o is None or r[ok] > r[o[1]]:
            self.sites[k] = (i, ok, msg, det)

    # -------------------------------------------------------------- changes
    def lookup_of_entry(self, e):
        """the change is the append of a lookup, and what is looked up is an entry of that very container"""
        st = e.ins.stack
        for k in range(len(st), 0, -1):
            L = self.lookups.get(st[:k])
            if L is None:
                continue
            for x in L.a:
                if isinstance(x, T) and x.op == 'el' and x.a[0].op == 'fld' and e.addr.op == 'fld' and x.a[0].a[0] is e.addr.a[0]:
                    return True
                if isinstance(x, T) and any(y.op == 'el' and y.a[0].op == 'fld' and y.a[0].a[0] is e.addr.a[0] for y in (x,) + tuple(self.source(x))):
                    return True
        return False

    def source(self, x):
        """where a looked up sequence was copied from"""
        v = self.I.mem.get(x) if hasattr(self.I, 'mem') else None
        r = []
        for e in self.run.ev:
            if e.kind == 'store' and e.addr is x and e.new is not None and e.new.op in ('init', 'ix', 'at', 'elv'):
                r += [y for y in e.new.a if isinstance(y, T)]
        return r

    def hits(self, e, cont, kind, holder):
        """does a change invalidate what refers into cont?  True, False or None"""
        cls = e.ins.x.get('cls') if e.ins.x else None
        cls = cls or ''
        how = e.how
        if how in ('upd', 'updpos') and e.key is not None:
            return cont is raw('el', e.addr, e.key)
        if kind == 'own':
            return e.kind == 'store' and cont.a[0].a[0] is e.addr and e.old is cont.a[0] and not self.shared(e, cont.a[0])
        if e.addr is not cont:
            return False
        if e.kind == 'store':
            return True
        if how in HASH:
            if kind == 'ref' or 'unordered' not in cls and e.kind != 'mapdef':
                return False
            return True
        if how not in VEC:
            return False
        if 'map' in cls or 'set' in cls:
            if how in ('clear', 'assign'):
                return True
            if how == 'erase':
                h = holder
                ks = {x for x in t.walk(h)} if isinstance(h, T) else set()
                if e.key is not None and (e.key in ks or (isinstance(h, T) and h in set(t.walk(e.key)))):
                    return True
                if h is None and any(x.op in ('mel', 'el', 'at') for x in t.walk(e.key)):
                    return True
                return False if isinstance(h, T) else None
            return False
        if 'list' in cls and 'ilist' not in cls or 'deque' in cls and kind == 'ref':
            return None
        if how == 'pop':
            last = add(size(e.old), C(-1)) if e.old is not None else None
            if isinstance(holder, T):
                for x in t.walk(holder):
                    if x.op in ('el', 'it') and x.a[0] is cont:
                        return True if x.a[1] is last or x.a[1] is size(e.old) else None
            return None
        if how == 'erase' and isinstance(holder, T):
            for x in t.walk(holder):
                if x.op in ('el', 'it') and x.a[0] is cont and x.a[1] is ZERO and not (e.key is not None and e.key.op == 'it' and e.key.a[1] is ZERO):
                    return False
        if how in ('push', 'append', 'insat', 'resize') and cont in self.reserved:
            return None
        if how == 'reserve' and e.old is t.EMPTY:
            return None
        return True

    def shared(self, e, p):
        """something else holds the object, too"""
        return any(x.kind == 'store' and x.new is p and x.addr is not e.addr and (x.addr.op != 'var' or self.named(x.addr)) for x in self.run.ev)

    def change(self, st, i):
        for e in self.muts.get(id(i), ()):
            entry = None
            for k, (cs, stale, val) in list(st.items()):
                if i.d is not None and k == i.d:
                    continue
                for c, kind in cs:
                    h = self.hits(e, c, kind, val)
                    if h is False:
                        continue
                    if entry is None:
                        entry = self.lookup_of_entry(e)
                    if entry:
                        continue
                    st[k] = (cs, stale | {(e, bool(h))}, val)
                    break

    # -------------------------------------------------------------- flow
    def get(self, st, o):
        return st.get(o)

    def opstate(self, st, ops):
        cs, stale = frozenset(), frozenset()
        for o in ops:
            s = st.get(o)
            if s:
                cs |= s[0]
                stale |= s[1]
        return cs, stale

    def define(self, st, d, val, cs=frozenset(), stale=frozenset()):
        if d is None:
            return
        own = frozenset(spine(val).items()) if isinstance(val, T) else frozenset()
        if own:
            # what it inherits from something it does not lie in any more is dropped
            cs = own
        elif isinstance(val, T) and not t.phis(val):
            cs = frozenset()
        if cs:
            st[d] = (cs, stale, val)
        else:
            st.pop(d, None)

    def use(self, st, i, ops, what):
        for o in ops:
            s = st.get(o)
            if not s:
                continue
            self.checked[(i.loc, i.fn)] = i
            for e, sure in s[1]:
                if lib.contradictory(self.lasting(e.facts) | self.lasting(self.facts(i))):
                    continue
                k = (i.loc, i.fn)
                if sure or k not in self.found:
                    self.found[k] = (i, e, sure or (k in self.found and self.found[k][2]), what)

    def lasting(self, fs):
        """facts that do not change from one iteration to the next"""
        return frozenset(f for f in fs if f[0] != 'sel' and not any(x.a[0] in self.I.headers for x in t.phis(f[0])))

    def facts(self, i):
        return self.I.blockfacts.get(i.blk, ())

    def tv(self, o):
        return self.I.tv.get(o) if not isinstance(o, T) else o

    def step(self, st, i):
        op = i.op
        if op == 'load':
            o = i.a[0]
            if isinstance(o, T):
                s = st.get(o)
                v = self.tv(i.d)
                if s:
                    self.define(st, i.d, v, s[0], s[1])
                    if i.d in st:
                        st[i.d] = (st[i.d][0], s[1], v)
                else:
                    self.define(st, i.d, v)
            else:
                if not i.x.get('ref'):
                    self.use(st, i, (o,), 'read')
                v = self.tv(i.d)
                self.define(st, i.d, v if i.x.get('ref') or (isinstance(v, T) and v.op in ('it', 'ptr')) else None)
        elif op == 'store':
            o, v = i.a[0], i.a[1]
            if isinstance(o, T) and o.op == 'var':
                if self.named(o):
                    a = self.tv(v)
                    if isinstance(a, T) and a.op in ('it', 'el', 'mel', 'mv', 'fld', 'var') or a in self.made:
                        self.temporary(i, a, o.a[1])
                s = st.get(v) if not isinstance(v, T) else None
                if s:
                    st[o] = s
                else:
                    val = self.tv(v)
                    if isinstance(v, T):
                        st.pop(o, None)
                    else:
                        self.define(st, o, val)
            else:
                self.use(st, i, (o,), 'written')
        elif op in ('fld', 'deref', 'addr', 'decay', 'icast', 'un'):
            cs, stale = self.opstate(st, i.a)
            self.define(st, i.d, self.tv(i.d), cs, stale)
        elif op == 'bin':
            if i.x.get('op') in COMPARE:
                self.use(st, i, i.a, 'compared')
                self.ends(i, i.a)
            cs, stale = self.opstate(st, i.a)
            self.define(st, i.d, self.tv(i.d), cs, stale)
        elif op == 'range':
            cs, stale = self.opstate(st, i.a)
            a = self.tv(i.a[0])
            own = dict(spine(a)) if isinstance(a, T) else {}
            if isinstance(a, T) and not t.phis(a):
                own[a] = 'it'
            st[('range', i.a[0])] = (frozenset(own.items()), stale, None)
            self.temporary(i, a, self.ctxof(i))
        elif op in ('rangecond', 'elem'):
            self.use(st, i, (('range', i.a[0]),), 'walked on')
            if op == 'elem':
                self.define(st, i.d, self.tv(i.d))
        elif op == 'call':
            n = i.x.get('name')
            ops = list(i.a)
            if n == 'operator=' and i.x.get('obj') and ops and isinstance(ops[0], T) and ops[0].op == 'var' and ops[0] in st:
                s = st.get(ops[1]) if len(ops) > 1 else None
                if s:
                    st[ops[0]] = s
                else:
                    st.pop(ops[0], None)
                self.change(st, i)
                return
            self.use(st, i, ops, 'used')
            self.pairs(i, ops)
            self.change(st, i)
            cs, stale = frozenset(), frozenset()
            self.define(st, i.d, self.tv(i.d), cs, stale)
            return
        elif i.d is not None:
            self.define(st, i.d, self.tv(i.d))
        self.change(st, i)

    def go(self):
        I = self.I
        num = {b.id: k for k, b in enumerate(I.rpo)}
        byid = {b.id: b for b in I.rpo}
        ins = {I.rpo[0].id: {}}
        todo = {I.rpo[0].id}
        rounds = 0
        while todo and rounds < 20000:
            rounds += 1
            b = min(todo, key=num.get)
            todo.discard(b)
            st = dict(ins[b])
            for i in byid[b].ins:
                self.step(st, i)
            for k, s in enumerate(byid[b].succ):
                if (b, k) not in I.out or s.id not in num:
                    continue
                old = ins.get(s.id)
                new = dict(st) if old is None else self.merge(old, st)
                if new != old:
                    ins[s.id] = new
                    todo.add(s.id)
        self.report()

    def merge(self, a, b):
        r = dict(a)
        for k, s in b.items():
            o = r.get(k)
            r[k] = s if o is None or o == s else (o[0] | s[0], o[1] | s[1], o[2] if o[2] is s[2] else s[2])
        return r

    # -------------------------------------------------------------- ranges of two containers
    def cont(self, o):
        v = self.tv(o)
        if isinstance(v, T) and v.op == 'it' and len(v.a) == 2:
            return v.a[0]
        return None

    def ends(self, i, ops):
        a, b = self.cont(ops[0]), self.cont(ops[1])
        if a is None or b is None:
            return
        self.judge_ends(i, a, b)

    def judge_ends(self, i, a, b):
        ok = True if a is b else None
        if ok is None and not any(x.a[0] not in self.I.headers for x in t.phis(a) | t.phis(b)):
            ok = False
        self.ob('range', i, ok, 'both ends belong to one container', '' if ok else '%s and %s' % (t.show(a, 3), t.show(b, 3)))

    def pairs(self, i, ops):
        n = i.x.get('name') or ''
        obj = 1 if i.x.get('obj') else 0
        cs = [self.cont(o) for o in ops]
        if obj and n in ('insert', 'assign', 'erase', 'append'):
            k = len(ops) - 2
            if k >= 1 and cs[k] is not None and cs[k + 1] is not None:
                self.judge_ends(i, cs[k], cs[k + 1])
        elif len(ops) - obj >= 2 and cs[obj] is not None and cs[obj + 1] is not None:
            self.judge_ends(i, cs[obj], cs[obj + 1])

    # -------------------------------------------------------------- owners
    def ctxof(self, i):
        for e in self.run.ev:
            if e.kind == 'enter' and e.ins.stack + ((e.ins.loc, e.x['fn']['q']),) == i.stack:
                return e.x['ctx']
        return 1                        # the entry

    def prepare_owners(self):
        self.params = {p['id'] for e in self.run.ev if e.kind == 'enter' for p in e.x['params']}
        self.made = {e.r.a[0]: e for e in self.run.ev if e.kind == 'alloc' and e.x['how'] == 'make' and e.r.op == 'ptr'}
        self.owners = {}
        # temporaries whose life a reference or a range of the same function prolongs
        self.kept = {e.addr for e in self.run.ev if e.kind == 'range'}
        for b in self.I.rpo:
            for i in b.ins:
                if i.op == 'store' and isinstance(i.a[0], T) and self.named(i.a[0]):
                    v = self.tv(i.a[1])
                    while isinstance(v, T) and v.op in ('fld', 'sfld', 'var'):
                        self.kept.add(v)
                        v = v.a[0]
        for e in self.run.ev:
            if e.kind in ('store', 'mut') and e.addr is not None:
                for v in (e.new, e.val):
                    if isinstance(v, T) and self.made:
                        for x in t.walk(v):
                            if x.op == 'ptr' and x.a[0] in self.made:
                                self.owners.setdefault(x.a[0], []).append(e.addr)

    def named(self, o):
        """a variable of the source, not one standing for a parameter or a temporary"""
        return o.op == 'var' and isinstance(o.a[0], str) and o.a[0] != 'ret' and '#t' not in o.a[0] and o.a[0] not in self.params

    def temporary(self, i, a, ctx):
        """a reference, an iterator or a range that outlives the statement: who owns what it refers to"""
        if not isinstance(a, T):
            return
        inner = False
        while isinstance(a, T):
            if a in self.made:
                break
            if a.op in ('el', 'mel', 'mv', 'it') and len(a.a) == 2:
                inner = True
                a = a.a[0]
            elif a.op in ('fld', 'sfld') or a.op == 'ptr' and isinstance(a.a[0], T):
                a = a.a[0]
            else:
                break
        if not isinstance(a, T):
            return
        if a.op == 'obj' and a.a[0].op == 'phi':
            src = lib.sources(self.run, a.a[0])
            if src and all(x.op == 'ptr' and x.a[0] in self.made for x in src):
                own = [o for e in self.run.ev if e.kind == 'store' and isinstance(e.new, T) and a.a[0] in t.phis(e.new) for o in [e.addr]]
                own += [o for x in src for o in self.owners.get(x.a[0], ())]
                own = [o for o in own if o.op != 'var' or (self.named(o) or o.a[0] in self.params) and not o.a[1] > ctx]
                self.ob('owner', i, bool(own), 'what is referred to has an owner that stays' if own else 'what is referred to belongs to an object that dies with the statement', t.show(a, 2))
            return
        if t.phis(a):
            return
        if a in self.made:
            own = [o for o in self.owners.get(a, ()) if o.op != 'var' or self.named(o) or o.a[0] in self.params and isinstance(o.a[1], int) and isinstance(ctx, int) and o.a[1] <= ctx]
            own = [o for o in own if o.op != 'var' or not (isinstance(o.a[1], int) and isinstance(ctx, int) and o.a[1] > ctx)]
            self.ob('owner', i, bool(own), 'what is referred to has an owner that stays' if own else 'what is referred to belongs to an object that dies with the statement', t.show(a, 2))
        elif a.op == 'var' and isinstance(a.a[0], str) and a.a[0].startswith('mat#t'):
            if a in self.kept or a.a[1] != ctx:
                inner = False
            self.ob('owner', i, not inner, 'the temporary referred to is kept' if not inner else 'what is referred to is inside a temporary that dies with the statement', t.show(a, 2))
        elif inner:
            self.ob('owner', i, True, 'what is referred to belongs to something that stays')

    def report(self):
        for k, i in self.checked.items():
            f = self.found.get(k)
            if f is None:
                self.ob('use', i, True, 'what refers into a container is used while it is what it was')
            else:
                _, e, sure, what = f
                self.ob('use', i, False if sure else None, '%s is %s after %s of %s at %s' % ('what refers into a container', what, e.how, t.show(e.addr, 2), e.loc.rsplit('/', 1)[-1]))
