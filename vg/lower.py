"""Lowers one entry function, with every repo callee inlined, to a control flow graph of three-address code."""
from . import terms as t
from .terms import T, C, raw


class Unsupported(Exception):
    pass


class Instr:
    __slots__ = ('op', 'd', 'a', 'x', 'loc', 'fn', 'stack', 'blk', 'pos')

    def __init__(self, op, d, a, x, loc, fn, stack):
        self.op, self.d, self.a, self.x, self.loc, self.fn, self.stack = op, d, a, x, loc, fn, stack

    def __repr__(self):
        return '%s = %s %s %s @%s' % (self.d, self.op, self.a, {k: v for k, v in (self.x or {}).items() if k in ('name', 'cls', 'f', 'op')}, self.loc.rsplit('/', 1)[-1])


class Block:
    __slots__ = ('id', 'ins', 'term', 'succ', 'pred')

    def __init__(self, i):
        self.id, self.ins, self.term, self.succ, self.pred = i, [], None, [], []


class Ctx:
    n = 0

    def __init__(self, fn, outer, this, stack):
        Ctx.n += 1
        self.id = Ctx.n
        self.fn, self.outer, self.this, self.stack = fn, outer, this, stack
        self.vars = {}      # varid -> (addr term, isref)
        self.clos = {}      # varid -> closure
        self.scopes = []
        self.retvar = self.exit = self.retT = self.retF = None
        self.lambdas = None


class Closure:
    def __init__(self, usr, ctx, copies):
        self.usr, self.ctx, self.copies = usr, ctx, copies


PASS = ('mat', 'defarg', 'definit')
STDALG = {'for_each', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'accumulate', 'generate', 'remove_if', 'copy'}


def strip(e):
    while e is not None and e['k'] in PASS:
        e = e['e']
    return e


class Lower:
    def __init__(self, prog, opaque=None, maxdepth=40, dispatch=None):
        self.P = prog
        self.opaque = opaque or (lambda f: None)
        self.dispatch = dispatch
        self.blocks = []
        self.nt = 0
        self.maxdepth = maxdepth
        self.notes = []
        self.inlined = {}
        self.overs = overriders(prog)
        self.newsite = 0
        Ctx.n = 0

    # ------------------------------------------------------------ infrastructure
    def blk(self):
        b = Block(len(self.blocks))
        self.blocks.append(b)
        return b

    def tmp(self):
        self.nt += 1
        return self.nt

    def emit(self, op, a=(), x=None, loc=None, d=True):
        dst = self.tmp() if d else None
        i = Instr(op, dst, tuple(a), x or {}, loc or self.loc, self.ctx.fn['fn']['q'], self.ctx.stack)
        self.cur.ins.append(i)
        return dst

    def jmp(self, b):
        if self.cur.term is None:
            self.cur.term = ('jmp',)
            self.cur.succ = [b]

    def br(self, c, bt, bf):
        if self.cur.term is None:
            self.cur.term = ('br', c)
            self.cur.succ = [bt, bf]

    def any(self, bs):
        self.cur.term = ('any',)
        self.cur.succ = list(bs)

    def start(self, b):
        self.cur = b

    def tmpvar(self, hint='tmp'):
        self.nt += 1
        return raw('var', '%s#t%d' % (hint, self.nt), self.ctx.id)

    # ------------------------------------------------------------ entry
    def entry(self, usr):
        F = self.P.functions[usr]
        self.loc = F['l']
        fi = F['fn']
        this = t.raw('this') if fi.get('cls') and not fi.get('static') and not fi.get('lambda') else None
        self.ctx = Ctx(F, None, this, ())
        self.start(self.blk())
        self.entryblk = self.cur
        self.exitblk = self.blk()
        self.throwblk = self.blk()
        self.handlers = []
        c = self.ctx
        c.retvar = raw('var', 'ret', c.id)
        c.retref = bool(fi['rt'].get('ref') or fi['rt'].get('rref'))
        c.exit = self.blk()
        self.inlined[fi['q']] = self.inlined.get(fi['q'], 0) + 1
        for i, p in enumerate(F['params']):
            pt = p['t']
            a = raw('var', p['id'], c.id)
            if pt.get('ref') or pt.get('rref'):
                c.vars[p['id']] = (a, True)
                self.emit('store', [a, t.OBJ(raw('argp', i, p['n']))], {'init': 1}, d=False)
            elif pt.get('ptr'):
                c.vars[p['id']] = (a, False)
                self.emit('store', [a, raw('argp', i, p['n'])], {'init': 1}, d=False)
            else:
                c.vars[p['id']] = (a, False)
                self.emit('store', [a, raw('arg', i, p['n'])], {'init': 1, 'cls': self.rcls(pt)}, d=False)
        c.scopes.append([])
        if fi.get('ctor'):
            self.ctor_inits(F, this)
        self.stmt(F.get('body'))
        self.pop_scope()
        self.jmp(c.exit)
        self.start(c.exit)
        r = None
        if fi['rt']['s'] != 'void' and not fi.get('ctor'):
            r = self.load(c.retvar, None if c.retref else fi['rt'])
        self.emit('return', [r] if r else [], {'top': 1}, d=False)
        self.jmp(self.exitblk)
        self.exitblk.term = ('ret',)
        self.throwblk.term = ('ret',)
        for b in self.blocks:
            if b.term is None:
                b.term = ('ret',)
        return self

    def rcls(self, ty):
        """repo class held by value"""
        if ty.get('ref') or ty.get('rref') or ty.get('ptr'):
            return None
        r = ty.get('rc')
        return r if r in self.P.records else None

    def rclsv(self, ty):
        """repo class of an object of this (possibly reference) type"""
        if ty.get('ptr'):
            return None
        r = ty.get('rc')
        return r if r in self.P.records else None

    def load(self, addr, ty=None):
        x = {}
        if ty is not None:
            c = self.rclsv(ty)
            if c:
                x['cls'] = c
            x['t'] = ty
        return self.emit('load', [addr], x)

    def store(self, addr, v, ty=None, init=False):
        x = {}
        if ty is not None:
            c = self.rclsv(ty)
            if c:
                x['cls'] = c
            x['t'] = ty
        if init:
            x['init'] = 1
        self.emit('store', [addr, v], x, d=False)

    # ------------------------------------------------------------ scopes
    def dtor_of(self, cls):
        r = self.P.records.get(cls)
        if not r:
            return None
        for u in r['methods']:
            f = self.P.functions.get(u)
            if f and f['fn'].get('dtor') and f.get('body') and not f.get('defaulted') and f['body'].get('s'):
                return u
        return None

    def pop_scope(self):
        s = self.ctx.scopes.pop()
        self.run_dtors(s)

    def run_dtors(self, s):
        for addr, u in reversed(s):
            self.inline(u, t.PTR(addr), [], None)

    def unwind(self, depth):
        for s in reversed(self.ctx.scopes[depth:]):
            self.run_dtors(s)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if 'l' in s and s['l']:
            self.loc = s['l']
        if k == 'expr':
            self.loc = s['e'].get('l') or self.loc
            self.ev(s['e'])
        elif k == 'block':
            self.ctx.scopes.append([])
            for x in s['s']:
                self.stmt(x)
            self.pop_scope()
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'if':
            self.ctx.scopes.append([])
            if s.get('init'):
                self.stmt(s['init'])
            if s.get('cv'):
                self.decl(s['cv'])
            bt, bf, je = self.blk(), self.blk(), self.blk()
            self.cond(s['c'], bt, bf)
            self.start(bt)
            self.stmt(s['a'])
            self.jmp(je)
            self.start(bf)
            if s.get('b'):
                self.stmt(s['b'])
            self.jmp(je)
            self.start(je)
            self.pop_scope()
        elif k in ('while', 'for'):
            self.ctx.scopes.append([])
            if k == 'for' and s.get('init'):
                self.stmt(s['init'])
            h, body, inc, ex = self.blk(), self.blk(), self.blk(), self.blk()
            self.jmp(h)
            self.start(h)
            if s.get('cv'):
                self.decl(s['cv'])
            if s.get('c'):
                self.loc = s['c'].get('l') or self.loc
                self.cond(s['c'], body, ex)
            else:
                self.jmp(body)
            self.start(body)
            self.loops.append((ex, inc, len(self.ctx.scopes), self.ctx))
            self.stmt(s['b'])
            self.loops.pop()
            self.jmp(inc)
            self.start(inc)
            if k == 'for' and s.get('inc'):
                self.loc = s['inc'].get('l') or self.loc
                self.ev(s['inc'])
            self.jmp(h)
            self.start(ex)
            self.pop_scope()
        elif k == 'do':
            body, inc, ex = self.blk(), self.blk(), self.blk()
            self.jmp(body)
            self.start(body)
            self.loops.append((ex, inc, len(self.ctx.scopes), self.ctx))
            self.stmt(s['b'])
            self.loops.pop()
            self.jmp(inc)
            self.start(inc)
            self.loc = s['c'].get('l') or self.loc
            self.cond(s['c'], body, ex)
            self.start(ex)
        elif k == 'rfor':
            self.rfor(s)
        elif k == 'ret':
            self.ret(s)
        elif k == 'break':
            ex, inc, d, c = self.loops[-1]
            self.unwind(d)
            self.jmp(ex)
            self.start(self.blk())
        elif k == 'continue':
            for ex, inc, d, c in reversed(self.loops):
                if inc is not None:
                    break
            self.unwind(d)
            self.jmp(inc)
            self.start(self.blk())
        elif k == 'null':
            pass
        elif k == 'switch':
            self.switch(s)
        elif k in ('case', 'default'):
            b = self.blk()
            self.jmp(b)
            self.start(b)
            self.cases[-1].append((s, b))
            self.stmt(s['s'])
        elif k == 'try':
            hs = []
            je = self.blk()
            body = self.blk()
            for h in s['h']:
                hs.append(self.blk())
            self.any([body] + hs)
            self.start(body)
            self.handlers.append(hs[0] if hs else self.throwblk)
            self.stmt(s['b'])
            self.handlers.pop()
            self.jmp(je)
            for h, hb in zip(s['h'], hs):
                self.start(hb)
                self.emit('catch', [], {'t': h['v']['t'] if 'v' in h else None}, d=False)
                if 'v' in h:
                    self.declare(h['v'])
                self.stmt(h['b'])
                self.jmp(je)
            self.start(je)
        elif k == 'label':
            self.stmt(s['s'])
        else:
            self.notes.append('statement %s at %s' % (s.get('sc', k), s.get('l')))

    loops = []
    cases = []
    handlers = []

    def switch(self, s):
        self.ctx.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.decl(s['cv'])
        v = self.rv(s['c'])
        ex = self.blk()
        head = self.cur
        self.cases.append([])
        self.loops.append((ex, None, len(self.ctx.scopes), self.ctx))
        self.start(self.blk())
        self.stmt(s['b'])
        self.jmp(ex)
        self.loops.pop()
        cs = self.cases.pop()
        self.start(head)
        dflt = ex
        for c, b in cs:
            if c['k'] == 'default':
                dflt = b
                continue
            cv = self.rv(c['e'])
            r = self.emit('bin', [v, cv], {'op': '=='})
            nx = self.blk()
            self.br(r, b, nx)
            self.start(nx)
        self.jmp(dflt)
        self.start(ex)
        self.pop_scope()

    def declare(self, v):
        a = raw('var', v['id'], self.ctx.id)
        ty = v['t']
        isref = bool(ty.get('ref') or ty.get('rref'))
        if v.get('static'):
            a = raw('var', v['id'], 'G')
        self.ctx.vars[v['id']] = (a, isref)
        self.ctx.clos.pop(v['id'], None)
        return a, isref

    def decl(self, v):
        a, isref = self.declare(v)
        self.loc = v.get('l') or self.loc
        init = v.get('init')
        if v.get('static'):
            self.emit('staticdecl', [a], {'t': v['t'], 'n': v['id']}, d=False)
            if init is None:
                return
        if isref:
            if init is not None:
                cl = self.closure_of(init)
                if cl:
                    self.ctx.clos[v['id']] = cl
                self.store(a, self.lv(init), init=True)
            return
        if init is None:
            self.store(a, t.UNDEF, None, init=True)
            return
        cl = self.closure_of(init)
        if cl is not None:
            self.ctx.clos[v['id']] = cl
            return
        self.construct(a, init, v['t'])
        c = self.rcls(v['t'])
        if c:
            u = self.dtor_of(c)
            if u and self.ctx.scopes:
                self.ctx.scopes[-1].append((a, u))

    def rfor(self, s):
        self.ctx.scopes.append([])
        rng = s['r']
        ra = self.lv(rng)
        v = s['v']
        iv = self.tmpvar('idx')
        self.emit('range', [ra], {'t': rng['t']}, d=False)
        self.store(iv, t.ZERO, init=True)
        h, body, inc, ex = self.blk(), self.blk(), self.blk(), self.blk()
        self.jmp(h)
        self.start(h)
        i = self.load(iv)
        c = self.emit('rangecond', [ra, i], {'t': rng['t']})
        self.br(c, body, ex)
        self.start(body)
        i2 = self.load(iv)
        ea = self.emit('elem', [ra, i2], {'t': rng['t'], 'range': 1})
        a, isref = self.declare(v)
        if isref and not self._json(rng['t']):
            self.store(a, ea, init=True)
        elif isref:
            self.store(a, ea, init=True)
        else:
            val = self.load(ea, v['t'])
            if self._json(rng['t']) and not self._json(v['t']):
                val = self.emit('call', [ea], {'name': 'get', 'cls': 'nlohmann::basic_json', 'obj': 1, 'rt': v['t'],
                                               'kinds': (), 'fn': {'n': 'get', 'q': 'nlohmann::basic_json::get', 'cls': 'nlohmann::basic_json', 'rt': v['t'], 'pt': []}})
            self.store(a, val, v['t'], init=True)
        self.loops.append((ex, inc, len(self.ctx.scopes), self.ctx))
        self.stmt(s['b'])
        self.loops.pop()
        self.jmp(inc)
        self.start(inc)
        i3 = self.load(iv)
        n = self.emit('bin', [i3, t.ONE], {'op': '+', 'int': 1})
        self.store(iv, n)
        self.jmp(h)
        self.start(ex)
        self.pop_scope()

    def _json(self, ty):
        return (ty.get('rc') or '').endswith('basic_json')

    def ret(self, s):
        c = self.ctx
        if s.get('e') is not None:
            self.loc = s['e'].get('l') or self.loc
            if c.retT is not None:
                bt, bf = self.blk(), self.blk()
                self.cond(s['e'], bt, bf)
                sv_scopes = list(c.scopes)
                for b, to in ((bt, c.retT), (bf, c.retF)):
                    self.start(b)
                    self.unwind(0)
                    self.jmp(to)
                self.start(self.blk())
                return
            if c.retref:
                self.store(c.retvar, self.lv(s['e']), init=True)
            elif c.fn['fn']['rt']['s'] == 'void':
                self.ev(s['e'])
            else:
                cl = self.closure_of(s['e'])
                if cl is not None:
                    c.retclo = cl
                self.construct(c.retvar, s['e'], c.fn['fn']['rt'])
        self.unwind(0)
        self.jmp(c.exit)
        self.start(self.blk())

    # ------------------------------------------------------------ conditions
    def cond(self, e, bt, bf):
        e = strip(e)
        if e['k'] == 'un' and e['op'] == '!':
            return self.cond(e['e'], bf, bt)
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            m = self.blk()
            if e['op'] == '&&':
                self.cond(e['a'], m, bf)
            else:
                self.cond(e['a'], bt, m)
            self.start(m)
            return self.cond(e['b'], bt, bf)
        if e['k'] == 'call':
            c = self.callee(e)
            if c and c[0] == 'inline' and self.P.functions[c[1]]['fn']['rt'].get('bool'):
                usr, thisop, args = c[1:4]
                self.inline(usr, thisop(), args, None, cond=(bt, bf), outer=c[4] if len(c) > 4 else None)
                return
        v = self.rv(e)
        self.br(v, bt, bf)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """evaluate for effect"""
        k = e['k']
        if k == 'bin' and e.get('asg') or k == 'un' and e['op'] in ('++', '--'):
            self.lv(e)
        elif e.get('gl') and k not in ('call',):
            self.lv(e)
        elif k == 'bin' and e['op'] in ('&&', '||'):
            j = self.blk()
            self.cond(e, j, j)
            self.start(j)
        else:
            self.rv(e, used=False)

    def lookup(self, vid):
        c = self.ctx
        while c is not None:
            if vid in c.vars:
                return c.vars[vid]
            c = c.outer
        return None

    def fldaddr(self, base, f, cls):
        a = self.emit('fld', [base], {'f': f, 'cls': cls})
        return a

    def isreffield(self, cls, f):
        r = self.P.records.get(cls)
        if r:
            for q in r['fields']:
                if q['n'] == f:
                    return bool(q['t'].get('ref'))
        return False

    def lv(self, e):
        e0 = e
        while e['k'] in ('defarg', 'definit'):
            e = e['e']
        k = e['k']
        if e.get('l'):
            self.loc = e['l']
        if k == 'mat':
            return self.materialise(e['e'])
        if k == 'ref':
            d = e['d']
            if d['vk'] in ('param', 'local', 'static'):
                r = self.lookup(d['id'])
                if r is None:
                    if d['vk'] == 'static':
                        return raw('var', d['id'], 'G')
                    self.notes.append('unbound variable %s at %s' % (d['id'], e['l']))
                    return raw('var', d['id'], '?')
                a, isref = r
                if isref:
                    return self.emit('load', [a], {'ref': 1})
                return a
            if d['vk'] == 'global':
                return raw('var', d['q'], 'G')
            if d['vk'] == 'func':
                return raw('fn', d['fn']['u'], d['fn']['q'])
            return raw('var', d['q'], 'G')
        if k == 'mem':
            if 'd' in e and e['d'].get('vk') == 'global':
                return raw('var', e['d']['q'], 'G')
            b = e['b']
            if e.get('arrow'):
                base = self.emit('deref', [self.rv(b)], {'arrow': 1})
            else:
                base = self.lv(b)
            if e.get('l'):
                self.loc = e['l']
            a = self.fldaddr(base, e['f'], e.get('cls'))
            if self.isreffield(e.get('cls'), e['f']):
                return self.emit('load', [a], {'ref': 1})
            return a
        if k == 'this':
            return self.emit('deref', [self.this()], {})
        if k == 'un':
            if e['op'] == '*':
                p = self.rv(e['e'])
                self.loc = e['l']
                return self.emit('deref', [p], {'star': 1})
            if e['op'] in ('++', '--') and not e.get('post'):
                a = self.lv(e['e'])
                self.incdec(a, e)
                return a
        if k == 'bin':
            if e.get('asg'):
                return self.assign(e)
            if e['op'] == ',':
                self.ev(e['a'])
                return self.lv(e['b'])
        if k == 'idx':
            p = self.rv(e['a'])
            i = self.rv(e['i'])
            self.loc = e['l']
            q = self.emit('bin', [p, i], {'op': '+', 'ptr': 1})
            return self.emit('deref', [q], {'idx': 1})
        if k == 'cond':
            v = self.tmpvar('sel')
            bt, bf, je = self.blk(), self.blk(), self.blk()
            self.cond(e['c'], bt, bf)
            self.start(bt)
            self.store(v, self.lv(e['a']))
            self.jmp(je)
            self.start(bf)
            self.store(v, self.lv(e['b']))
            self.jmp(je)
            self.start(je)
            return self.emit('load', [v], {'ref': 1})
        if k == 'call' and e.get('gl'):
            return self.call(e)
        if k == 'cast' and e.get('gl'):
            if e['ck'] == 'BaseToDerived':
                a = self.lv(e['e'])
                self.emit('downcast', [a], {'to': e['t'], 'from': e['e']['t'], 'dyn': 0}, d=False)
                return a
            if e['ck'] == 'Dynamic':
                return self.lv(e['e'])
            return self.lv(e['e'])
        if k == 'str':
            return raw('strobj', e['v'])
        if k == 'lambda':
            return self.materialise(e)
        if k == 'other' and e.get('gl'):
            self.notes.append('expression %s at %s' % (e['sc'], e['l']))
            for x in e['args']:
                if x:
                    self.ev(x)
            return self.tmpvar('other')
        return self.materialise(e)

    def materialise(self, e):
        v = self.tmpvar('mat')
        self.construct(v, e, e['t'])
        return v

    def this(self):
        c = self.ctx
        while c is not None and c.this is None:
            c = c.outer
        return c.this if c is not None else raw('this')

    def construct(self, addr, e, ty):
        e = strip(e)
        if e is None:
            self.store(addr, t.UNDEF, None, init=True)
            return
        if e['k'] == 'ctor':
            cls = e['fn'].get('cls')
            if (e.get('copy') or e.get('move')) and e.get('elid') and e['args']:
                inner = strip(e['args'][0])
                if not inner.get('gl') or inner['k'] in ('ctor', 'call') and not inner.get('gl'):
                    return self.construct(addr, inner, ty)
            if cls in self.P.records:
                self.ctor_call(addr, e)
                return
        if e['k'] == 'ilist' and self.rcls(e['t']):
            r = self.P.records[e['t']['rc']]
            for f, a in zip(r['fields'], e['args']):
                fa = self.fldaddr(addr, f['n'], e['t']['rc'])
                if f['t'].get('ref'):
                    self.store(fa, self.lv(a), init=True)
                else:
                    self.construct(fa, a, f['t'])
            return
        if e['k'] == 'ilist' and len(e['args']) == 1 and not e['t'].get('rc') and not e['t'].get('arr'):
            return self.construct(addr, e['args'][0], ty)
        v = self.rv(e)
        self.store(addr, v, ty, init=True)

    def ctor_call(self, addr, e):
        F = self.P.functions.get(e['fn']['u'])
        if F is None or ('body' not in F and 'inits' not in F) or ('body' not in F and not F.get('inits')):
            # implicit: copy or default
            if (e.get('copy') or e.get('move')) and e['args']:
                src = self.lv(e['args'][0])
                v = self.emit('load', [src], {'cls': e['fn']['cls']})
                self.emit('store', [addr, v], {'cls': e['fn']['cls'], 'init': 1}, d=False)
            else:
                self.default_init(addr, e['fn']['cls'])
            return
        if F.get('defaulted') and (F.get('copyctor') or F.get('movector')) and e['args']:
            src = self.lv(e['args'][0])
            v = self.emit('load', [src], {'cls': e['fn']['cls']})
            self.emit('store', [addr, v], {'cls': e['fn']['cls'], 'init': 1}, d=False)
            return
        self.inline(e['fn']['u'], self.emit('addr', [addr]), e['args'], None)

    def default_init(self, addr, cls):
        r = self.P.records.get(cls)
        if not r:
            return
        for b in r['bases']:
            self.default_init(addr, b)
        for f in r['fields']:
            fa = self.fldaddr(addr, f['n'], cls)
            if f.get('init'):
                self.construct(fa, f['init'], f['t'])
            elif f['t'].get('rc') in self.P.records and not f['t'].get('ptr') and not f['t'].get('ref'):
                self.default_init(fa, f['t']['rc'])
            elif f['t'].get('rc') and not f['t'].get('ptr'):
                self.store(fa, self.emit('stddef', [], {'t': f['t']}), f['t'], init=True)
            else:
                self.store(fa, t.UNDEF, None, init=True)

    def ctor_inits(self, F, this):
        cls = F['fn']['cls']
        r = self.P.records.get(cls, {'fields': [], 'bases': []})
        obj = self.emit('deref', [this], {})
        ins = F.get('inits', [])
        named = {i['f'] for i in ins if 'f' in i}
        if not any('deleg' in i for i in ins):
            for f in r['fields']:
                if f['n'] not in named:
                    fa = self.fldaddr(obj, f['n'], cls)
                    if f.get('init'):
                        self.construct(fa, f['init'], f['t'])
                    else:
                        self.store(fa, t.UNDEF, None, init=True)
        for i in ins:
            self.loc = i.get('l') or self.loc
            if 'f' in i:
                fa = self.fldaddr(obj, i['f'], cls)
                if self.isreffield(cls, i['f']):
                    self.store(fa, self.lv(i['e']), init=True)
                else:
                    self.construct(fa, i['e'], i['ft'])
            else:
                e = strip(i['e'])
                if e is not None and e['k'] == 'ctor':
                    if e['fn'].get('cls') in self.P.records:
                        if (e.get('copy') or e.get('move')) and e['args']:
                            FF = self.P.functions.get(e['fn']['u'])
                            if FF is None or FF.get('defaulted') or 'body' not in FF:
                                src = self.lv(e['args'][0])
                                v = self.emit('load', [src], {'cls': e['fn']['cls']})
                                self.emit('store', [obj, v], {'cls': e['fn']['cls'], 'init': 1}, d=False)
                                continue
                        self.ctor_call(obj, e)

    def incdec(self, a, e):
        old = self.load(a, e['e']['t'])
        self.loc = e['l']
        n = self.emit('bin', [old, t.ONE], {'op': '+' if e['op'] == '++' else '-', 'int': 1, 't': e['t']})
        self.store(a, n, e['e']['t'])
        return old

    def assign(self, e):
        op = e['op']
        if op == '=':
            # C++ leaves the order open for builtin types; compilers evaluate the right side first
            v = self.rv(e['b'])
            a = self.lv(e['a'])
            self.loc = e['l']
            self.store(a, v, e['a']['t'])
            return a
        v = self.rv(e['b'])
        a = self.lv(e['a'])
        old = self.load(a, e['a']['t'])
        self.loc = e['l']
        n = self.emit('bin', [old, v], {'op': op[:-1], 'int': e.get('ct', e['t']).get('int'), 't': e['t']})
        self.store(a, n, e['a']['t'])
        return a

    def rv(self, e, used=True):
        e = strip(e) if e['k'] != 'mat' or not e.get('gl') else strip(e)
        k = e['k']
        if e.get('l'):
            self.loc = e['l']
        if k == 'lit':
            return C(e['v']) if not (e['t'].get('flt')) else C(float(e['v']))
        if k == 'null':
            return t.NULL
        if k == 'ref' and e['d'].get('vk') == 'enum':
            return C(e['d']['v'])
        if k == 'str':
            return raw('str', e['v'])
        if k == 'this':
            return self.this()
        if k == 'zero':
            if e['t'].get('ptr'):
                return t.NULL
            return C(0.0) if e['t'].get('flt') else t.ZERO
        if k == 'cast':
            return self.cast(e)
        if k == 'un':
            op = e['op']
            if op == '&':
                x = strip(e['e'])
                if x['k'] == 'ref' and x['d']['vk'] in ('func', 'other'):
                    if x['d']['vk'] == 'func':
                        return raw('fn', x['d']['fn']['u'], x['d']['fn']['q'])
                    return raw('fn', '?', x['d']['q'])
                return self.emit('addr', [self.lv(e['e'])])
            if op in ('++', '--'):
                if e.get('post'):
                    a = self.lv(e['e'])
                    return self.incdec(a, e)
                return self.load(self.lv(e), e['t'])
            if op == '*':
                return self.load(self.lv(e), e['t'])
            v = self.rv(e['e'])
            self.loc = e['l']
            return self.emit('un', [v], {'op': op})
        if k == 'bin':
            op = e['op']
            if e.get('asg'):
                return self.load(self.lv(e), e['t'])
            if op in ('&&', '||'):
                v = self.tmpvar('sc')
                bt, bf, je = self.blk(), self.blk(), self.blk()
                self.cond(e, bt, bf)
                self.start(bt)
                self.store(v, t.TRUE)
                self.jmp(je)
                self.start(bf)
                self.store(v, t.FALSE)
                self.jmp(je)
                self.start(je)
                return self.load(v)
            if op == ',':
                self.ev(e['a'])
                return self.rv(e['b'])
            a = self.rv(e['a'])
            b = self.rv(e['b'])
            self.loc = e['l']
            x = {'op': op, 'int': e['t'].get('int'), 'at': e['a']['t'], 'bt': e['b']['t'], 't': e['t']}
            return self.emit('bin', [a, b], x)
        if k == 'cond':
            if e.get('gl'):
                return self.load(self.lv(e), e['t'])
            v = self.tmpvar('sel')
            bt, bf, je = self.blk(), self.blk(), self.blk()
            self.cond(e['c'], bt, bf)
            for b, x in ((bt, e['a']), (bf, e['b'])):
                self.start(b)
                x = strip(x)
                if x['k'] == 'throw':
                    self.rv(x)
                else:
                    self.construct(v, x, e['t'])
                self.jmp(je)
            self.start(je)
            return self.load(v, e['t'])
        if k == 'call':
            r = self.call(e)
            if e.get('gl'):
                if not used:
                    return r
                return self.load(r, e['t'])
            return r
        if k == 'ctor':
            return self.ctorval(e)
        if k == 'ilist':
            if self.rcls(e['t']):
                v = self.tmpvar('tmp')
                self.construct(v, e, e['t'])
                return self.load(v, e['t'])
            if len(e['args']) == 1 and not e['t'].get('rc') and not e['t'].get('arr'):
                return self.rv(e['args'][0])
            return self.emit('ilist', [self.rv(x) for x in e['args']], {'t': e['t']})
        if k == 'new':
            self.newsite += 1
            site = raw('new', self.newsite, e['at'].get('rc') or e['at']['s'])
            p = self.emit('alloc', [], {'site': site, 'how': 'new', 't': e['at']})
            if e.get('e') is not None:
                self.construct(site, e['e'], e['at'])
            elif e['at'].get('rc') in self.P.records:
                self.default_init(site, e['at']['rc'])
            else:
                self.store(site, t.UNDEF, None, init=True)
            return p
        if k == 'delete':
            v = self.rv(e['e'])
            self.emit('delete', [v], {}, d=False)
            return t.UNDEF
        if k == 'throw':
            v = self.rv(e['e']) if e.get('e') else t.UNDEF
            self.loc = e['l']
            self.emit('throw', [v], {'t': e['e']['t'] if e.get('e') else None}, d=False)
            self.jmp(self.handlers[-1] if self.handlers else self.throwblk)
            self.start(self.blk())
            return t.UNDEF
        if k == 'lambda':
            cl = self.closure_of(e)
            return self.emit('lam', [], {'clo': cl, 'usr': cl.usr})
        if e.get('gl'):
            return self.load(self.lv(e), e['t'])
        if k == 'other':
            self.notes.append('expression %s at %s' % (e['sc'], e['l']))
            for x in e['args']:
                if x:
                    self.ev(x)
            return self.emit('opaque', [], {'sc': e['sc']})
        self.notes.append('expression %s at %s' % (k, e.get('l', '')))
        return self.emit('opaque', [], {'sc': k})

    def ctorval(self, e):
        cls = e['fn'].get('cls')
        if cls in self.P.records:
            v = self.tmpvar('tmp')
            self.construct(v, e, e['t'])
            return self.load(v, e['t'])
        if (e.get('copy') or e.get('move')) and len(e['args']) >= 1:
            cl = self.closure_of(e['args'][0])
            if cl is not None:
                return self.emit('lam', [], {'clo': cl, 'usr': cl.usr})
            a = e['args'][0]
            s = strip(a)
            if s.get('gl'):
                src = self.lv(s)
                return self.load(src, e['t'])
            return self.rv(s)
        x = dict(e)
        x.pop('obj', None)
        return self.extcall(x, ctor=True)

    def cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'LValueToRValue':
            s = strip(sub)
            if s['k'] == 'ref' and s['d']['vk'] == 'func':
                return raw('fn', s['d']['fn']['u'], s['d']['fn']['q'])
            a = self.lv(sub)
            self.loc = e.get('l') or self.loc
            return self.load(a, e['t'])
        if e.get('gl'):
            return self.load(self.lv(e), e['t'])
        if ck == 'ArrayToPointerDecay':
            s = strip(sub)
            if s['k'] == 'str':
                return raw('str', s['v'])
            a = self.lv(sub)
            return self.emit('decay', [a], {'t': sub['t']})
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            v = self.rv(sub)
            return self.emit('un', [v], {'op': 'bool', 'ptr': ck == 'PointerToBoolean'})
        if ck == 'FloatingToIntegral':
            return self.emit('un', [self.rv(sub)], {'op': 'f2i'})
        if ck == 'NullToPointer':
            return t.NULL
        if ck == 'BaseToDerived':
            v = self.rv(sub)
            self.emit('downcast', [v], {'to': e['t'], 'from': sub['t'], 'dyn': 0}, d=False)
            return v
        if ck == 'IntegralCast':
            v = self.rv(sub)
            ft, tt = sub['t'], e['t']
            if ft.get('w') and tt.get('w') and (ft['w'] > tt['w'] or (ft.get('uns') and not tt.get('uns') and ft['w'] >= tt['w'])
                                                or (not ft.get('uns') and tt.get('uns'))):
                return self.emit('icast', [v], {'from': ft, 'to': tt, 'ex': e.get('ex')})
            return v
        if ck in ('ToVoid',):
            self.ev(sub)
            return t.UNDEF
        return self.rv(sub)

    # ------------------------------------------------------------ closures and callees
    def closure_of(self, e):
        e = strip(e)
        if e is None:
            return None
        if e['k'] == 'lambda':
            if id(e) in self.clocache and self.clocache[id(e)].ctx is self.ctx:
                return self.clocache[id(e)]
            copies = {}
            for cp in e['caps']:
                if 'id' in cp and not cp['byref']:
                    r = self.lookup(cp['id'])
                    if r is not None:
                        nv = raw('var', cp['id'] + '~copy', self.ctx.id)
                        a = self.emit('load', [r[0]], {'ref': 1}) if r[1] else r[0]
                        vt = cp['e']['t'] if cp.get('e') else None
                        self.store(nv, self.load(a, vt), vt, init=True)
                        copies[cp['id']] = (nv, False)
            cl = Closure(e['fn']['u'], self.ctx, copies)
            self.clocache[id(e)] = cl
            return cl
        if e['k'] == 'ref' and e['d'].get('vk') in ('local', 'param', 'static'):
            c = self.ctx
            while c is not None:
                if e['d']['id'] in c.clos:
                    return c.clos[e['d']['id']]
                if e['d']['id'] in c.vars:
                    return None
                c = c.outer
            return None
        if e['k'] == 'ctor' and e['args'] and (e.get('copy') or e.get('move') or 'function' in (e['fn'].get('cls') or '')
                                                or e['fn']['n'].startswith('(lambda')):
            return self.closure_of(e['args'][0])
        if e['k'] == 'cast' and e.get('ck') in ('LValueToRValue', 'NoOp'):
            return self.closure_of(e['e'])
        if e['k'] == 'call' and e.get('fn', {}).get('q') in ('std::move', 'std::forward', 'std::ref', 'std::cref') and e['args']:
            return self.closure_of(e['args'][0])
        return None

    clocache = {}

    def callable_of(self, e):
        """-> ('clo', closure) | ('fn', usr) | ('obj', addr, usr) | None"""
        cl = self.closure_of(e)
        if cl:
            return ('clo', cl)
        x = strip(e)
        while x['k'] == 'cast':
            x = strip(x['e'])
        if x['k'] == 'un' and x['op'] == '&':
            x = strip(x['e'])
        if x['k'] == 'ref' and x['d'].get('vk') == 'func':
            u = x['d']['fn']['u']
            if u in self.P.functions and 'body' in self.P.functions[u]:
                return ('fn', u)
            return ('ext', x['d']['fn'])
        rc = (x.get('t') or {}).get('rc')
        if rc in self.P.records:
            for u in self.P.records[rc]['methods']:
                f = self.P.functions.get(u)
                if f and f['fn'].get('op') == '()' and 'body' in f:
                    return ('obj', self.lv(e), u)
        return None

    def apply(self, cb, vals, types):
        """call a callable with already evaluated operands; vals are (kind, operand)"""
        if cb[0] == 'clo':
            return self.inline(cb[1].usr, None, vals, None, outer=cb[1], pre=True)
        if cb[0] == 'fn':
            return self.inline(cb[1], None, vals, None, pre=True)
        if cb[0] == 'obj':
            return self.inline(cb[2], self.emit('addr', [cb[1]]), vals, None, pre=True)
        if cb[0] == 'ext':
            fn = cb[1]
            ops, kinds = [], []
            for (k, v), pt in zip(vals, fn['pt']):
                if pt.get('ref') or pt.get('rref'):
                    ops.append(v if k == 'addr' else self.box(v))
                    kinds.append('addr')
                else:
                    ops.append(self.emit('load', [v], {}) if k == 'addr' else v)
                    kinds.append('val')
            return self.emit('call', ops, {'fn': fn, 'name': fn['n'], 'cls': fn.get('cls'), 'kinds': tuple(kinds), 'rt': fn['rt']})
        raise Unsupported('callable')

    def box(self, v):
        a = self.tmpvar('box')
        self.store(a, v, init=True)
        return a

    def callee(self, e):
        """classify a call: ('inline', usr, this-thunk, args[, closure])"""
        fn = e.get('fn')
        if fn is None:
            cb = None
            x = e.get('fe')
            if x is not None:
                cl = self.closure_of(x)
                if cl:
                    return ('inline', cl.usr, lambda: None, e['args'], cl)
                cbv = self.callable_of(x) if x else None
                if cbv and cbv[0] == 'fn':
                    return ('inline', cbv[1], lambda: None, e['args'])
            return None
        if fn.get('lambda') and fn.get('op') == '()':
            cl = self.closure_of(e['obj'])
            if cl:
                return ('inline', cl.usr, lambda: None, e['args'], cl)
            return None
        if fn.get('op') == '()' and (fn.get('cls') or '').startswith('std::function'):
            cl = self.closure_of(e['obj'])
            if cl:
                return ('inline', cl.usr, lambda: None, e['args'], cl)
            return None
        if not fn.get('repo'):
            return None
        usr = fn['u']
        F = self.P.functions.get(usr)
        cands = [usr] if F and 'body' in F else []
        if fn.get('virt') and not e.get('qual') and not self.exact(e.get('obj')):
            cands = [u for u in [usr] + sorted(self.overs.get(usr, ())) if 'body' in self.P.functions.get(u, {})]
        if self.dispatch:
            r = self.dispatch(fn, cands)
            if r is not None:
                cands = r
        if not cands:
            return None
        if len(cands) > 1:
            return ('multi', cands, e)
        if self.opaque(self.P.functions[cands[0]]['fn']) is not None:
            return None
        if any(c == cands[0] for c in self.onstack()) or len(self.ctx.stack) > self.maxdepth:
            return None

        def th():
            if 'obj' not in e:
                return None
            return self.objptr(e)
        return ('inline', cands[0], th, e['args'])

    def onstack(self):
        c = self.ctx
        r = []
        while c is not None:
            r.append(c.fn['fn']['u'])
            c = getattr(c, 'caller', None)
        return r

    def exact(self, o):
        if o is None:
            return False
        o = strip(o)
        if o['k'] == 'ref' and o['d'].get('vk') == 'local' and not o['d']['t'].get('ref') and not o['d']['t'].get('ptr'):
            return True
        return o['k'] in ('ctor',)

    def objptr(self, e):
        o = e['obj']
        if e.get('arrow'):
            return self.rv(o)
        s = strip(o)
        if s['k'] == 'this':
            return self.this()
        return self.emit('addr', [self.lv(o)])

    def call(self, e):
        """-> operand: value, or address if the result is a reference"""
        fn = e.get('fn')
        loc = e.get('l')
        if fn and fn['q'] in ('std::move', 'std::forward') and len(e['args']) == 1:
            return self.lv(e['args'][0])
        if fn and fn.get('q', '').startswith('std::') and fn['n'] in STDALG and not fn.get('cls'):
            r = self.stdalg(e)
            if r is not None:
                return r
        c = self.callee(e)
        if c and c[0] == 'inline':
            th = c[2]()
            self.loc = loc or self.loc
            return self.inline(c[1], th, c[3], e, outer=c[4] if len(c) > 4 else None)
        if c and c[0] == 'multi':
            return self.multi(c[1], e)
        if fn and fn['q'] in ('std::make_shared', 'std::make_unique'):
            ta = (e['t'].get('ta') or [{}])[0]
            self.newsite += 1
            site = raw('new', self.newsite, ta.get('rc') or ta.get('s'))
            if ta.get('rc') in self.P.records:
                ops = self.construct_from(site, ta['rc'], e['args'])
                if ops:
                    self.loc = loc or self.loc
                    return self.emit('alloc', [], {'site': site, 'how': 'make', 't': ta})
        # emplace_back of a repo class
        if fn and fn['n'] in ('emplace_back',) and fn.get('cls') in ('std::vector', 'std::deque', 'std::list'):
            ot = e['obj']['t']
            ta = (ot.get('ta') or [{}])[0]
            if ta.get('rc') in self.P.records and not ta.get('ptr'):
                v = self.tmpvar('emp')
                if self.construct_from(v, ta['rc'], e['args']):
                    oa = self.objaddr(e)
                    self.loc = loc or self.loc
                    return self.emit('call', [oa, v], {'fn': dict(fn, n='push_back'), 'name': 'push_back', 'cls': fn['cls'], 'obj': 1,
                                                       'kinds': ('addr',), 'rt': e['t'], 'at': (ta,), 'ot': ot})
        return self.extcall(e)

    def objaddr(self, e):
        if e.get('arrow'):
            return self.emit('deref', [self.rv(e['obj'])], {'arrow': 1})
        return self.lv(e['obj'])

    def extcall(self, e, ctor=False):
        fn = e.get('fn')
        ops, kinds, ats = [], [], []
        obj = 0
        if 'obj' in e:
            ops.append(self.objaddr(e))
            obj = 1
        pts = fn['pt'] if fn else []
        clos = {}
        for i, a in enumerate(e['args']):
            pt = pts[i] if i < len(pts) else None
            cl = self.closure_of(a)
            if cl is not None:
                clos[i] = cl
                ops.append(raw('lam', cl.usr))
                kinds.append('lam')
                ats.append(a['t'])
                continue
            if (pt and (pt.get('ref') or pt.get('rref'))) or (pt is None and a.get('gl')):
                ops.append(self.lv(a))
                kinds.append('addr')
            else:
                ops.append(self.rv(a))
                kinds.append('val')
            ats.append(a['t'])
        self.loc = e.get('l') or self.loc
        fe = None
        if fn is None:
            fe = self.rv(e['fe']) if e.get('fe') else None
            fn = {'n': '?', 'q': '?indirect', 'pt': [], 'rt': e['t']}
        x = {'fn': fn, 'name': fn['n'], 'cls': fn.get('cls'), 'obj': obj, 'kinds': tuple(kinds), 'rt': fn['rt'], 'at': tuple(ats),
             'clos': clos, 'op': fn.get('op'), 'pt': tuple(pts), 'fe': fe}
        if ctor:
            x['ctor'] = 1
            x['rt'] = e['t']
            x['name'] = 'ctor'
        if 'obj' in e:
            x['ot'] = e['obj']['t']
        if fn.get('repo'):
            x['repo'] = self.opaque(fn) or 'unknown'
        return self.emit('call', ops, x)

    def multi(self, cands, e):
        thp = self.objptr(e) if 'obj' in e else None
        pts = e['fn']['pt']
        vals = []
        for a, pt in zip(e['args'], pts):
            if pt.get('ref') or pt.get('rref'):
                vals.append(('addr', self.lv(a)))
            else:
                vals.append(('val', self.rv(a)))
        rt = e['fn']['rt']
        isref = rt.get('ref') or rt.get('rref')
        v = self.tmpvar('mres')
        je = self.blk()
        self.emit('vcall', [thp] if thp is not None else [], {'fn': e['fn'], 'cands': cands}, d=False)
        if self.opaque(e['fn']) is not None:
            return self.emit('call', ([thp] if thp is not None else []) + [b for a, b in vals],
                             {'fn': e['fn'], 'name': e['fn']['n'], 'cls': e['fn'].get('cls'), 'obj': 1 if thp is not None else 0, 'kinds': tuple(a for a, b in vals),
                              'rt': rt, 'at': tuple(a['t'] for a in e['args']), 'repo': self.opaque(e['fn']), 'objptr': 1, 'clos': {}, 'pt': tuple(pts)})
        bs = [self.blk() for _ in cands]
        self.any(bs)
        for u, b in zip(cands, bs):
            self.start(b)
            if any(c == u for c in self.onstack()):
                r = self.emit('opaque', [], {'sc': 'recursion'})
            else:
                r = self.inline(u, thp, vals, None, pre=True)
            if rt['s'] != 'void':
                self.store(v, r, None if isref else rt, init=True)
            self.jmp(je)
        self.start(je)
        if rt['s'] == 'void':
            return t.UNDEF
        if isref:
            return self.emit('load', [v], {'ref': 1})
        return self.load(v, rt)

    def inline(self, usr, this, args, e, cond=None, outer=None, pre=False):
        F = self.P.functions[usr]
        fi = F['fn']
        callloc = self.loc
        caller = self.ctx
        n = Ctx(F, outer.ctx if outer else None, this, caller.stack + ((callloc, fi['q']),))
        n.caller = caller
        self.inlined[fi['q']] = self.inlined.get(fi['q'], 0) + 1
        if outer:
            n.vars.update(outer.copies)
        # arguments are evaluated in the caller
        binds = []
        eops = []
        ps = F['params']
        for i, p in enumerate(ps):
            pt = p['t']
            isref = bool(pt.get('ref') or pt.get('rref'))
            a = raw('var', p['id'], n.id)
            if i < len(args):
                x = args[i]
                if pre:
                    kind, v = x
                    if isref and kind != 'addr':
                        v = self.box(v)
                    elif not isref and kind == 'addr':
                        v = self.load(v, pt)
                    binds.append((p, a, isref, v))
                else:
                    cl = self.closure_of(x)
                    if cl is not None:
                        n.clos[p['id']] = cl
                        n.vars[p['id']] = (a, isref)
                        continue
                    if isref:
                        binds.append((p, a, True, self.lv(x)))
                    elif self.rcls(pt):
                        # by value: constructed in place
                        self.construct(a, x, pt)
                        n.vars[p['id']] = (a, False)
                        eops.append(a)
                        continue
                    else:
                        binds.append((p, a, False, self.rv(x)))
            elif 'def' in p:
                binds.append((p, a, isref, self.lv(p['def']) if isref else self.rv(p['def'])))
            else:
                binds.append((p, a, isref, t.UNDEF))
        self.loc = callloc
        for p, a, isref, v in binds:
            n.vars[p['id']] = (a, isref)
            self.store(a, v, None if isref else p['t'], init=True)
            eops.append(v)
        self.emit('enter', ([this] if this is not None else []) + eops,
                  {'fn': fi, 'obj': 1 if this is not None else 0, 'params': ps, 'ctx': n.id}, d=False)
        n.retvar = raw('var', 'ret', n.id)
        n.retref = bool(fi['rt'].get('ref') or fi['rt'].get('rref'))
        n.exit = self.blk()
        sl, sc = self.loops, self.cases
        self.loops, self.cases = [], []
        if cond:
            # each branch target gets its own leave block
            lt, lf = self.blk(), self.blk()
            n.retT, n.retF = lt, lf
        self.ctx = n
        n.scopes.append([])
        if fi.get('ctor'):
            self.ctor_inits(F, this)
        self.stmt(F.get('body'))
        self.pop_scope()
        self.jmp(n.exit)
        self.loops, self.cases = sl, sc
        if cond:
            self.ctx = caller
            self.loc = callloc
            for b, to, v in ((lt, cond[0], t.TRUE), (lf, cond[1], t.FALSE)):
                self.start(b)
                self.emit('leave', [v], {'fn': fi, 'ctx': n.id}, d=False)
                self.jmp(to)
            # falling off the end
            self.start(n.exit)
            self.jmp(cond[1])
            self.start(self.blk())
            return None
        self.start(n.exit)
        r = t.UNDEF
        if fi['rt']['s'] != 'void' and not fi.get('ctor') and not fi.get('dtor'):
            if n.retref:
                r = self.emit('load', [n.retvar], {'ref': 1})
            else:
                r = self.load(n.retvar, fi['rt'])
        self.ctx = caller
        self.loc = callloc
        self.emit('leave', [r], {'fn': fi, 'ctx': n.id}, d=False)
        if getattr(n, 'retclo', None) is not None:
            pass
        return r

    def construct_from(self, addr, cls, args):
        """forwarding constructors (make_shared, emplace_back): choose the constructor by the argument types"""
        best = None
        for u in self.P.records[cls]['methods']:
            F = self.P.functions.get(u)
            if not F or not F['fn'].get('ctor') or F.get('deleted'):
                continue
            ps = F['params']
            need = sum(1 for p in ps if 'def' not in p)
            if not (need <= len(args) <= len(ps)):
                continue
            sc = 0
            for a, p in zip(args, ps):
                s = self.match(a['t'], p['t'], a)
                if s is None:
                    sc = None
                    break
                sc += s
            if sc is not None and (best is None or sc > best[0]):
                best = (sc, u)
        if best is None:
            if not args:
                self.default_init(addr, cls)
                return True
            return False
        F = self.P.functions[best[1]]
        if (F.get('copyctor') or F.get('movector')) and (F.get('defaulted') or 'body' not in F):
            src = self.lv(args[0])
            v = self.emit('load', [src], {'cls': cls})
            self.emit('store', [addr, v], {'cls': cls, 'init': 1}, d=False)
            return True
        if 'body' not in F and not F.get('inits'):
            if not args:
                self.default_init(addr, cls)
                return True
            return False
        self.inline(best[1], self.emit('addr', [addr]), args, None)
        return True

    def match(self, at, pt, a):
        clean = lambda s: s.replace('const ', '').replace('&', '').strip()
        if clean(at['s']) == clean(pt['s']):
            return 3
        num = lambda x: x.get('int') or x.get('flt')
        if num(at) and num(pt) and not at.get('ptr') and not pt.get('ptr'):
            return 2
        if pt.get('ptr') and (at.get('ptr') or 'nullptr' in at['s']):
            if at.get('rc') and pt.get('rc') and at['rc'] != pt['rc'] and not self.derives(at['rc'], pt['rc']):
                return None
            return 1
        if pt.get('rc') and at.get('rc'):
            if at['rc'] == pt['rc']:
                ta, tb = at.get('ta'), pt.get('ta')
                if ta and tb and ta[0].get('rc') != tb[0].get('rc') and not self.derives(ta[0].get('rc'), tb[0].get('rc')):
                    return None
                return 2 if ta == tb else 1
            if self.derives(at['rc'], pt['rc']):
                return 1
            return None
        if pt.get('rc', '').startswith('std::') and 'basic_string' in pt['rc'] and 'char' in at['s']:
            return 1
        if pt.get('rc') in ('std::shared_ptr', 'std::unique_ptr') and 'nullptr' in at['s']:
            return 1
        return None

    def derives(self, a, b):
        if a == b:
            return True
        r = self.P.records.get(a)
        return bool(r) and any(self.derives(x, b) for x in r['bases'])

    # ------------------------------------------------------------ standard algorithms taking callables
    def stdalg(self, e):
        n = e['fn']['n']
        A = e['args']
        cb = None
        ci = {'for_each': 2, 'any_of': 2, 'all_of': 2, 'none_of': 2, 'find_if': 2, 'find_if_not': 2, 'count_if': 2, 'copy_if': 3,
              'transform': 3, 'accumulate': 3, 'generate': 2, 'remove_if': 2, 'copy': None}[n]
        binary = False
        if n == 'transform' and len(A) == 5:
            ci, binary = 4, True
        if n == 'copy':
            out = strip(A[2])
        elif ci is None or ci >= len(A):
            return None
        else:
            cb = self.callable_of(A[ci])
            if cb is None:
                return None
        if n in ('remove_if', 'generate'):
            return None
        loc = e.get('l')
        first = self.tmpvar('it')
        self.store(first, self.rv(A[0]), init=True)
        last = self.rv(A[1])
        lastv = self.box(last)
        outv = second = acc = None
        if n in ('transform', 'copy_if', 'copy'):
            outv = self.tmpvar('out')
            self.store(outv, self.rv(A[3 if binary else 2]), init=True)
            if binary:
                second = self.tmpvar('it2')
                self.store(second, self.rv(A[2]), init=True)
        if n == 'accumulate':
            acc = self.tmpvar('acc')
            self.construct(acc, A[2], e['t'])
        if n == 'count_if':
            acc = self.tmpvar('acc')
            self.store(acc, t.ZERO, init=True)
        res = self.tmpvar('algres')
        self.loc = loc or self.loc
        h, body, inc, ex, done = self.blk(), self.blk(), self.blk(), self.blk(), self.blk()
        self.jmp(h)
        self.start(h)
        c = self.emit('bin', [self.load(first), self.load(lastv)], {'op': '!='})
        self.br(c, body, ex)
        self.start(body)
        ea = self.emit('deref', [self.load(first)], {'star': 1, 'alg': n})
        skip = None
        if n == 'for_each':
            self.apply(cb, [('addr', ea)], None)
        elif n in ('transform', 'copy'):
            if n == 'copy':
                v = self.load(ea)
            else:
                vals = [('addr', ea)]
                if binary:
                    vals.append(('addr', self.emit('deref', [self.load(second)], {'star': 1})))
                v = self.apply(cb, vals, None)
                rt = self.cbret(cb)
                if rt and (rt.get('ref') or rt.get('rref')):
                    v = self.load(v, rt)
            self.emit('outit', [outv, v], {}, d=False)
            if binary:
                self.store(second, self.emit('bin', [self.load(second), t.ONE], {'op': '+'}))
        elif n == 'accumulate':
            v = self.apply(cb, [('addr', acc), ('addr', ea)], None)
            rt = self.cbret(cb)
            if rt and (rt.get('ref') or rt.get('rref')):
                v = self.load(v, rt)
            self.store(acc, v)
        else:
            bt, bf = self.blk(), self.blk()
            v = self.apply(cb, [('addr', ea)], None)
            self.br(v, bt, bf)
            if n == 'count_if':
                self.start(bt)
                self.store(acc, self.emit('bin', [self.load(acc), t.ONE], {'op': '+', 'int': 1}))
                self.jmp(inc)
                self.start(bf)
            elif n == 'copy_if':
                self.start(bt)
                self.emit('outit', [outv, self.load(ea)], {}, d=False)
                self.jmp(inc)
                self.start(bf)
            else:
                stop, go = (bt, bf) if n in ('any_of', 'none_of', 'find_if') else (bf, bt)
                self.start(stop)
                if n in ('find_if', 'find_if_not'):
                    self.store(res, self.load(first))
                else:
                    self.store(res, t.TRUE if n == 'any_of' else t.FALSE)
                self.jmp(done)
                self.start(go)
        self.jmp(inc)
        self.start(inc)
        self.store(first, self.emit('bin', [self.load(first), t.ONE], {'op': '+'}))
        self.jmp(h)
        self.start(ex)
        if n in ('find_if', 'find_if_not'):
            self.store(res, self.load(lastv))
        elif n in ('any_of', 'all_of', 'none_of'):
            self.store(res, t.FALSE if n == 'any_of' else t.TRUE)
        elif n in ('accumulate', 'count_if'):
            self.store(res, self.load(acc))
        elif outv is not None:
            self.store(res, self.load(outv))
        else:
            self.store(res, t.UNDEF)
        self.jmp(done)
        self.start(done)
        return self.load(res)

    def cbret(self, cb):
        if cb[0] == 'clo':
            return self.P.functions[cb[1].usr]['fn']['rt']
        if cb[0] == 'fn':
            return self.P.functions[cb[1]]['fn']['rt']
        if cb[0] == 'obj':
            return self.P.functions[cb[2]]['fn']['rt']
        return cb[1]['rt']


def overriders(prog):
    c = getattr(prog, '_overs', None)
    if c is not None:
        return c
    direct = {}
    for u, f in prog.functions.items():
        for b in f.get('ov', ()):
            direct.setdefault(b, set()).add(u)
    res = {}

    def go(u):
        if u in res:
            return res[u]
        s = set(direct.get(u, ()))
        for x in list(s):
            s |= go(x)
        res[u] = s
        return s
    for u in list(direct):
        go(u)
    prog._overs = res
    return res
