"""C23: the Python module exposes each operation under its own name.

The definitions of the module are read from the typed syntax tree: which name is bound to which function of which class, with
which keyword names, and how objects are held.  Wrapper classes of the binding are followed to the operation they stand for."""
from .. import lib, logic, terms as t
from ..terms import T, raw

CLASSES = {'IntStreamVGram': 'vgram_core::IntStreamVGram', 'StreamVGram': 'vgram_core::StringStreamVGram',
           'IntVGram': 'vgram_core::IntVGram', 'VGram': 'vgram_core::StringVGram'}
STREAM = ('load', 'accept', 'parse', 'update', 'save', 'freqs', 'alphabet')
BATCH = ('load', 'fit', 'transform', 'save', 'freqs', 'alphabet')
ALSO = {'update': ('update_dict',), 'transform': ('transform_to_string',)}


def check(cx):
    cx.rule('class', 'each name of a class stands for the class of that name', 4)
    cx.rule('name', 'each name is bound to the operation of that name of its class', 24)
    cx.rule('there', 'each documented operation is there', 28)
    cx.rule('keyword', 'keyword arguments are named in the order of the parameters they stand for', 8)
    cx.rule('through', 'a wrapper passes on what it is given to the operation of its name', 6)
    cx.rule('held', 'what is returned is held the way its class is held', 4)
    cx.rule('cast', 'no object is used as a class it is not', 0)
    M = Module(cx)
    if not M.fns:
        return
    M.classes()
    M.names()
    M.wrappers()
    M.casts()


def walk(n):
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if k not in ('t', 'fn'):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def peel(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'mat', 'paren', 'definit', 'clean', 'scast') and n.get('e'):
        n = n['e']
    return n


def text(n):
    for x in walk(n):
        if x.get('k') == 'str':
            return x['v']
    return None


def targs(s, name):
    """arguments of a template in the spelling of a type"""
    i = s.find(name + '<')
    if i < 0:
        return None
    r, d, cur = [], 0, ''
    for ch in s[i + len(name) + 1:]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return r + [cur.strip()] if cur.strip() else r


class Module:
    def __init__(self, cx):
        self.cx, self.P = cx, cx.P
        self.fns = [f for u, f in cx.P.functions.items() if 'body' in f and f.get('l', '').find('/binding/') >= 0]
        self.defs, self.cls = [], {}
        for f in self.fns:
            for n in walk(f['body']):
                fn = n.get('fn') or {}
                if fn.get('cls') != 'pybind11::class_':
                    continue
                ta = targs((fn['q']), 'class_') or targs((n.get('t') or {}).get('s', ''), 'class_') or []
                if not ta:
                    continue
                if fn.get('ctor') and len(n.get('args', ())) >= 2 and n['args'] and text(n['args'][1]):
                    self.cls.setdefault(ta[0], []).append((text(n['args'][1]), n['l'], ta, f))
                elif fn['n'] in ('def', 'def_static'):
                    self.defs.append((ta[0], fn['n'], n, f))
        self.pyname = {}

    def bases(self, c):
        r, st = [], [c]
        while st:
            x = st.pop()
            if x in r:
                continue
            r.append(x)
            st += [b if isinstance(b, str) else b.get('n') or b.get('q') or b.get('rc') for b in (self.P.records.get(x) or {}).get('bases', ())]
        return [x for x in r if x]

    def classes(self):
        cx = self.cx
        found = {}
        for c, xs in self.cls.items():
            for name, loc, ta, f in xs:
                found.setdefault(name, []).append((c, loc, f))
                self.pyname[c] = name
        for name, c in CLASSES.items():
            xs = found.get(name, [])
            if len(xs) != 1:
                cx.ob('class', ('', 'module'), False if not xs and self.cls else None, 'the class %s is there once' % name)
                continue
            k, loc, f = xs[0]
            bs = self.bases(k)
            other = next((b for b in bs if b in CLASSES.values()), None)
            ok = other == c or c in bs and not any(b != c and c in self.bases(b) and b in CLASSES.values() for b in bs)
            cx.ob('class', (loc, f['fn']['q']), ok if other else None, '%s is %s' % (name, c), None if ok else k)

    # ------------------------------------------------------------ names
    def target(self, n):
        """(function, from a lambda) a definition is bound to"""
        n = peel(n)
        for x in walk(n):
            if x.get('k') == 'ref' and (x.get('d') or {}).get('fn'):
                return x['d']['fn'], None
            if x.get('k') == 'lambda':
                return None, x
        return None, None

    def names(self):
        cx = self.cx
        have = {}
        for c, how, n, f in self.defs:
            a = n.get('args', [])
            if not a:
                continue
            where = (n.get('l', ''), f['fn']['q'])
            where = (a[0].get('l') or where[0], where[1])
            if (peel(a[0]).get('fn') or {}).get('n') == 'init' or 'init_t' in ((peel(a[0]).get('t') or {}).get('s') or ''):
                self.init(c, a, where)
                have.setdefault(c, {})['__init__'] = where
                continue
            name = text(a[0])
            if name is None:
                continue
            have.setdefault(c, {})
            if name in have[c]:
                cx.ob('name', where, None, '%s.%s is defined again' % (self.pyname.get(c, c), name))
            have[c][name] = where
            fn, lam = self.target(a[1])
            if fn is None and lam is not None:
                fn = self.lambda_target(lam, c)
            if fn is None:
                cx.ob('name', where, None, '%s.%s: target not found' % (self.pyname.get(c, c), name))
                continue
            self.bound(c, name, fn, where, how)
            self.keywords(c, name, fn, a[2:], where)
            self.held(c, name, fn, where)
        for c, name in self.pyname.items():
            if name not in CLASSES:
                continue
            for op in (BATCH if name in ('IntVGram', 'VGram') else STREAM) + ('__init__',):
                w = have.get(c, {}).get(op)
                cx.ob('there', w or (self.cls[c][0][1], 'module'), bool(w), '%s.%s' % (name, op), None if w else 'not defined')

    def lambda_target(self, lam, c):
        """the only operation of the model a lambda calls"""
        r = []
        for x in walk(lam):
            fn = x.get('fn') or {}
            if x.get('k') == 'call' and fn.get('repo') and fn.get('cls') in self.bases(c) + ['vgram_core::Loader']:
                r.append(fn)
        return r[0] if len(r) == 1 else None

    def bound(self, c, name, fn, where, how):
        cx = self.cx
        py = self.pyname.get(c, c)
        if name == 'load':
            rt = fn.get('rt') or {}
            k = rt.get('rc') if rt.get('rc') not in ('std::shared_ptr', 'std::unique_ptr') else ((rt.get('ta') or [{}])[0]).get('rc')
            ok = fn['n'].startswith('load') and k == c
            cx.ob('name', where, ok if k in self.pyname or ok else None, '%s.load is a way to load a %s' % (py, c.split('::')[-1]), None if ok else fn['q'])
            return
        own = fn.get('cls') in self.bases(c)
        known = {x for b in self.bases(c) for x in self.methods(b)}
        want = (name,) + ALSO.get(name, ())
        if fn['n'] in want and own:
            ok = True
            # the class's own operation, not one it replaces
            first = next((b for b in self.bases(c) if fn['n'] in self.methods(b)), None)
            if first != fn['cls'] and not self.virtual(fn):
                ok = None
        elif own and (fn['n'] in known and (name in known or any(w in known for w in want))):
            ok = False
        elif fn.get('cls') in self.P.records and not own:
            ok = None if fn['n'] in want else False
        else:
            ok = None
        cx.ob('name', where, ok, '%s.%s is %s' % (py, name, want[-1]), None if ok else fn['q'])

    def methods(self, c):
        return {f['fn']['n'] for f in self.P.functions.values() if f['fn'].get('cls') == c}

    def virtual(self, fn):
        return True

    # ------------------------------------------------------------ keywords
    def kws(self, a):
        r = []
        for x in a:
            y = [z for z in walk(x) if (z.get('fn') or {}).get('cls') in ('pybind11::arg', 'pybind11::arg_v') and (z['fn'].get('ctor'))]
            if y:
                s = text(y[0].get('args'))
                r.append(s)
        return r

    def params(self, fn):
        f = self.P.functions.get(fn.get('u'))
        if f is None:
            return None
        return [p['n'] for p in f['params'] if 'pybind11::' not in (p.get('t') or {}).get('s', '')]

    def order(self, what, ks, ps, where):
        cx = self.cx
        if not ks:
            return
        if ps is None:
            cx.ob('keyword', where, None, what)
            return
        ns = [p.strip('_') for p in ps]
        bad = None
        if len(ks) != len(ps):
            bad = '%d keywords for %d parameters' % (len(ks), len(ps))
        for i, k in enumerate(ks):
            if k in ns and (i >= len(ns) or ns[i] != k):
                bad = '%s stands for the parameter %s' % (k, ns[i] if i < len(ns) else 'after the last')
        if len(set(ks)) != len(ks):
            bad = 'the same keyword twice'
        ok = False if bad else True if ks == ns else None
        cx.ob('keyword', where, ok, '%s(%s)' % (what, ', '.join(ks)), bad)

    def keywords(self, c, name, fn, a, where):
        self.order('%s.%s' % (self.pyname.get(c, c), name), self.kws(a), self.params(fn), where)

    def init(self, c, a, where):
        s = (peel(a[0]).get('t') or {}).get('s', '')
        ts = targs(s, 'init_t')
        ks = self.kws(a[1:])
        if ts is None:
            self.cx.ob('keyword', where, None, 'constructor of %s' % c)
            return
        cands = []
        for u, f in self.P.functions.items():
            if f['fn'].get('cls') == c and f['fn'].get('ctor') and len(f['params']) == len(ts):
                if all(norm(p['t'].get('s', '')) == norm(x) for p, x in zip(f['params'], ts)):
                    cands.append(f)
        if len(cands) != 1:
            self.cx.ob('keyword', where, None, 'constructor of %s' % c, '%d constructors take (%s)' % (len(cands), ', '.join(ts)))
            return
        self.order(self.pyname.get(c, c), ks, [p['n'] for p in cands[0]['params']], where)

    def held(self, c, name, fn, where):
        rt = fn.get('rt') or {}
        ta = self.cls.get(c, [(0, 0, [c], 0)])[0][2]
        holder = ta[1] if len(ta) > 1 and '_ptr<' in ta[1] else 'std::unique_ptr<%s>' % c
        if rt.get('rc') in ('std::shared_ptr', 'std::unique_ptr'):
            k = ((rt.get('ta') or [{}])[0]).get('rc')
            if k not in self.cls:
                return
            h = self.cls[k][0][2]
            h = h[1] if len(h) > 1 and '_ptr<' in h[1] else 'std::unique_ptr'
            ok = h.split('<')[0] == rt['rc']
            self.cx.ob('held', where, ok, 'what %s.%s returns is held by %s' % (self.pyname.get(c, c), name, rt['rc']), None if ok else 'objects of this class are held by ' + h)
        elif rt.get('ptr') and rt.get('rc') in self.cls:
            self.cx.ob('held', where, True, 'what %s.%s returns is not held by anything yet' % (self.pyname.get(c, c), name))

    # ------------------------------------------------------------ wrappers
    def wrappers(self):
        """operations of the wrapper classes pass on their arguments to the operation of the same name"""
        cx = self.cx
        for c in sorted(self.P.records):
            if not c.startswith('Py'):
                continue
            bs = self.bases(c)[1:]
            for u in cx.fns(c):
                f = self.P.functions[u]
                if f.get('defaulted'):
                    continue
                n = f['fn']['n']
                if f['fn'].get('ctor'):
                    self.passed(f, c, bs)
                    continue
                if not any(n in self.methods(b) for b in bs) or n == 'isTerminated':
                    continue
                run = cx.run(u, ('c23',), keepmem=True, opaque=lambda fn: 'other' if fn.get('repo') and not (fn.get('cls') or '').startswith('Py') and not fn.get('ctor') else None)
                cs = [e for e in run.ev if e.kind == 'call' and (e.x.get('fn') or {}).get('repo')]
                where = lib.at(run)
                own = [e for e in cs if e.x['fn'].get('cls') in bs + [c]]
                if len(own) != 1:
                    cx.ob('through', where, None, '%s::%s passes on what it is given' % (c, n), '%d operations called' % len(own))
                    continue
                e = own[0]
                same = e.x['fn']['n'] in (n,) + ALSO.get(n, ())
                vals = [v for v in (e.val or ())][1 if len(e.val or ()) > len(e.x['fn'].get('pt', ())) else 0:]
                want = [i for i, p in enumerate(f['params']) if 'pybind11::' not in (p.get('t') or {}).get('s', '')]
                got = []
                for v in vals:
                    xs = {x.a[0] for x in t.walk(v) if x.op in ('argp', 'arg')} if isinstance(v, T) else set()
                    got.append(xs)
                order = len(got) == len(want) and all(g == {w} for g, w in zip(got, want))
                cross = len(got) == len(want) and any(g and w not in g for g, w in zip(got, want))
                ok = True if same and order else False if not same and e.x['fn']['n'] in self.methods(e.x['fn']['cls']) or cross else None
                cx.ob('through', where, ok, '%s::%s passes on what it is given to %s' % (c, n, e.x['fn']['q']))

    def passed(self, f, c, bs):
        """a constructor of a wrapper gives each of its parameters to the parameter of the same name"""
        cx = self.cx
        for i in f.get('inits', ()):
            e = peel(i.get('e') or {})
            fn = e.get('fn') or {}
            if not fn.get('ctor') or fn.get('cls') not in bs + [c]:
                continue
            g = self.P.functions.get(fn.get('u'))
            if g is None:
                continue
            gp = [p['n'] for p in g['params']]
            mine = {p['n'] for p in f['params']}
            bad = None
            n = 0
            for k, a in enumerate(e.get('args', ())):
                a = peel(a)
                nm = (a.get('d') or {}).get('n') if a.get('k') == 'ref' else None
                if nm in mine and k < len(gp):
                    n += 1
                    if nm in gp and gp[k] != nm:
                        bad = '%s is passed as %s' % (nm, gp[k])
            if n:
                cx.ob('through', (f['l'], f['fn']['q']), bad is None, 'a constructor of %s passes each parameter on as what it is' % c, bad)

    # ------------------------------------------------------------ casts
    def casts(self):
        cx = self.cx
        seen = set()
        for run in lib.surface(cx, ('km',), keepmem=True):
            for e in run.ev:
                if e.kind != 'downcast' or e.x.get('dyn'):
                    continue
                to = pointee(e.x['to'])
                if to not in self.P.records:
                    continue
                for v in lib.sources(run, e.a[0]) or [e.a[0]]:
                    if v.op == 'null':
                        continue
                    k = self.dynamic(run, v)
                    ok = None if k is None else to in self.bases(k)
                    key = (e.loc, ok, k)
                    if key in seen:
                        continue
                    seen.add(key)
                    cx.ob('cast', e, ok, 'what is used as %s is one' % to, None if ok else 'it is %s' % (k or 'not known'))

    def dynamic(self, run, v):
        if v.op == 'ptr' and v.a:
            v = v.a[0]
        if v.op == 'new':
            return v.a[1] if len(v.a) > 1 and isinstance(v.a[1], str) else None
        if v.op == 'this' or v is lib.SELF or v.op == 'obj' and v.a[0].op == 'this':
            return run.fn['fn'].get('cls')
        return None


def pointee(ty):
    if ty.get('rc') in ('std::shared_ptr', 'std::unique_ptr'):
        return ((ty.get('ta') or [{}])[0]).get('rc')
    return ty.get('rc')


def norm(s):
    return s.replace('const ', '').replace('&', '').replace(' ', '')
