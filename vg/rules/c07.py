"""C07: every constructed object is fully initialised.

The memory at every normal exit of every constructor (everything it calls inlined) is compared with the members the
classes declare."""
from .. import lib, terms as t
from ..terms import raw, T
from ..cx import Broken


def scalar(ty):
    return bool(ty.get('int') or ty.get('flt') or ty.get('bool') or ty.get('ptr') or ty.get('enum')) and not ty.get('rc') or bool(ty.get('ptr'))


def classes(cx):
    r = []
    for q, rec in cx.P.records.items():
        if not rec.get('l', '').startswith(cx.P.repo if hasattr(cx.P, 'repo') else '/'):
            continue
        if cx.ctors(q) or any(f['fn'].get('ctor') for f in cx.P.functions.values() if f['fn'].get('cls') == q):
            r.append(q)
    return r


def check(cx):
    cx.rule('members', 'every member of built-in type has a value at every exit of every constructor', 20)
    cx.rule('objects', 'every object made on the way has all its members of built-in type set', 5)
    cx.rule('config', 'a constructor argument reaches the member it is for', 20)
    cx.rule('copy', 'a copy takes over every member from the object copied', 3)
    cx.rule('read', 'no variable is read before it has a value', 1)
    cx.rule('tokenizer', 'the tokenizer made is the one the arguments ask for', 0)
    for q in classes(cx):
        declared(cx, q)
        for u in cx.ctors(q):
            ctor(cx, q, u)
    for q in sorted(cx.P.records):
        for u in cx.fns(q):
            f = cx.P.functions[u]
            if f['fn'].get('static') and made(f['fn'].get('rt') or {}) in cx.P.records:
                run = cx.run(u, ('km',), keepmem=True)
                for e in lib.returns(run):
                    objects(cx, run, e)
    reads(cx)


def made(ty):
    if (ty.get('rc') or '') in ('std::shared_ptr', 'std::unique_ptr'):
        return ((ty.get('ta') or [{}])[0]).get('rc')
    return ty.get('rc') if ty.get('ptr') else None


def declared(cx, q):
    """a defaulted constructor only sets what the declaration of a member sets"""
    for u, f in cx.P.functions.items():
        if f['fn'].get('cls') != q or not f['fn'].get('ctor') or not f.get('defaulted') or f.get('params'):
            continue
        for m in cx.record(q)['fields']:
            if scalar(m['t']) and not m['t'].get('static'):
                inits = [i for i in f.get('inits', ()) if i.get('f') == m['n'] and i.get('written')]
                cx.ob('members', (f['l'], f['fn']['q']), m.get('init') is not None or bool(inits),
                      'member %s has a value after the defaulted constructor' % m['n'])


def ownargs(run):
    for k, p in enumerate(run.fn['params']):
        yield k, p, (raw('arg', k, p['n']), raw('argp', k, p['n']))


def mentions(run, v, terms):
    for x in lib.sources(run, v):
        for y in t.walk(x):
            if y in terms:
                return True
            if y.op == 'phi' and y in run.I.phis and y is not x:
                if any(z in terms for w in lib.sources(run, y) for z in t.walk(w)):
                    return True
    return False


def ctor(cx, q, u):
    run = cx.run(u, ('km',), keepmem=True)
    f = run.fn
    G = run.G
    copy = len(f['params']) == 1 and (f['params'][0]['t'].get('ref') or f['params'][0]['t'].get('rc')) and \
        strip(f['params'][0]['t']) in cx.supers(q)
    for e in lib.returns(run):
        mem = e.mem
        for m in cx.fields(q):
            if not scalar(m['t']):
                continue
            v = mem.get(lib.fld(m['n']))
            cx.ob('members', e, defined(run, e, v), 'member %s of %s has a value when the constructor ends' % (m['n'], q))
        objects(cx, run, e)
        if copy:
            src = t.OBJ(raw('argp', 0, f['params'][0]['n']))
            for m in cx.fields(strip(f['params'][0]['t'])):
                if m['t'].get('const') or m.get('static'):
                    continue
                v = mem.get(lib.fld(m['n']))
                want = run.I.initial(raw('fld', src, m['n']))
                ok = v is want
                if not ok and v is not None:
                    ok = same(run, e, v, want)
                cx.ob('copy', e, ok if v is not None else False, 'the copy takes over %s' % m['n'])
        else:
            config(cx, q, run, e)


def objects(cx, run, e):
    mem = e.mem
    for a in {k.a[0] for k in mem if k.op == 'fld' and k.a[0].op == 'new'} | {e2.r.a[0] for e2 in run.ev if e2.kind == 'alloc' and isinstance(e2.r, T) and e2.r.op == 'ptr' and e2.r.a[0].op == 'new'}:
        c = a.a[1] if len(a.a) > 1 else None
        if c not in cx.P.records:
            continue
        for m in cx.fields(c):
            if scalar(m['t']):
                k = raw('fld', a, m['n'])
                if k in mem:
                    cx.ob('objects', e, defined(run, e, mem[k]), 'member %s of the %s made has a value' % (m['n'], c))
                elif any(x.op == 'fld' and x.a[0] is a for x in mem):
                    cx.ob('objects', e, False, 'member %s of the %s made has a value' % (m['n'], c))


def strip(ty):
    return ty.get('rc') or ''


def same(run, e, v, want):
    if all(x is want for _, _, x in lib.valts(run, e, v)):
        return True
    return False if v is t.EMPTY or v.op in ('c', 'init', 'null') and v is not want else None


def defined(run, e, v):
    if v is None or v is t.UNDEF:
        return False
    bad = [(b, fs) for b, fs, x in lib.valts(run, e, v) if x is t.UNDEF]
    if not bad:
        return True
    return True if all(lib.always(run, e, t.FALSE, facts=fs, blk=b) for b, fs in bad) else False


def config(cx, q, run, e):
    mem = e.mem
    objs = {}
    for k, v in mem.items():
        if k.op == 'fld' and (k.a[0] is lib.SELF or k.a[0].op == 'new'):
            objs.setdefault(k.a[0], {})[k.a[1]] = v
    names = {}
    for c in [q]:
        for m in cx.fields(c):
            names[m['n'].rstrip('_')] = m
    args = {k: ts for k, p, ts in ownargs(run)}
    for k, p, ts in ownargs(run):
        if not p['n']:
            continue
        ty = p['t']
        vals = [v for o in objs.values() for v in o.values()]
        used = any(mentions(run, v, ts) for v in vals) or any(y in ts for x in run.ev if x.kind in ('br', 'cmp') and x.a for a in x.a if isinstance(a, T) for y in t.walk(a))
        if not used:
            used = None if any(y in ts for x in run.ev if x.kind in ('call', 'opq', 'unknown', 'vcall') and x.a for a in x.a if isinstance(a, T) for y in t.walk(a)) else False
        cx.ob('config', e, used, 'argument %s has an effect on the object made' % p['n'])
        m = names.get(p['n'].rstrip('_'))
        plain = scalar(ty) and not ty.get('ptr')
        shared = (ty.get('rc') or '') in ('std::shared_ptr', 'std::unique_ptr')
        own = objs.get(lib.SELF, {})
        if m is not None and (plain or shared):
            v = own.get(m['n'])
            cx.ob('config', e, reaches(run, e, v, ts, args, k), 'argument %s becomes member %s' % (p['n'], m['n']))
        elif plain and own and not any(x.op == 'arg' and x in ts for x in own.values()):
            near = any(mentions(run, v, ts) for v in vals)
            if not near:
                cx.ob('config', e, used, 'argument %s is kept in a member' % p['n'])
        if plain:
            for o, fs in objs.items():
                if o is lib.SELF:
                    continue
                for n, v in fs.items():
                    if n.rstrip('_') != p['n'].rstrip('_'):
                        continue
                    if mentions(run, v, ts):
                        ok = True
                    elif v.op == 'arg' or (v.op == 'c' and not mentions_none(run, e)):
                        ok = False
                    else:
                        ok = None
                    cx.ob('config', e, ok, 'argument %s becomes %s of the %s made' % (p['n'], n, o.a[1]))
    choice(cx, q, run, e)


def mentions_none(run, e):
    return False


def reaches(run, e, v, ts, args, k):
    if v is None or v is t.UNDEF:
        return False
    vs = [x for _, _, x in lib.valts(run, e, v)]
    if all(x in ts or (x.op == 'init' and x.a[0] in ts) for x in vs):
        return True
    if mentions(run, v, ts):
        # from the argument, but not the argument itself
        bad = [x for x in vs if x.op == 'not' or (x.op == 'lin' and lib.visible(x))]
        return False if bad else None
    return False if all(lib.visible(x) for x in vs) else None


def choice(cx, q, run, e):
    """of several kinds of tokenizer, the one whose name an argument has"""
    for k, v in e.mem.items():
        if k.op != 'fld' or k.a[0] is not lib.SELF or v is None:
            continue
        alts = [(b, fs, x) for b, fs, x in lib.valts(run, e, v)]
        made = [(b, fs, x.a[0].a[1]) for b, fs, x in alts if x.op == 'ptr' and x.a[0].op == 'new']
        kinds = {c for _, _, c in made}
        if len(made) != len(alts) or len(kinds) < 2:
            continue
        for j, p, ts in ownargs(run):
            if not p['t'].get('bool'):
                continue
            word = p['n'].split('_')[0].rstrip('s').lower()
            if not any(word in c.lower() for c in kinds) or not any(word not in c.lower() for c in kinds):
                continue
            for b, fs, c in made:
                pol = word in c.lower()
                a = ts[0]
                cond = (a, not pol)
                ok = lib.always(run, e, t.FALSE, facts=frozenset(fs) | {cond}, blk=b) or (a, pol) in fs
                cx.ob('tokenizer', e, True if ok else (False if plainfacts(fs) else None), 'a %s is made exactly when %s says so' % (c, p['n']))


def plainfacts(fs):
    fs = [f for f in fs if f[0] != 'sel']
    return bool(fs) and all(f[0].op == 'arg' for f in fs)


def reads(cx):
    n = 0
    seen = set()
    for run in lib.surface(cx):
        for e in run.ev:
            if e.kind != 'load' or not isinstance(e.r, T):
                continue
            if e.r is t.UNDEF:
                cx.ob('read', e, False, 'read before it has a value')
                n += 1
                continue
            if e.r.op == 'phi' and e.r in run.I.phis and any(x is t.UNDEF for x in lib.sources(run, e.r)):
                if (run, e.r) in seen:
                    continue
                seen.add((run, e.r))
                bad = [(b, fs) for b, fs, x in lib.valts(run, e, e.r) if x is t.UNDEF]
                ok = all(lib.always(run, e, t.FALSE, facts=fs, blk=b) for b, fs in bad) or None
                cx.ob('read', e, ok if bad else None, 'read where it may not have a value')
                n += 1
    if not n:
        cx.ob('read', lib.at(lib.surface(cx)[0]), True, 'no read of a variable without a value in %d operations' % len(lib.surface(cx)))
