"""C09: a model with verbosity 0 prints nothing.

Every output statement reachable from a public operation, with what holds where it is reached."""
from .. import lib, terms as t
from ..terms import T, raw, C, ZERO

SINKS = ('std::cout', 'std::cerr', 'std::clog', 'stdout', 'stderr', 'std::wcout', 'std::wcerr')
PRINT = {'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fwrite', 'vprintf', 'vfprintf', 'perror', 'std::printf', 'std::puts', 'std::putchar', 'std::fprintf',
         'std::fputs', 'std::perror', 'write', 'dprintf', 'psignal', 'syslog', 'std::print', 'std::println', 'std::fputc', 'std::fwrite'}


def check(cx):
    cx.rule('guarded', 'output is only reached when the verbosity is above 0', 3)
    cx.rule('flag', 'the verbosity asked for is the one that is looked at', 1)
    VF = verbosity(cx)
    runs = lib.surface(cx)
    for run in runs:
        for e in run.ev:
            if isout(e):
                guarded(cx, run, e, VF)
    writes(cx, runs, VF)


def verbosity(cx):
    """members that constructors set from an argument named like verbosity"""
    r = set()
    for q in cx.P.records:
        for f in cx.record(q)['fields']:
            if 'verb' in f['n'].lower():
                r.add(f['n'])
        for u in cx.ctors(q):
            run = cx.run(u, ('km',), keepmem=True)
            for e in lib.returns(run):
                for k, v in e.mem.items():
                    if k.op == 'fld' and v.op == 'arg' and 'verb' in str(v.a[1]).lower():
                        r.add(k.a[1])
    return r


def isout(e):
    """something goes to standard output or standard error"""
    if e.kind == 'out':
        return sink(e.addr)
    if e.kind == 'call' and isinstance(e.x, dict):
        q = (e.x.get('fn') or {}).get('q', '')
        if q in PRINT:
            return True
        if any(isinstance(a, T) and sink(a) for a in e.a or ()) and ('ostream_iterator' in q or q.rsplit('::', 1)[-1] in ('put', 'write', 'rdbuf', 'getline', 'print', 'println', 'copy')):
            return True
    return False


def sink(a):
    if a is None:
        return False
    r = t.root(a)
    return r.op == 'var' and len(r.a) > 1 and r.a[1] == 'G' and r.a[0] in SINKS


def terms_of(run, e, VF):
    r = set()
    for f in list(e.facts):
        if f[0] == 'sel':
            continue
        for x in t.walk(f[0]):
            if verb(x, VF):
                r.add(x)
    for c, a in lib.conds(run):
        for x in t.walk(a):
            if verb(x, VF):
                r.add(x)
    return r


def verb(x, VF):
    if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] in VF:
        return True
    if x.op == 'arg' and 'verb' in str(x.a[1]).lower():
        return True
    if x.op == 'phi' and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] in VF:
        return True
    return False


def guarded(cx, run, e, VF):
    vs = terms_of(run, e, VF)
    ok = any(lib.always(run, e, t.ge0(t.sub(v, C(1)))) for v in vs)
    if not ok and assertion(run, e):
        cx.ob('guarded', e, True, 'output is only reached where a log-probability came out above 0, which it never is')
        return
    if not ok:
        # a guard that is not understood: something of the verbosity decides, or a helper
        odd = any(f[0] != 'sel' and strange(f[0], VF) for f in e.facts)
        ok = None if odd else False
    cx.ob('guarded', e, ok, 'output is only reached above verbosity 0')


def strange(f, VF):
    for x in t.walk(f):
        if x.op in ('rcall', 'rf', 'opq', 'hav', 'load'):
            return True
        if x.op == 'ext' and any(isinstance(y, T) and any(verb(z, VF) for z in t.walk(y)) for y in x.a):
            return True
    return False


def assertion(run, e):
    for f in e.facts:
        if f[0] == 'sel' or f[0].op not in ('flt', 'fle', 'fgt', 'fge') or not f[1]:
            continue
        x, y = f[0].a[0], f[0].a[1]
        if x.op == 'c' and x.a[0] >= 0 and y.op == 'idx' and f[0].op == 'flt':
            c = y.a[0]
            for s in lib.sources(run, c):
                if s.op in ('fill', 'upd', 'empty'):
                    return True
    return False


def writes(cx, runs, VF):
    """the verbosity is only set by constructors, to what was asked"""
    n = 0
    for run in runs:
        ctor = run.fn['fn'].get('ctor')
        for e in run.ev:
            if e.kind in ('store', 'mut') and e.addr is not None and e.addr.op == 'fld' and e.addr.a[1] in VF and e.how != 'init':
                n += 1
                if ctor or t.root(e.addr).op in ('new', 'var') or e.new is None:
                    continue
                if e.new.op == 'c' and e.new.a[0] > 0:
                    cx.ob('flag', e, False, 'the verbosity is raised by an operation')
                else:
                    cx.ob('flag', e, None, 'the verbosity is changed by an operation')
    # what is asked for reaches every object that prints
    for q in cx.P.records:
        for u in cx.ctors(q):
            f = cx.P.functions[u]
            if f.get('acc') not in ('public', None):
                continue
            vp = [(k, p) for k, p in enumerate(f['params']) if 'verb' in p['n'].lower()]
            if not vp:
                continue
            run = cx.run(u, ('km',), keepmem=True)
            k, p = vp[0]
            a = raw('arg', k, p['n'])
            for e in lib.returns(run):
                for fk, v in e.mem.items():
                    if fk.op == 'fld' and fk.a[1] in VF and t.root(fk).op in ('new', 'obj', 'this', 'argp'):
                        if fk.a[0] is lib.SELF or fk.a[0].op == 'new':
                            vs = [x for _, _, x in lib.valts(run, e, v)]
                            ok = all(x is a or (x.op == 'c' and x.a[0] <= 0) for x in vs)
                            zs = [lib.rebuild(x, {a: ZERO}) for x in vs]
                            if any(x.op == 'c' and x.a[0] > 0 for x in zs):
                                ok = False          # something is printed for verbosity 0
                            elif not ok:
                                ok = None if any(a in t.walk(x) for x in vs) or not all(lib.visible(x) for x in vs) else False
                            cx.ob('flag', e, ok, 'the verbosity asked for becomes %s of the %s' % (fk.a[1], 'object' if fk.a[0] is lib.SELF else fk.a[0].a[1] + ' made'))
