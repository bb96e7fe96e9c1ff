"""C08: training is reproducible and models do not influence each other.

Every variable with static storage, every call of a source of values that do not come from the inputs (clock, random
device, process, environment, addresses), and what these values can reach."""
from .. import lib, terms as t
from ..terms import T, raw

SOURCES = {'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'mrand48', 'erand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'gettid',
           'getenv', 'secure_getenv', 'getrandom', 'getentropy', 'pthread_self', 'localtime', 'gmtime', 'ftime', 'times', 'getrusage', 'gethostname',
           'std::rand', 'std::time', 'std::clock', 'std::getenv', 'tmpnam', 'mkstemp', 'sched_getcpu', 'timespec_get'}
SPARTS = ('std::random_device::', '::steady_clock::now', '::system_clock::now', '::high_resolution_clock::now', '::utc_clock::now', 'std::this_thread::get_id',
          'std::thread::hardware_concurrency', 'std::thread::get_id')
CHANGE = {'srand', 'srandom', 'srand48', 'setlocale', 'std::setlocale', 'setenv', 'putenv', 'unsetenv', 'std::locale::global', 'std::srand', 'feenableexcept', 'fesetround'}
SHUFFLE = {'std::random_shuffle'}
ENGINE = ('_engine<', 'std::mersenne_twister', 'linear_congruential', 'subtract_with_carry', 'random_engine', 'seed_seq')


def fq(e):
    return ((e.x or {}).get('fn') or {}).get('q', '') if isinstance(e.x, dict) else ''


def issource(q):
    return q in SOURCES or any(p in q for p in SPARTS)


def isengine(q):
    return any(p in q for p in ENGINE)


def check(cx):
    cx.rule('shared', 'no variable with static storage is changed after its initialisation, and what it is initialised with does not depend on an object', 1)
    cx.rule('source', 'no value that does not come from the inputs reaches a model, a result or a decision', 1)
    cx.rule('seed', 'a random engine has a fixed seed or one from the configuration, and is not shared', 1)
    cx.rule('process', 'nothing changes state of the process that others see', 0)
    runs = lib.surface(cx)
    shared(cx, runs)
    for run in runs:
        taint(cx, run)
    syntax(cx)


def shared(cx, runs):
    gl = {q: g for q, g in cx.P.globals.items() if g['l'].startswith(cx.P.repo if hasattr(cx.P, 'repo') else '/')}
    wr, rd = {}, {}
    for run in runs:
        for e in run.ev:
            if e.addr is not None:
                v = gvar(e.addr)
                if v is not None and e.kind == 'store' and e.how == 'init':
                    if v in gl and e.new is not None and any(x.op in ('arg', 'argp', 'init', 'this', 'ext') for s in lib.sources(run, e.new) for x in t.walk(s)
                                                                 if not (x.op == 'init' and isconstg(cx, x.a[0]))):
                        cx.ob('shared', e, False, 'static %s gets a value that depends on who comes first' % v)
                    continue
                if v is not None and e.kind in ('store', 'mut', 'mapdef') and e.how not in ('noop', 'reserve'):
                    wr.setdefault(v, e)
                elif v is not None:
                    rd.setdefault(v, e)
            if e.kind == 'call' and isinstance(e.x, dict) and not (e.x.get('fn') or {}).get('repo'):
                for k, a in enumerate(e.a or ()):
                    v = gvar(a) if isinstance(a, T) else None
                    if v in gl and engine_use(e, k) and not gl[v].get('const'):
                        wr.setdefault(v, e)
                        rd.setdefault(v, e)
    n = 0
    for q, g in sorted(gl.items()):
        n += 1
        if g.get('const') or g.get('constexpr'):
            if q not in wr:
                cx.ob('shared', (g['l'], q), True, '%s is constant' % q)
                continue
        if q in wr:
            cx.ob('shared', wr[q], False, '%s has static storage and is changed here: state shared by all models' % q)
        else:
            cx.ob('shared', (g['l'], q), True if q in rd or g.get('const') else None, '%s is not changed' % q)
    cx.ob('shared', lib.at(runs[0]), True, '%d variables with static storage in the sources' % n)


def isconstg(cx, a):
    v = gvar(a)
    g = cx.P.globals.get(v)
    return g is not None and bool(g.get('const'))


def engine_use(e, k):
    q = fq(e)
    return (k == 0 and (isengine(q) or '_distribution<' in q)) or ('_distribution<' in q and k > 0) or any(p in q for p in ('shuffle', 'sample'))


def gvar(a):
    r = t.root(a)
    if r.op == 'var' and len(r.a) > 1 and r.a[1] == 'G':
        return r.a[0]
    return None


def taint(cx, run):
    I = run.I
    tv, ta, why = set(), set(), {}
    origin, regs = {}, {}

    def dirty(v):
        if not isinstance(v, T):
            return None
        seen, st = set(), [v]
        while st:
            x = st.pop()
            for y in t.walk(x):
                if y in tv:
                    return y
                if y.op == 'phi' and y not in seen and y in I.phis:
                    seen.add(y)
                    st += list(I.phis[y].values())
        return None

    grew = True
    relevant = any(e.kind == 'call' and issource(fq(e)) for e in run.ev)
    rngs = [e for e in run.ev if e.kind == 'call' and isengine(fq(e))]
    if not relevant and not rngs:
        return
    while grew:
        grew = False
        for e in run.ev:
            if e.kind == 'call':
                q = fq(e)
                if issource(q) and isinstance(e.r, T):
                    if e.r not in tv:
                        tv.add(e.r)
                        origin[e.r] = e
                        grew = True
                    continue
                if (e.x.get('fn') or {}).get('repo') or not isinstance(e.r, T) or e.r.op in ('c',):
                    continue
                if q.endswith('operator<<') or t.root(e.r).op == 'var' and gvar(e.r):
                    continue
                d = None
                for a in list(e.val or ()) + list(e.a or ()):
                    d = d or dirty(a) or (a if isinstance(a, T) and a in ta else None)
                if d is not None and e.r not in tv:
                    tv.add(e.r)
                    origin[e.r] = origin.get(d, e)
                    grew = True
                if d is not None and e.a and isinstance(e.a[0], T) and t.root(e.a[0]).op == 'var' and e.a[0] not in ta and not gvar(e.a[0]):
                    ta.add(e.a[0])
                    origin[e.a[0]] = origin.get(d, e)
                    grew = True
            elif e.kind in ('store', 'mut') and e.addr is not None and (dirty(e.new) is not None or dirty(e.val) is not None):
                if e.addr not in ta:
                    ta.add(e.addr)
                    origin[e.addr] = origin.get(dirty(e.new) or dirty(e.val), e)
                    grew = True
            elif e.kind == 'br' and e not in regs and dirty(e.a[0]) is not None:
                regs[e] = region(run, e)
                grew = True
                for ph, ops in I.phis.items():
                    if ph.a[0] in I.headers or ph in tv:
                        continue
                    side = [v for (b, k), v in ops.items() if (b in regs[e] or b == e.blk) and (b, k) in I.out]
                    if side and len({v for ed, v in ops.items() if ed in I.out}) > 1:
                        tv.add(ph)
                        origin[ph] = e
    for e in rngs:
        seeds = [v for v in (e.val or ()) if isinstance(v, T)]
        if not fq(e).rsplit('::', 1)[-1].startswith(('linear', 'mersenne', 'subtract', 'seed', 'discard', 'shuffle', 'independent')):
            continue
        bad = [v for v in seeds if dirty(v) is not None]
        ptr = [v for v in seeds for s in lib.sources(run, v) if address(s)]
        cx.ob('seed', e, not bad and not ptr, 'a random engine is seeded with %s' % ('a value of the clock or a random device' if bad else 'an address' if ptr else 'a fixed value or the configuration'))
    if not relevant:
        return
    src = [e for e in run.ev if e.kind == 'call' and issource(fq(e))]
    hits = []
    for e in run.ev:
        if e.kind in ('store', 'mut') and e.addr is not None:
            r = t.root_all(e.addr) if hasattr(t, 'root_all') else t.root(e.addr)
            if r.op in ('var',) and not gvar(e.addr):
                continue
            for v in (e.new, e.val, e.key, e.idx):
                d = dirty(v) if v is not None else None
                if d is not None:
                    hits.append((e, 'it is put into the model'))
                    break
            else:
                if any(e.blk in g for g in regs.values()):
                    hits.append((e, 'it decides whether the model is changed'))
        elif e.kind == 'return' and not e.ins.stack and e.a:
            vs = lib.valts(run, e, e.a[0]) if isinstance(e.a[0], T) else []
            for b, fs, v in vs:
                if dirty(v) is not None:
                    hits.append((e, 'it is handed back'))
                elif len(vs) > 1 and any(b in g for g in regs.values()):
                    hits.append((e, 'it decides what is handed back'))
            if isinstance(e.a[0], T) and dirty(e.a[0]) is not None:
                hits.append((e, 'it is handed back'))
        elif e.kind in ('throw',) and any(e.blk in g for g in regs.values()):
            hits.append((e, 'it decides whether this fails'))
    if hits:
        cx.ob('source', src[0], False, '%s gives a value that does not come from the inputs, and %s' % (fq(src[0]), hits[0][1]), hits[0][0].loc)
    else:
        br = [e for e in run.ev if e.kind == 'br' and dirty(e.a[0]) is not None]
        cx.ob('source', src[0], None if br else True, 'the value of %s reaches no model and no result' % fq(src[0]))


def address(s):
    """the number is an address (the value of a member or an argument is configuration)"""
    if s.op in ('this', 'ptr', 'new', 'argp', 'var', 'fld', 'el', 'obj'):
        return True
    if s.op in ('init', 'arg', 'size', 'load', 'get', 'mval', 'idx', 'phi'):
        return False
    return any(address(x) for x in s.a if isinstance(x, T))


def region(run, e):
    """blocks on one side of a branch only (forward)"""
    I = run.I
    b = I.blocks[e.blk]
    out = []
    for k, x in enumerate(b.succ):
        if (b.id, k) in I.backedge:
            out.append(set())
            continue
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            st += [z for m, z in enumerate(y.succ) if (y.id, m) not in I.backedge]
        out.append(seen)
    if len(out) < 2:
        return set()
    return out[0] ^ out[1]


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def syntax(cx):
    n = 0
    for u, f in cx.P.functions.items():
        if not f['fn'].get('repo') or 'body' not in f:
            continue
        n += 1
        for x in walk(f['body']):
            q = (x.get('fn') or {}).get('q') if isinstance(x.get('fn'), dict) else None
            l = x.get('l') or f['l']
            if q in CHANGE:
                cx.ob('process', (l, f['fn']['q']), False, '%s changes state of the whole process' % q)
            if q in SHUFFLE:
                cx.ob('source', (l, f['fn']['q']), False, '%s uses random numbers of the whole process' % q)
            if x.get('k') == 'cast' and x.get('ck') in ('PointerToIntegral', 'PointerToIntegralCast'):
                cx.ob('source', (l, f['fn']['q']), None, 'an address is used as a number')
    cx.ob('source', ('-', '-'), True, 'the bodies of %d functions use no other source' % n)
