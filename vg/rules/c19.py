"""C19: a save that fails is reported, and a load does not succeed without having read.

Every public save is followed to its normal returns: on every way there, the state of each output file must have been asked
after the last output and after a flush or close, and the answer must have been good.  Every load must pass a reading
operation that throws on failure before it returns."""
from .. import lib, terms as t
from ..terms import T
from ..cx import Broken

SAVES = ['vgram_core::IntStreamVGram', 'vgram_core::IntVGram', 'vgram_core::StringStreamVGram', 'vgram_core::StringVGram']
GOOD = {('ok', True), ('good', True), ('fail', False)}


def check(cx):
    cx.rule('reported', 'a save returns normally only when the state of the file was good after everything was written and flushed', 4)
    cx.rule('written', 'a save that returns normally has written a document to the file', 4)
    cx.rule('read', 'a load returns only after a reading operation that throws when the file cannot be read', 4)
    for cls in SAVES:
        for u in cx.fn(cls, 'save'):
            save(cx, cx.run(u, ('c19',)))
    for u in cx.fns('vgram_core::Saver', 'save'):
        save(cx, cx.run(u, ('c19',)))
    for u in [u for u in cx.fns('vgram_core::Loader') if cx.P.functions[u].get('acc') in ('public', None)]:
        load(cx, cx.run(u, ('c19',)))
    for c in sorted(cx.P.records):
        if c.startswith('Py'):
            for u in cx.fns(c, 'load'):
                load(cx, cx.run(u, ('c19',)))


def files(run, kind):
    """addresses of file streams opened in the run"""
    r = []
    for e in run.ev:
        if e.kind in ('store', 'alloc') and isinstance(e.new, T) and e.new.op == 'stream' and kind in str(e.new.a[0]):
            r.append(e.addr)
    return list(dict.fromkeys(r))


def flushes(e):
    if e.kind == 'sop' and e.how in ('close', 'flush'):
        return True
    v = e.val
    return e.kind == 'out' and isinstance(v, T) and ((v.op == 'fn' and any(str(x) in ('std::endl', 'std::flush') for x in v.a)) or v.op == 'manip' and v.a[0] in ('endl', 'flush'))


def save(cx, run):
    LL = run.LL
    w = run.q.replace('vgram_core::', '') + ': '
    fs = files(run, 'ofstream') + files(run, 'basic_fstream')
    rets = lib.returns(run)
    if not fs:
        cx.ob('reported', lib.at(run), None, w + 'the file is not recognised')
        return
    for f in fs:
        outs = [e for e in run.ev if e.kind == 'out' and e.addr is f]
        real = [e for e in outs if not (isinstance(e.val, T) and e.val.op in ('manip', 'fn'))]
        fl = [e for e in run.ev if e.addr is f and flushes(e)]
        exc = [e for e in run.ev if e.kind == 'sop' and e.how == 'exceptions' and e.addr is f]
        state = {}
        for e in run.ev:
            if e.kind == 'call' and isinstance(e.r, T):
                for x in t.walk(e.r):
                    if x.op == 'sstate' and x.a[1] is f:
                        state[x] = e
        leaked = any(isinstance(a, T) and a is f for e in run.ev if e.kind == 'call' and e.x.get('name') not in
                     ('operator<<', 'operator!', 'operator bool', 'ctor', 'close', 'flush', 'good', 'fail', 'bad', 'is_open', 'eof', 'rdstate', 'exceptions', 'write', 'put',
                      'open', 'setf', 'precision', 'width', 'fill', 'clear') for a in e.a)
        good = set()
        for x, e in state.items():
            if any(LL.path(e.pos, [o.pos]) is not None for o in outs):
                continue        # more is written afterwards
            if any(LL.path(o.pos, [e.pos], [k.pos for k in fl if k is not o]) is not None for o in outs if not flushes(o)):
                continue        # what was written may still be in the buffer
            late = [s for s in run.ev if s.kind == 'sop' and s.addr is f and s.how in ('clear', 'open')]
            if any(LL.path(s.pos, [e.pos]) is not None and any(LL.path(o.pos, [s.pos]) is not None for o in outs) for s in late):
                continue        # the state was wiped
            good.add(x)

        def known(facts):
            return any(g[0] != 'sel' and g[0] in good and (g[0].a[0], g[1]) in GOOD for g in facts)
        for r in rets:
            if thrown_first(run, r, exc, outs, fl):
                cx.ob('reported', r, True, w + 'the stream throws when it fails, and is flushed before it goes')
            else:
                ok = lib.everyway(run, r, known)
                if not ok and (leaked or any(isinstance(v, T) and any(z in state for z in t.walk(v)) for v in r.a)):
                    ok = None
                cx.ob('reported', r, ok, w + 'returns normally only when the file is good after writing and flushing')
            p = LL.path((run.I.L.entryblk.id, -1), [r.pos], [e.pos for e in real])
            odd = leaked or not real
            cx.ob('written', r, True if p is None else (None if odd else False), w + 'the document is written')
        for e in run.ev:
            if e.kind == 'catch' and f:
                back = [r for r in rets if LL.path(e.pos, [r.pos]) is not None]
                if back and outs and any(LL.path((run.I.L.entryblk.id, -1), [o.pos]) is not None for o in outs):
                    if any(lib.everyway(run, e, known) is False for r in back) and not later(run, e, rets, state, good):
                        cx.ob('reported', e, False, w + 'an error is caught and the save returns as if it had worked')


def later(run, e, rets, state, good):
    """after the handler the state is still asked"""
    return run.LL.path(e.pos, [r.pos for r in rets], [q.pos for x, q in state.items() if x in good]) is None


def thrown_first(run, r, exc, outs, fl):
    """exceptions are switched on before the first output, and everything is flushed before the function returns"""
    LL = run.LL
    if not exc or not outs:
        return False
    for e in exc:
        v = e.val
        if isinstance(v, T) and v.op == 'c' and not v.a[0]:
            return False
    ent = (run.I.L.entryblk.id, -1)
    for o in outs:
        if LL.path(ent, [o.pos], [e.pos for e in exc]) is not None:
            return False
        if not flushes(o) and LL.path(o.pos, [r.pos], [k.pos for k in fl if k is not o]) is not None:
            return False
    return True


def load(cx, run):
    LL = run.LL
    w = run.q.replace('vgram_core::', '') + ': '
    fs = files(run, 'ifstream') + files(run, 'basic_fstream')
    rets = lib.returns(run)
    reads, quiet = [], []
    for e in run.ev:
        if e.kind == 'in' and e.addr in fs and any(isinstance(y, dict) and 'json' in (y.get('rc') or '') for y in (e.x.get('at') or ())):
            reads.append(e)
        elif e.kind == 'call' and e.x.get('name') == 'parse' and 'basic_json' in str(e.x.get('cls')):
            soft = any(isinstance(v, T) and v.op == 'c' and v.a[0] in (0, False) for v in e.a[2:3])
            (quiet if soft else reads).append(e)
        elif e.kind == 'call' and e.x.get('name') in ('read_dict_json',):
            reads.append(e)
    if quiet and not any(e.kind == 'call' and e.x.get('name') == 'is_discarded' for e in run.ev):
        cx.ob('read', quiet[0], False, w + 'a document that cannot be parsed is not noticed')
    if not fs or not (reads or quiet):
        cx.ob('read', lib.at(run), None, w + 'the reading operation is not recognised')
        return
    for r in rets:
        p = LL.path((run.I.L.entryblk.id, -1), [r.pos], [e.pos for e in reads + quiet])
        cx.ob('read', r, p is None, w + 'returns only after the document was read')
    for e in run.ev:
        if e.kind == 'catch' and any(LL.path(e.pos, [r.pos]) is not None for r in rets):
            cx.ob('read', e, False, w + 'an error in reading is caught and the load returns as if it had worked')
