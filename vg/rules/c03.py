"""C03: using a model for inference does not change it.

Every store and every container mutation reachable from an inference operation is resolved to the object it happens in;
only objects the operation made itself, result arguments, and the code tables of a tokenizer may be written."""
from .. import lib, terms as t
from ..interp import root_all
from ..cx import Broken
from . import c02

MODELS = ['vgram_core::IntStreamVGram', 'vgram_core::IntVGram', 'vgram_core::StringStreamVGram', 'vgram_core::StringVGram']
NAMES = {'parse', 'transform', 'transform_to_string', 'alphabet', 'freqs', 'save', 'get_coder', 'get_dict'}
PARTS = {
    'IntVGramBuilderImpl': {'result', 'alpha', 'code_length', 'get_min_probability'},
    'vgram_core::SeqCoder': {'encode_immutable', 'decode', 'code_map'},
    'IntDictImpl': {'get', 'size', 'alphabet', 'parent'},
    'StatDictImpl': {'get', 'size', 'alphabet', 'parent', 'freq', 'code_length_per_char', 'enough'},
    'vgram_core::Saver': {'save'},
}


def entries(cx):
    r = []
    for m in MODELS:
        cx.record(m)
        for c in cx.subs(m):
            for u in lib.entries(cx, c):
                f = cx.P.functions[u]
                if f['fn'].get('static'):
                    continue
                if f['fn']['n'] in NAMES or f['fn'].get('const'):
                    r.append(u)
    for c, ns in PARTS.items():
        for n in ns:
            r += cx.fn(c, n)
    for c in cx.subs('vgram_core::BaseTokenizer'):
        for u in lib.entries(cx, c, public=False):
            f = cx.P.functions[u]
            if f['fn']['n'] in ('normalize', 'tokenize', 'decode') or f['fn'].get('const'):
                r.append(u)
    seen = []
    for u in r:
        if u not in seen:
            seen.append(u)
    return seen


def local(a):
    r = root_all(a)
    return r.op == 'new' or (r.op == 'var' and not (len(r.a) > 1 and r.a[1] == 'G'))


def outarg(run, a):
    """an output argument: non-const pointer or reference parameter of the entry to a plain container"""
    r = root_all(a)
    if r.op != 'obj':
        return False
    p = r.a[0]
    if p.op not in ('argp', 'arg'):
        return False
    ty = run.fn['params'][p.a[0]]['t']
    return (ty.get('prc') or ty.get('rc') or '').startswith('std::') and not (ty.get('rc') or '').startswith('std::shared_ptr')


def check(cx):
    cx.rule('effects', 'an inference operation writes only to objects of its own, its result, and a tokenizer\'s code tables', 30)
    F, B = c02.tables(cx)
    tabs = {F.a[1], B.a[1]} if F is not None and B is not None else set()
    dictfields = {f['n'] for f in cx.fields('IntDictImpl')}
    for u in entries(cx):
        run = cx.run(u)
        bad = False
        for e in run.ev:
            if e.kind == 'unknown' and any(mentions(a) for a in (e.a or ())):
                cx.ob('effects', e, None, '%s passes the model to %s, which is not analysed' % (run.q, e.x['fn']['q']))
                bad = True
            if e.kind not in ('store', 'mut', 'mapdef') or e.how in ('noop', 'reserve') or e.addr is None:
                continue
            if local(e.addr) or outarg(run, e.addr) or (e.new is e.old and e.new is not None):
                continue
            f = member(e.addr)
            qs = [q for _, q in e.ins.stack]
            if f in tabs and any(q.endswith('Tokenizer::transform') for q in qs + [run.q, e.fn]):
                continue
            bad = True
            if e.how in ('push', 'ins', 'put', 'try', 'def') and {'IntDictImpl::search', 'vgram_core::IntStreamVGram::parse', 'IntDictImpl::parse'} \
                    <= set(qs + [run.q, e.fn]) and f in dictfields:
                cx.ob('effects', e, False, 'IntStreamVGram::parse appends to the dictionary it only should look at')
                continue
            cx.ob('effects', e, False, '%s changes %s' % (run.q, t.show(e.addr, 4)), ' <- '.join(q for q in reversed(qs)) or None)
        if not bad:
            cx.ob('effects', lib.at(run), True, '%s writes nothing that outlives it%s' % (run.q, ' but token codes' if any(
                member(e.addr) in tabs for e in run.ev if e.kind == 'mut' and e.addr is not None) else ''))


def member(a):
    """innermost member of the analysed program an address lies in"""
    while True:
        if a.op in ('fld', 'sfld') and len(a.a) > 1:
            # members of pairs and the like are not the program's
            if a.a[1] in ('first', 'second'):
                a = a.a[0]
                continue
            return a.a[1]
        if a.op in ('el', 'mv', 'mel', 'idx') and a.a:
            a = a.a[0]
            continue
        return None


def mentions(a):
    return isinstance(a, t.T) and a.op in ('this', 'argp', 'obj')
