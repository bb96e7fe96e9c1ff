"""The dictionary implementation: which members hold the v-grams, the parents, the sorted part and the appended
symbols.  Found from what the accessors read, and from types."""
from . import lib, terms as t
from .terms import raw, size
from .cx import Broken

CLS = 'IntDictImpl'


class Roles:
    pass


def ret_value(run):
    rs = lib.returns(run)
    return [r.a[0] for r in rs]


def loaded(run, v):
    """value read through a returned reference"""
    if v.op in ('el', 'fld', 'obj', 'mv'):
        a = v
        idx = None
        if a.op == 'el':
            return run.I.initial(a.a[0]), a.a[1]
        return run.I.initial(a), idx
    if v.op == 'idx':
        return v.a[0], v.a[1]
    return v, None


def roles(cx, cls=CLS):
    k = ('dictroles', cls)
    if k in cx.cache:
        return cx.cache[k]
    R = Roles()
    R.S = R.P = None
    for u in cx.resolve(cls, 'get'):
        run = cx.run(u)
        for v in ret_value(run):
            b, i = loaded(run, v)
            if b.op == 'init' and b.a[0].op == 'fld':
                R.S = b.a[0]
    for u in cx.resolve(cls, 'parent'):
        run = cx.run(u)
        for v in ret_value(run):
            b, i = loaded(run, v)
            if b.op == 'init' and b.a[0].op == 'fld':
                R.P = b.a[0]
    fs = cx.fields(cls)
    if R.S is None:
        c = [f['n'] for f in fs if f['t'].get('rc') == 'std::vector' and (f['t'].get('ta') or [{}])[0].get('rc') == 'std::vector']
        R.S = lib.fld(c[0]) if len(c) == 1 else None
    if R.P is None:
        c = [f['n'] for f in fs if f['t'].get('rc') == 'std::vector' and (f['t'].get('ta') or [{}])[0].get('int')]
        R.P = lib.fld(c[0]) if len(c) == 1 else None
    if R.S is None or R.P is None:
        raise Broken('the arrays of %s are not recognised' % cls)
    m = [f['n'] for f in fs if f['t'].get('rc') in lib.MAPS]
    R.M = [lib.fld(n) for n in m]
    R.ints = [lib.fld(f['n']) for f in fs if f['t'].get('int') and not f['t'].get('ptr')]
    R.names = {f['n'] for f in fs}
    cx.cache[k] = R
    return R


def initfns(cx, cls=CLS):
    """constructors and what only they call"""
    return cx.ctors(cls)
