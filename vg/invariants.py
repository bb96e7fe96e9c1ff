"""Relations between the sizes and counters of an object that every method keeps (Houdini: start with all candidates,
drop what some constructor or method does not re-establish)."""
from . import terms as t
from .terms import C, raw, add, sub, size

CONT = {'std::vector', 'std::unordered_map', 'std::map', 'std::unordered_set', 'std::set', 'std::deque', 'std::list'}


class Invariants:
    def __init__(self, cls, fields, tmpl):
        self.cls, self.fields, self.tmpl = cls, fields, tmpl

    def goal(self, tp, val):
        k, a, b = tp
        if k == 'eqsz':
            return t.eq(size(val(a)), size(val(b)))
        if k == 'lesz':
            return t.ge0(sub(size(val(b)), size(val(a))))
        if k == 'eqn':
            return t.eq(val(a), size(val(b)))
        if k == 'len':
            return t.ge0(sub(size(val(b)), val(a)))
        if k == 'gen':
            return t.ge0(sub(val(a), size(val(b))))
        if k == 'nn':
            return t.ge0(val(a))

    def bases(self, I):
        r = set()
        names = set(self.fields)
        for m in [o[0] for o in I.out.values()] + [e.mem or {} for e in I.events if e.kind == 'return']:
            for k in m:
                if k.op == 'fld' and k.a[1] in names:
                    r.add(k.a[0])
        for e in I.events:
            if e.addr is not None and e.addr.op == 'fld' and e.addr.a[1] in names:
                r.add(e.addr.a[0])
        return r

    def hyps(self, I, tmpl=None, but=None):
        h = set()
        for b in self.bases(I):
            if b is but or t.root(b).op in ('new', 'var'):
                continue
            for tp in tmpl if tmpl is not None else self.tmpl:
                g = self.goal(tp, lambda f: I.initial(raw('fld', b, f)))
                at, pol = t.atom(g)
                if at.op != 'c':
                    h.add((at, pol))
        return h


def infer(cx, cls, ctors, entries, runs=None, only=None):
    """entries: [(Run)] whose exits must keep the relations; ctors: Runs of constructors of cls"""
    from . import logic
    fs = cx.fields(cls)
    cont = [f['n'] for f in fs if (f['t'].get('rc') in CONT) and not f['t'].get('ptr') and not f['t'].get('ref')]
    ints = [f['n'] for f in fs if f['t'].get('int') and not f['t'].get('rc') and not f['t'].get('bool') and not f['t'].get('const')]
    tm = []
    for i, a in enumerate(cont):
        for b in cont[i + 1:]:
            tm += [('eqsz', a, b), ('lesz', a, b), ('lesz', b, a)]
    for n in ints:
        tm.append(('nn', n, None))
        for b in cont:
            tm += [('eqn', n, b), ('len', n, b), ('gen', n, b)]
    inv = Invariants(cls, cont + ints, tm)
    # constructors
    keep = list(tm)
    this = t.OBJ(raw('this'))
    for r in ctors:
        G = logic.Logic(r.I, inv.hyps(r.I, tm, but=this))
        for e in r.ev:
            if e.kind != 'return' or e.ins.stack:
                continue
            b = t.OBJ(raw('this'))

            def val(f, e=e, b=b):
                v = e.mem.get(raw('fld', b, f))
                if v is not None:
                    return v
                k = [x for x in fs if x['n'] == f][0]
                return t.EMPTY if k['t'].get('rc') in CONT else raw('init', raw('fld', b, f))
            keep = [tp for tp in keep if G.proves(e.facts, inv.goal(tp, val))]
    changed = True
    inv.dropped = {tp: 'constructor' for tp in tm if tp not in keep}
    while changed:
        changed = False
        inv.tmpl = keep
        for r in entries:
            G = logic.Logic(r.I, inv.hyps(r.I, keep))
            for e in r.ev:
                if e.kind != 'return' or e.ins.stack:
                    continue
                for b in inv.bases(r.I):
                    if t.root(b).op in ('new', 'var'):
                        continue
                    touched = [f for f in inv.fields if raw('fld', b, f) in e.mem]
                    if not touched:
                        continue

                    def val(f, e=e, b=b):
                        v = e.mem.get(raw('fld', b, f))
                        return v if v is not None else r.I.initial(raw('fld', b, f))
                    k2 = []
                    for tp in keep:
                        if (tp[1] in touched or tp[2] in touched) and not G.proves(e.facts, inv.goal(tp, val)):
                            changed = True
                            inv.dropped[tp] = r.q
                            continue
                        k2.append(tp)
                    keep = k2
    inv.tmpl = keep
    return inv
