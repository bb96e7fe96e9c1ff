"""What a check works with: the extracted program, cached analyses of entry functions, and the obligations it decides."""
import json, os, sys, time
from . import extract as X, lower, interp, logic, loops, terms as t

Broken = X.Broken
HERE = X.HERE


class Run:
    def __init__(self, cx, usr, **kw):
        self.cx, self.usr = cx, usr
        self.fn = cx.P.functions[usr]
        self.q = self.fn['fn']['q']
        assume = kw.pop('assume', None)
        hyps = kw.pop('hyps', ())
        keepmem = kw.pop('keepmem', False)
        self.L = lower.Lower(cx.P, **kw).entry(usr)
        self.I = interp.Interp(self.L, assume=assume, keepmem=keepmem)
        self.hyps = hyps
        self._g = self._l = None
        cx.note_run(self)

    @property
    def G(self):
        if self._g is None:
            self._g = logic.Logic(self.I, self.hyps)
        return self._g

    @property
    def LL(self):
        if self._l is None:
            self._l = loops.Loops(self.I)
        return self._l

    @property
    def ev(self):
        return self.I.events

    def muts(self):
        return [e for e in self.I.events if e.kind in ('mut', 'store')]


class Cx:
    def __init__(self, pid, P=None):
        self.t0 = time.time()
        self.pid = pid
        self.P = P or X.extract()
        self.obs = []
        self.cache = {}
        self.fnseen, self.runs = {}, []
        self.rules = {}
        self.need = {}
        self.notes = []

    # ------------------------------------------------------------ program
    def fns(self, cls, name=None, body=True):
        r = []
        for u, f in self.P.functions.items():
            if f['fn'].get('cls') == cls and (name is None or f['fn']['n'] == name) and ('body' in f or not body) \
                    and not f['fn'].get('lambda'):
                r.append(u)
        return sorted(r, key=lambda u: (self.P.functions[u]['l'], u))

    def fn(self, cls, name, n=None):
        r = self.fns(cls, name)
        if not r:
            raise Broken('%s::%s is gone' % (cls, name))
        return r

    def ctors(self, cls):
        return [u for u in self.fns(cls) if self.P.functions[u]['fn'].get('ctor') and not self.P.functions[u].get('defaulted')]

    def record(self, q):
        r = self.P.records.get(q)
        if r is None:
            raise Broken('class %s is gone' % q)
        return r

    def supers(self, q):
        r, st = [], [q]
        while st:
            x = st.pop()
            if x in r or x not in self.P.records:
                continue
            r.append(x)
            st += self.P.records[x]['bases']
        return r

    def subs(self, q):
        """classes deriving from q (itself included)"""
        return [c for c in self.P.records if q in self.supers(c)]

    def fields(self, q):
        r = []
        for c in self.supers(q):
            r += self.P.records[c]['fields']
        return r

    def resolve(self, cls, name):
        """bodies of method `name` as class cls has it (own or inherited)"""
        for c in self.supers(cls):
            r = self.fns(c, name)
            if r:
                return r
        return []

    def run(self, usr, key=None, **kw):
        k = (usr, key)
        if k not in self.cache:
            self.cache[k] = Run(self, usr, **kw)
        return self.cache[k]

    def note_run(self, r):
        self.runs.append(r)
        for q, n in r.L.inlined.items():
            self.fnseen[q] = self.fnseen.get(q, 0) + n

    def rel(self, loc):
        return self.P.rel(loc)

    # ------------------------------------------------------------ obligations
    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.need[name] = minimum

    def ob(self, rule, where, ok, msg, detail=None):
        """ok: True holds, False violated, None undetermined"""
        loc, fn = where if isinstance(where, tuple) else (where.loc, where.fn)
        o = {'rule': rule, 'at': self.rel(loc), 'fn': fn, 'status': {True: 'holds', False: 'VIOLATED', None: 'undetermined'}[ok],
             'what': msg}
        if detail:
            o['detail'] = detail
        for p in self.obs:
            if p['rule'] == rule and p['at'] == o['at'] and p['fn'] == fn and p['what'] == msg and p['status'] == o['status']:
                p['n'] = p.get('n', 1) + 1
                return ok
        self.obs.append(o)
        return ok

    def finish_check(self):
        if not self.obs:
            raise Broken('no rule applies anywhere')
        for r, n in self.need.items():
            k = sum(1 for o in self.obs if o['rule'] == r)
            if k < n:
                self.obs.append({'rule': r, 'at': '-', 'fn': '-', 'status': 'undetermined',
                                 'what': 'recognised at %d places only, %d are known' % (k, n)})
        if not any(o['status'] in ('holds', 'VIOLATED') for o in self.obs):
            raise Broken('nothing could be decided at all')


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def is_known(pid, o):
    for f in load_findings()['findings']:
        if f['property'] == pid and f['rule'] == o['rule'] and f['match'] in o['what']:
            return f
    return None


def report(cx, tier, out=sys.stdout):
    pid = cx.pid
    bad = [o for o in cx.obs if o['status'] == 'VIOLATED']
    unk = [o for o in cx.obs if o['status'] == 'undetermined']
    known, new = [], []
    for o in bad:
        f = is_known(pid, o)
        if f:
            o['status'] = 'known finding'
            known.append((f, o))
        else:
            new.append(o)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the current source (value numbering over the inlined control flow graph of '
                           'every entry function), obligations decided by rule; nothing is executed. ' +
                           ' | '.join('%s: %s' % kv for kv in cx.rules.items()),
            'units': cx.P.units,
            'functions_extracted': sum(1 for f in cx.P.functions.values() if 'body' in f),
            'entry_functions_analysed': sorted({r.q for r in cx.runs}),
            'functions_inlined': len(cx.fnseen),
            'blocks': sum(len(r.I.rpo) for r in cx.runs),
            'instructions': sum(sum(len(b.ins) for b in r.I.rpo) for r in cx.runs),
            'not_converged': [r.q for r in cx.runs if not r.I.converged],
            'obligations': len(cx.obs), 'discharged': sum(1 for o in cx.obs if o['status'] == 'holds'),
            'undetermined': len(unk), 'known_findings': len(known),
            'per_rule': {r: {'holds': sum(1 for o in cx.obs if o['rule'] == r and o['status'] == 'holds'),
                             'all': sum(1 for o in cx.obs if o['rule'] == r)} for r in cx.rules},
            'samples': cx.obs[:400],
            'notes': sorted(set(cx.notes) | {n for r in cx.runs for n in r.L.notes})[:50],
        },
        'violations': len(new),
        'wall_s': round(time.time() - cx.t0, 2),
    }
    EV = os.environ.get('VG_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in {f['id']: f for f, o in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']), file=out)
    if new:
        rp = os.path.join(EV, pid + '.violations.json')
        with open(rp, 'w') as fh:
            json.dump(new, fh, indent=1)
        for o in new:
            print('%s: %s: [%s] %s' % (o['at'], o['fn'], o['rule'], o['what']), file=out)
            if o.get('detail'):
                print('    ' + o['detail'], file=out)
        print('VIOLATION property=%s replay=%s' % (pid, rp), file=out)
        return 1
    print('%s: %d obligations, %d hold, %d undetermined, %d known findings (%.1f s)' %
          (pid, len(cx.obs), ev['coverage']['discharged'], len(unk), len(known), ev['wall_s']), file=out)
    return 0
