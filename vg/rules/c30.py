"""C30: text models are the composition of tokenizer and sequence model.

An analysis of kinds: a number is a token code, a symbol code, a v-gram id or a frequency, a string is text; every operation
takes one kind and makes another.  What reaches an operation is followed through lists, loops and joins; a value that is
plainly of another kind than the operation takes, or an id that indexes anything but what ids index, is reported.  The
operations themselves are opaque."""
from .. import lib, logic, patterns, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts

V = 'vgram_core::'
TEXT = [V + 'StringVGram', V + 'StringStreamVGram']
SEQ = [V + 'IntVGram', V + 'IntStreamVGram']
CLASSES = TEXT + SEQ + [V + 'Saver', V + 'Loader', V + 'BaseTokenizer']

# what operations take (None: anything) and make; 'out:k' is a list that is filled
TOK, SYM, ID, FREQ, STR, NORM = 'token codes', 'symbol codes', 'v-gram ids', 'frequencies', 'text', 'tokens'
TABLE = {
    'BaseTokenizer': {'transform': ([STR], TOK), 'decode': ([TOK], STR), 'normalize': ([STR], STR), 'tokenize': ([STR], NORM)},
    'SeqCoder': {'encode': ([TOK], SYM), 'encode_immutable': ([TOK], SYM), 'decode': ([SYM], TOK)},
    'IntStreamVGram': {'accept': ([TOK], None), 'parse': ([TOK], ID), 'alphabet': ([], TOK), 'freqs': ([], FREQ), 'fit': ([TOK], None),
                       'transform': ([TOK], ID), 'get_coder': ([], None), 'get_dict': ([], None), 'update_dict': ([], None)},
    'IntDict': {'parse': ([SYM, FREQ, None, 'out:' + ID], None), 'parse3': ([SYM, 'out:' + ID, None], None), 'search': ([SYM, None], ID), 'get': ([ID], SYM),
                'alphabet': ([], SYM), 'parent': ([ID], ID), 'size': ([], None)},
    'IntVGramBuilder': {'accept': ([SYM], None), 'result_freqs': (['out:' + FREQ], None), 'alpha': ([], None), 'result': ([], None), 'update': ([], None),
                        'get_min_probability': ([], None)},
}
WRITES = {'accept', 'fit', 'update_dict', 'result_freqs', 'update'}
# what the members of the model index
BYID = {'freqs', 'alphabet', 'get'}


def family(cx, fn):
    c = fn.get('cls')
    if not c:
        return None
    for s in cx.supers(c):
        n = s.split('::')[-1]
        if n in TABLE:
            return n
    return None


def opaque(cx):
    def f(fn):
        fam = family(cx, fn)
        n = fn.get('n')
        if n == 'isTerminated':
            return 'const'
        if fam is None or n not in TABLE[fam]:
            return None
        if n in WRITES or fam == 'IntDict' and n == 'parse':
            return 'none'
        return 'pure'
    return f


def entry_for(cx, fn, args):
    fam = family(cx, fn)
    if fam is None:
        return None
    n = fn.get('n')
    if fam == 'IntDict' and n == 'parse' and len(args) == 3:
        n = 'parse3'
    return TABLE[fam].get(n)


def check(cx):
    cx.rule('kinds', 'every operation gets the kind of numbers it takes: text, token codes, symbol codes, ids or frequencies', 12)
    cx.rule('index', 'tables ordered by id are only indexed by an id, or gone through from the start', 3)
    cx.rule('trained', 'the sequence model is trained with the tokenized text, all of it and once', 2)
    cx.rule('asked', 'the sequence model is asked about the tokenized text', 2)
    cx.rule('shown', 'what is shown for an id is the decoded text of the entry it stands for, once', 2)
    cx.rule('fresh', 'the entries are asked for after the ids they are shown for: asking for ids may add entries', 1)
    cx.rule('own', 'text is coded and decoded by the tokenizer and the coder of the model', 2)
    cx.rule('tokenized', 'what is coded are the tokens of the normalized text', 1)
    K = Kinds(cx)
    op = opaque(cx)
    runs = []
    done = set()
    for c in CLASSES:
        for u in cx.fns(c):
            f = cx.P.functions[u]
            if f.get('defaulted') or f['fn'].get('dtor') or f['fn'].get('lambda'):
                continue
            if c == V + 'Saver':
                runs.insert(0, cx.run(u, ('c30',), opaque=op, keepmem=True))
            else:
                runs.append(cx.run(u, ('c30',), opaque=op, keepmem=True))
    for r in runs:
        K.saved(r)
    for r in runs:
        K.judge(r, done)
    for c, n in ((TEXT[0], 'fit'), (TEXT[1], 'accept')):
        for u in cx.fn(c, n):
            trained(cx, K, cx.run(u, ('c30',), opaque=op, keepmem=True))
    for c, n in ((TEXT[0], 'transform'), (TEXT[1], 'parse')):
        for u in cx.fn(c, n):
            shown(cx, K, cx.run(u, ('c30',), opaque=op, keepmem=True))
    for c in TEXT:
        for u in cx.fns(c):
            if not cx.P.functions[u].get('defaulted'):
                own(cx, K, cx.run(u, ('c30',), opaque=op, keepmem=True))
    for u in cx.fn(V + 'BaseTokenizer', 'transform'):
        tokenized(cx, cx.run(u, ('c30',), opaque=op, keepmem=True))


def fname(e):
    return (e.x.get('fn') or {}).get('n') if isinstance(e.x, dict) else None


class Kinds:
    def __init__(self, cx):
        self.cx = cx
        self.json = {}

    # ------------------------------------------------------------ kinds of values
    def params(self, run):
        """kinds of what is handed to a public operation"""
        cls = run.fn['fn'].get('cls')
        fam = family(self.cx, run.fn['fn'])
        n = run.fn['fn']['n']
        r = {}
        if cls in TEXT or fam == 'BaseTokenizer' and n in ('normalize', 'tokenize'):
            for i, p in enumerate(run.fn['params']):
                r[i] = STR if 'string' in str(p.get('t')) else None
        elif fam in TABLE and n in TABLE[fam]:
            for i, k in enumerate(TABLE[fam][n][0]):
                if k and not k.startswith('out'):
                    r[i] = k
        elif fam == 'IntStreamVGram':
            for i, p in enumerate(run.fn['params']):
                pass
        return r

    def of(self, run, v, depth=0):
        """set of kinds a value has; None in it: not known"""
        cache = run.__dict__.setdefault('_kinds', {})
        if v in cache:
            return cache[v]
        cache[v] = set()
        r = self.kind(run, v, depth)
        cache[v] = r
        return r

    def kind(self, run, v, depth):
        I = run.I
        op = v.op
        if op in ('c', 'empty', 'null', 'lim', 'defv'):
            return set()
        if depth > 60:
            return {None}
        go = lambda x: self.of(run, x, depth + 1)
        if op == 'rf':
            e = self.call(run, v)
            if e is None:
                return {None}
            en = entry_for(self.cx, e.x['fn'], e.val or ())
            return {en[1]} if en else {None}
        if op in ('init', 'load'):
            a = v.a[0]
            if isinstance(a, T):
                r = a
                while r.op in ('el', 'obj') and isinstance(r.a[0], T) and r.op == 'el':
                    r = r.a[0]
                for x in t.walk(a):
                    if x.op in ('argp', 'arg') and x.a[0] != 'this':
                        k = self.params(run).get(x.a[0])
                        return {k}
                    if x.op == 'rf':
                        return go(x)
                if a.op == 'fld':
                    return {self.field(a)}
            return {None}
        if op == 'arg':
            return {self.params(run).get(v.a[0])}
        if op == 'hav':
            for e in run.ev:
                if e.kind == 'call' and (e.ins.blk, e.ins.pos) == (v.a[0], v.a[1]) and e.x.get('repo'):
                    en = entry_for(self.cx, e.x['fn'], e.val or ())
                    if not en:
                        return {None}
                    for k, x in zip(en[0], e.val or ()):
                        if k and k.startswith('out:') and isinstance(x, T) and (t.OBJ(x) is v.a[2] or x is v.a[2]):
                            return {k[4:]}
            return {None}
        if op == 'phi':
            if v not in I.phis:
                return {None}
            r = set()
            for e, x in I.phis[v].items():
                if e in I.out and x is not v:
                    r |= go(x)
            return r
        if op in ('idx', 'sub', 'sorted', 'reversed', 'pop', 'erased', 'resize', 'uniq'):
            return go(v.a[0])
        if op == 'str' or op == 'lit':
            return set()
        if op in ('push', 'cat'):
            return go(v.a[0]) | go(v.a[1])
        if op == 'upd':
            return go(v.a[0]) | go(v.a[2])
        if op == 'insat':
            return {None}
        if op == 'fill':
            return go(v.a[1]) if isinstance(v.a[1], T) else {None}
        if op == 'jget':
            k = self.jkey(v)
            return {self.json.get(k)} if k else {None}
        if op == 'obj' or op == 'el' or op == 'ptr':
            return {None}
        if op == 'get' and len(v.a) == 2:
            return go(v.a[0])
        return {None}

    def field(self, a):
        """a member handed out by freqs() holds frequencies"""
        cls = None
        k = ('c30f',)
        if k not in self.cx.cache:
            r = set()
            for u in self.cx.fns(SEQ[1], 'freqs'):
                for x in lib.returns(self.cx.run(u)):
                    v = x.a[0]
                    if v.op == 'init':
                        r.add(v.a[0].a[-1] if v.a[0].op == 'fld' else None)
            self.cx.cache[k] = r
        return FREQ if a.a[1] in self.cx.cache[k] else None

    def jkey(self, v):
        for x in t.walk(v.a[0]):
            if x.op in ('jel', 'jat'):
                return str(x.a[1])
        return None

    def call(self, run, v):
        m = run.__dict__.get('_calls')
        if m is None:
            m = run._calls = {}
            for e in run.ev:
                if e.kind == 'call' and e.r is not None and e.x.get('repo'):
                    m.setdefault(e.r, e)
        return m.get(v)

    # ------------------------------------------------------------ what is written to files
    def saved(self, run):
        for e in run.ev:
            if e.kind == 'json' and e.how == 'set' and e.addr is not None and e.addr.op == 'jel' and isinstance(e.val, T):
                v = e.val
                while v.op == 'json':
                    v = v.a[0]
                ks = self.of(run, v)
                if len(ks) == 1 and None not in ks:
                    self.json.setdefault(str(e.addr.a[1]), next(iter(ks)))

    # ------------------------------------------------------------ judging
    def judge(self, run, done):
        cx = self.cx
        for e in run.ev:
            if e.kind != 'call' or not e.x.get('repo'):
                continue
            en = entry_for(cx, e.x['fn'], e.val or ())
            if en is None or not en[0]:
                continue
            for k, x in zip(en[0], e.val or ()):
                if k is None or k.startswith('out') or not isinstance(x, T):
                    continue
                ks = self.of(run, x) - {None}
                unk = None in self.of(run, x)
                bad = [y for y in ks if y != k]
                if bad:
                    # an error when nothing of it has the right kind
                    ok = False if k not in ks and not unk else None
                elif unk and not ks:
                    ok = None
                else:
                    ok = True
                key = (e.loc, k, ok, run.q)
                if ok is None and unk and not ks or key in done:
                    continue
                done.add(key)
                cx.ob('kinds', e, ok, '%s gets %s' % (fname(e), ', '.join(sorted(ks)) or k), None if ok else 'it takes %s: %s' % (k, t.show(x, 4)))
            # the entry asked for by id
            if fname(e) in ('get', 'parent') and e.val:
                self.index(run, e, e.val[0], None, done)
        for e in run.ev:
            for v in (e.val, e.new) + tuple(x for x in (e.val if isinstance(e.val, (tuple, list)) else ())):
                if isinstance(v, T) and e.kind in ('call', 'mut', 'store', 'return', 'json'):
                    for x in t.walk(v):
                        if x.op == 'idx' and self.table(run, x.a[0]):
                            self.index(run, e, x.a[1], x.a[0], done)
            if e.kind == 'mut' and e.how == 'upd' and e.old is not None and self.table(run, e.old):
                self.index(run, e, e.key, e.old, done)
        # what is handed out
        fam = family(cx, run.fn['fn'])
        n = run.fn['fn']['n']
        want = None
        if run.fn['fn'].get('cls') in TEXT and n in ('transform', 'parse', 'alphabet'):
            want = STR
        elif run.fn['fn'].get('cls') in TEXT and n == 'freqs':
            want = FREQ
        elif fam in TABLE and n in TABLE[fam] and fam != 'BaseTokenizer':
            want = TABLE[fam][n][1]
        if want:
            for r in lib.returns(run):
                if not r.a or not isinstance(r.a[0], T):
                    continue
                ks = self.of(run, r.a[0])
                kk = ks - {None}
                ok = True if kk == {want} else (False if kk and want not in kk and None not in ks else None)
                if ok is not None:
                    cx.ob('kinds', r, ok, '%s gives %s' % (n, ', '.join(sorted(kk))), None if ok else 'it has to give %s' % want)

    def table(self, run, v):
        """v is ordered by v-gram id: the list of entries, or of their frequencies"""
        if v.op in ('init', 'load') and isinstance(v.a[0], T) and v.a[0].op in ('rf',):
            v = v.a[0]
        if v.op == 'rf':
            e = self.call(run, v)
            return e is not None and fname(e) in BYID and family(self.cx, e.x['fn']) in ('IntDict', 'IntStreamVGram') and fname(e) != 'get'
        if v.op in ('init',) and v.a[0].op == 'fld':
            return self.field(v.a[0]) == FREQ
        if v.op == 'phi' and isinstance(v.a[1], T) and v.a[1].op == 'fld':
            return self.field(v.a[1]) == FREQ
        return False

    def index(self, run, e, i, tab, done):
        cx = self.cx
        I, LL = run.I, run.LL
        ks = self.of(run, i)
        kk = ks - {None}
        key = (e.loc, run.q, 'ix')
        if kk == {ID}:
            if key not in done:
                done.add(key)
                cx.ob('index', e, True, 'indexed by an id')
            return
        if kk and ID not in kk and None not in ks:
            if key not in done:
                done.add(key)
                cx.ob('index', e, False, 'a table ordered by id is indexed by %s' % ', '.join(sorted(kk)), t.show(i, 4))
            return
        # a counter: what does it run over?
        if i.op == 'phi' and LL.counter(i) is not None and i.a[0] in LL.loops:
            tv = patterns.traversal_of(run, LL.loops[i.a[0]])
            over = [n for n, ph, ed in LL.traversals(LL.loops[i.a[0]]) if ph is i]
            ok = None
            for n in over:
                if n.op == 'rf' and n.a[0].endswith('size') or n.op == 'size' and (self.table(run, n.a[0]) or n.a[0] is tab):
                    ok = True
                elif n.op == 'size':
                    w = self.of(run, n.a[0])
                    if w and None not in w and not (n.a[0].op == 'rf' and self.table(run, n.a[0])):
                        ok = False if ok is None else ok
            if key not in done:
                done.add(key)
                cx.ob('index', e, ok, 'a table ordered by id is gone through' if ok is not False else 'a table ordered by id is indexed by a position in something else', None if ok else t.show(i, 3))


# ---------------------------------------------------------------- training
def whole(run, i=0):
    return run.I.initial(t.OBJ(raw('argp', i, run.fn['params'][i]['n'])))


def transformed(K, run, v, src):
    """v is the tokenized src: True / False / None"""
    if v.op == 'rf':
        e = K.call(run, v)
        if e is not None and fname(e) == 'transform' and family(K.cx, e.x['fn']) == 'BaseTokenizer':
            a = (e.val or (None,))[0]
            if a is src:
                return True
            return False if a is not None and (a.op in ('sub', 'reversed', 'sorted', 'pop', 'empty', 'erased', 'resize') or lib.visible(a)) else None
    k, m = patterns.mapped(run, v, [src])
    if k == 'ok':
        if m.src is not src:
            return None
        if m.exits:
            return False
        for f, its in m.alts:
            if lib.contradictory(f):
                continue
            if len(its) != 1 or its[0][0] != 'one':
                return False if all(x[0] == 'one' for x in its) else None
            r = transformed(K, run, its[0][1], m.elem)
            if r is not True:
                return r
        return True
    if k == 'bad':
        return False
    if v is src or v.op in ('sub', 'empty', 'reversed', 'sorted', 'pop', 'resize', 'erased') and lib.seen(run, v, but=('hav', 'rf')):
        return False
    return None


def models(cx, K, run, names):
    return [e for e in run.ev if e.kind == 'call' and e.x.get('repo') and fname(e) in names and family(cx, e.x['fn']) == 'IntStreamVGram']


def trained(cx, K, run):
    src = whole(run)
    cs = models(cx, K, run, ('fit', 'accept'))
    if not cs:
        used = [e for e in run.ev if e.kind == 'call' and e.x.get('repo')]
        cx.ob('trained', lib.at(run), None if any(fname(e) not in ('transform',) for e in used) else False, 'the sequence model is not trained')
        return
    for e in cs:
        cx.ob('trained', e, transformed(K, run, e.val[0], src) if not run.LL.enclosing(e.blk) else None, 'the sequence model is trained with the tokenized text', t.show(e.val[0], 4))
    one = cs[0]
    if len(cs) == 1 and not run.LL.enclosing(one.blk):
        p = run.LL.path((run.I.L.entryblk.id, -1), [(b.id, 10 ** 8) for b in run.I.rpo if b.id in run.I.reach and not run.LL.succ.get(b.id)], [one.pos])
        if p is None:
            cx.ob('trained', one, True, 'every text is handed to the sequence model')
        else:
            own = [f for f in one.facts if f[0] != 'sel']
            empt = own and all(nonempty(f, src, K, run) for f in own)
            if not empt:
                cx.ob('trained', one, False if own and all(lib.visible(f[0]) or any(x.op == 'rf' for x in t.walk(f[0])) and all(x.op not in lib.OPQ - {'rf', 'init'} for x in t.walk(f[0])) for f in own)
                      else None, 'a text may not be handed to the sequence model', '; '.join(t.show(f[0], 3) for f in own))
    elif len(cs) > 1:
        for a in cs:
            for b in cs:
                if a is not b and run.LL.path(a.pos, [b.pos]) is not None:
                    cx.ob('trained', b, False if b.val[0] is a.val[0] else None, 'a text is handed to the sequence model twice')


def nonempty(f, src, K, run):
    """the fact says no more than that there is something to be trained with"""
    a, pol = f
    if a.op == 'eq' and not pol or a.op == 'ge0':
        xs = [x for x in t.walk(a) if x.op == 'size']
        return len(xs) == 1 and xs[0].a[0] is src and run.G.proves({(a, not pol)}, t.ge0(sub(ZERO, size(src))))
    return False


# ---------------------------------------------------------------- inference
def shown(cx, K, run):
    I, LL = run.I, run.LL
    src = whole(run)
    asks = models(cx, K, run, ('transform', 'parse'))
    if not asks:
        cx.ob('asked', lib.at(run), None, 'the sequence model is not asked')
        cx.ob('shown', lib.at(run), None, 'the sequence model is not asked')
        return
    for e in asks:
        enc = LL.enclosing(e.blk)
        ks = [transformed(K, run, x, src) for f, x in lib.alts(run, e.val[0], e.facts)]
        ok = False if False in ks else None if None in ks else True
        if ok is not True and enc:
            tv = patterns.traversal_of(run, enc[-1])
            ok = transformed(K, run, e.val[0], t.index(src, tv[2])) if tv[0] == 'ok' and tv[1] is src else None
        cx.ob('asked', e, ok, 'the sequence model is asked about the tokenized text', t.show(e.val[0], 4))
    ids = {e.r for e in asks}
    tabs = [x for x in run.ev if x.kind == 'call' and x.x.get('fn') and fname(x) == 'alphabet' and family(cx, x.x['fn']) == 'IntStreamVGram']
    for e in asks:
        if not tabs:
            continue
        before = [x for x in tabs if LL.path(x.pos, [e.pos]) is not None]
        after = [x for x in tabs if x not in before or LL.path(e.pos, [x.pos]) is not None]
        bad = bool(before) and not after and not LL.enclosing(e.blk) and grows(cx, e)
        cx.ob('fresh', before[0] if bad else e, not bad, 'the entries are asked for once the ids are known' if not bad
              else 'the entries are asked for before the ids, which may stand for entries added later')
    for ret in lib.returns(run):
        for f, v in lib.alts(run, ret.a[0], ret.facts):
            if v is EMPTY:
                continue
            k, m = patterns.mapped(run, v)
            if k != 'ok':
                cx.ob('shown', ret, None if k == 'unk' else False, 'the result: %s' % m)
                continue
            if m.src in ids and run.fn['fn']['n'] == 'parse':
                for fs, its in m.alts:
                    if lib.contradictory(fs):
                        continue
                    if len(its) != 1 or its[0][0] != 'one':
                        cx.ob('shown', ret, None, 'what is shown is not recognised')
                        continue
                    cx.ob('shown', ret, text_of(cx, K, run, its[0][1], m.elem), 'an id is shown as the text of its entry', t.show(its[0][1], 5))
            else:
                for fs, its in m.alts:
                    for it in its:
                        if it[0] == 'one':
                            joined(cx, K, run, ret, it[1], ids, m)


def grows(cx, e):
    """asking for ids may add to the dictionary"""
    fn = e.x['fn']
    for c in SEQ:
        for u in cx.fns(c, fn['n']):
            for m in cx.run(u, ('km',), keepmem=True).ev:
                if m.kind == 'mut' and m.how in ('push', 'append', 'insat') and m.addr is not None and str(m.fn).startswith('IntDictImpl::') and m.addr.op == 'fld':
                    a = m.addr
                    while isinstance(a, T) and a.op != 'new' and a.a:
                        a = a.a[0]
                    if not (isinstance(a, T) and a.op == 'new'):
                        return True
    return False


def text_of(cx, K, run, v, i):
    """v is the text of entry i"""
    if v.op != 'rf':
        if v.op == 'phi':
            rs = [text_of(cx, K, run, x, i) for f, x in lib.alts(run, v)]
            return True if all(r is True for r in rs) else False if all(r is False for r in rs) else None
        return False if v.op in ('str', 'lit', 'c', 'empty') else None
    e = K.call(run, v)
    if e is None or fname(e) != 'decode' or family(cx, e.x['fn']) != 'BaseTokenizer':
        return None
    x = e.val[0]
    for _ in range(3):
        if x.op in ('init', 'load') and isinstance(x.a[0], T) and x.a[0].op == 'rf':
            x = x.a[0]
        if x.op == 'rf':
            e2 = K.call(run, x)
            if e2 is not None and fname(e2) == 'decode' and e2.val:
                x = e2.val[0]
                continue
            if e2 is not None and fname(e2) == 'get' and e2.val:
                return same(e2.val[0], i)
        break
    y = x
    if y.op in ('init', 'load') and isinstance(y.a[0], T) and y.a[0].op == 'el':
        return None
    if y.op == 'idx':
        if not K.table(run, y.a[0]):
            return None
        j = y.a[1]
        return same(j, i)
    if y.op in ('sub', 'reversed', 'sorted', 'pop', 'erased', 'resize', 'push'):
        return False
    return None


def same(j, i):
    if j is i:
        return True
    return False if any(z is i for z in t.walk(j)) or j.op in ('c', 'lin', 'phi', 'size') else None


def joined(cx, K, run, ret, v, ids, m):
    """one string for the ids of a text"""
    LL = run.LL
    if v.op != 'phi' or v not in run.I.phis:
        cx.ob('shown', ret, None, 'what is shown is not recognised')
        return
    acc = LL.accumulation(v)
    if acc is None:
        cx.ob('shown', ret, None, 'what is shown is not recognised')
        return
    init, alts, L = acc
    tv = patterns.traversal_of(run, L)
    if tv[0] != 'ok':
        cx.ob('shown', ret, False if tv[0] == 'bad' else None, 'the ids are not gone through: %s' % (tv[1],))
        return
    src = tv[1]
    fit = src in ids or src.op == 'idx' and src.a[0] in ids
    if fit and src.op == 'idx' and src is not t.index(m.src, m.iv):
        cx.ob('shown', ret, False if src.a[0] is m.src else None, 'the ids shown are those of another text')
    if not fit:
        cx.ob('shown', ret, None, 'the ids gone through are not recognised')
        return
    if LL.exits(L, tv[3]):
        cx.ob('shown', ret, None, 'not all ids may be shown')
    i = t.index(src, tv[2])
    for fs, its in alts:
        if lib.contradictory(fs):
            continue
        n, bad = 0, None
        for it in its:
            x = it[1]
            if it[0] in ('one', 'seq') and (x.op in ('c', 'str', 'lit') or not any(z.op in ('rf', 'phi', 'init') for z in t.walk(x))):
                continue
            if it[0] not in ('one', 'seq'):
                bad = it
                continue
            r = text_of(cx, K, run, x, i)
            n += 1
            cx.ob('shown', ret, r, 'an id is shown as the text of its entry', t.show(x, 5))
        if bad is None and n != 1:
            cx.ob('shown', ret, False if all(plainfact(f) for f in fs) else None, 'an id is shown %d times on some path' % n)


def plainfact(f):
    return f[0] == 'sel' or all(x.op not in ('opq', 'ext', 'hav', 'bot') for x in t.walk(f[0]))


# ---------------------------------------------------------------- whose tokenizer
def own(cx, K, run):
    """tokenizer and coder are the model's own"""
    for e in run.ev:
        if e.kind != 'call' or not e.x.get('repo'):
            continue
        fam = family(cx, e.x['fn'])
        if fam not in ('BaseTokenizer', 'SeqCoder', 'IntStreamVGram') or not e.a or fname(e) not in TABLE[fam]:
            continue
        o = e.a[0]
        rt = t.root(o) if isinstance(o, T) else None
        mine = any(x is lib.THIS for x in t.walk(o)) if isinstance(o, T) else False
        if mine:
            ok = True
        else:
            ok = False if isinstance(o, T) and not any(x.op in ('argp', 'arg', 'opq', 'ext', 'hav', 'load') for x in t.walk(o)) and \
                any(x.op in ('new', 'var', 'alloc', 'mv', 'tmp') for x in t.walk(o)) else None
        cx.ob('own', e, ok, '%s is asked of the model\'s own %s' % (fname(e), {'BaseTokenizer': 'tokenizer', 'SeqCoder': 'coder', 'IntStreamVGram': 'sequence model'}[fam]),
              None if ok else t.show(o, 3))


def tokenized(cx, run):
    """the tokens that are coded"""
    I, LL = run.I, run.LL
    p = run.fn['params'][0]
    if 'vector' in str(p.get('t')) or 'vector' in str(p['t'].get('rc') if isinstance(p.get('t'), dict) else ''):
        return
    src = whole(run)
    for L in LL.loops.values():
        tv = patterns.traversal_of(run, L)
        if tv[0] != 'ok':
            continue
        v = tv[1]
        ok = None
        if v.op == 'rf' and v.a[0].endswith('tokenize'):
            x = v.a[-1]
            if x.op == 'rf' and x.a[0].endswith('normalize'):
                ok = x.a[-1] is src
                ok = ok or None
            elif x is src:
                ok = False
            cx.ob('tokenized', lib.at(run), ok, 'what is coded are the tokens of the normalized text', None if ok else t.show(v, 4))
            return
        if v is src or v.op == 'rf' and v.a[0].endswith('normalize'):
            continue
    cx.ob('tokenized', lib.at(run), None, 'the tokens that are coded are not recognised')
