"""C27: tokenizers accept any text and produce proper tokens.

What one byte of the text does is worked out for each of the 256 bytes from the conditions in the source: the character
tokenizer is a sequence of byte-by-byte stages whose tables are composed and compared with 'letters and digits, in lower
case, one per token'; the word tokenizer is a machine that has an empty or a non-empty word, and each transition of it is
compared with the splitter's."""
from .. import lib, logic, patterns, terms as t
from ..terms import T, C, raw, ZERO, ONE, EMPTY, add, sub, size, lin_parts

V = 'vgram_core::'
LIMIT = 4000


def check(cx):
    cx.rule('letters', 'the character tokenizer keeps exactly the letters and digits, in lower case and in order, one per token', 1)
    cx.rule('all', 'all of the text is looked at', 2)
    cx.rule('words', 'the word tokenizer ends a word at a space and only there, adds every other byte to the word, and makes a token of every non-empty word', 4)
    chars(cx)
    words(cx)


def run_of(cx, cls, name):
    us = cx.resolve(V + cls, name)
    return cx.run(us[0], ('km',), keepmem=True) if len(us) == 1 else None


# -- conditions on one byte ------------------------------------------------------------------------------------------------

def ctype(n, x):
    c = x & 255
    a = chr(c) if c < 128 else ''
    r = {'isalnum': lambda: a.isalnum(), 'isalpha': lambda: a.isalpha(), 'isdigit': lambda: a.isdigit(), 'isspace': lambda: a in set(' \t\n\v\f\r') if a else False,
         'islower': lambda: a.islower(), 'isupper': lambda: a.isupper(), 'ispunct': lambda: 33 <= c < 127 and not a.isalnum(),
         'isprint': lambda: 32 <= c < 127, 'isgraph': lambda: 33 <= c < 127, 'iscntrl': lambda: c < 32 or c == 127,
         'isxdigit': lambda: bool(a) and a in '0123456789abcdefABCDEF', 'isblank': lambda: bool(a) and a in ' \t'}
    if n in r:
        return int(bool(r[n]()))
    if n == 'tolower':
        return c + 32 if 65 <= c <= 90 else x
    if n == 'toupper':
        return c - 32 if 97 <= c <= 122 else x
    return None


def ev(x, env):
    """value of a term when the terms in env have the values given there; None when it is not known"""
    if x in env:
        return env[x]
    o = x.op
    if o == 'c':
        return x.a[0]
    if o == 'true':
        return 1
    if o == 'false':
        return 0
    if o == 'lin':
        c, d = lin_parts(x)
        for k, v in d.items():
            y = ev(k, env)
            if y is None:
                return None
            c += v * y
        return c
    if o == 'eq':
        a, b = ev(x.a[0], env), ev(x.a[1], env)
        return None if a is None or b is None else int(a == b)
    if o == 'ge0':
        a = ev(x.a[0], env)
        return None if a is None else int(a >= 0)
    if o == 'not':
        a = ev(x.a[0], env)
        return None if a is None else int(not a)
    if o == 'or' or o == 'and':
        vs = [ev(y, env) for y in x.a]
        if o == 'or':
            return 1 if any(vs) else (None if None in vs else 0)
        return 0 if any(v == 0 for v in vs) else (None if None in vs else 1)
    if o == 'f' and len(x.a) == 2 and isinstance(x.a[1], T):
        a = ev(x.a[1], env)
        n = str(x.a[0]).split('::')[-1]
        return None if a is None else ctype(n, a)
    if o.startswith('b') and len(x.a) >= 2 and isinstance(x.a[0], T) and isinstance(x.a[1], T):
        a, b = ev(x.a[0], env), ev(x.a[1], env)
        if a is None or b is None:
            return None
        try:
            return {'b&': lambda: a & b, 'b|': lambda: a | b, 'b^': lambda: a ^ b, 'b<<': lambda: a << b, 'b>>': lambda: a >> b,
                    'b%': lambda: a % b, 'b/': lambda: a // b}[o]()
        except (KeyError, ZeroDivisionError, ValueError, TypeError):
            return None
    return None


# -- ways through the blocks -----------------------------------------------------------------------------------------------

class Toobig(Exception):
    pass


def ways(run, start, entered, env, stop, facts=frozenset(), pinned=()):
    """[(end, sel, open)] ways from a block: end is ('back'|'out'|'ret'|'throw', edge or block); sel is how each join on the
    way was entered; open are the conditions that neither the byte nor the state decides.  stop(edge) names an edge that ends a way"""
    I = run.I
    r = []
    todo = [(start, ((start, entered),) if entered else (), (), frozenset([start]))]
    n = 0
    while todo:
        b, sel, op, seen = todo.pop()
        n += 1
        if n > LIMIT:
            raise Toobig
        blk = I.blocks[b]
        es = [i for i in range(len(blk.succ)) if (b, i) in I.out]
        if not es:
            r.append((('ret' if not any(x.op == 'throw' for x in blk.ins) else 'throw', b), dict(sel), op))
            continue
        if blk.term and blk.term[0] == 'br' and len(es) == 2:
            c = resolve(run, run.G_cond(b) if hasattr(run, 'G_cond') else I_cond(run, b), dict(sel))
            v = ev(c, env) if c is not None else None
            if v is not None:
                es = [0 if v else 1]
            else:
                op = op + ((c, b),)
        for i in es:
            k = (b, i)
            s = stop(k)
            o2 = op
            if op and op[-1][1:] == (b,):
                o2 = op[:-1] + ((op[-1][0], b, i),)
            if s:
                r.append(((s, k), dict(sel), o2))
                continue
            d = blk.succ[i].id
            if d in seen:
                raise Toobig
            todo.append((d, sel + ((d, k),), o2, seen | {d}))
    return r


def I_cond(run, b):
    cs = run.__dict__.get('_brc')
    if cs is None:
        cs = run._brc = {}
        for e in run.ev:
            if e.kind == 'br':
                cs[e.blk] = e.a[0]
    return cs.get(b)


def resolve(run, v, sel):
    """the value on a way that entered its joins as sel says"""
    I = run.I
    if v is None:
        return None
    for _ in range(30):
        mp = {}
        for x in t.walk(v):
            if x.op == 'phi' and x in I.phis and x.a[0] in sel and x.a[0] not in I.headers:
                y = I.phis[x].get(sel[x.a[0]])
                if y is not None and y is not x:
                    mp[x] = y
        if not mp:
            return v
        v = logic.rebuild(v, mp)
    return v


def header_value(run, ph, edge, sel):
    y = run.I.phis[ph].get(edge)
    return resolve(run, y, sel) if y is not None else None


def loop_of(run, v):
    ls = run.LL.loops
    for L in ls.values() if isinstance(ls, dict) else ls:
        if L.header == v.a[0]:
            return L
    return None


def body_ways(run, L, env, back):
    bk = {(b, i) for b, i in L.back}
    ex = {(b, i) for b, i, d in L.exits}

    def stop(k):
        return 'back' if k in bk else 'out' if k in ex else None
    return ways(run, L.header, None, env, stop)


# -- byte-by-byte stages ---------------------------------------------------------------------------------------------------

def stages(run, v, depth=0):
    """[stage], from the text on: a stage is a table byte -> set of results, a result being a tuple of outputs or an
    ('end', ...) mark.  None when it is not a byte-by-byte function of the text"""
    if depth > 6:
        return None
    if v.op == 'init' and v.a[0].op in ('obj', 'argp') and any(x.op == 'argp' for x in t.walk(v.a[0])):
        return []
    if v.op != 'phi' or v not in run.I.phis:
        return None
    if v.a[0] not in run.I.headers:
        return None
    L = loop_of(run, v)
    if L is None:
        return None
    init = {x for e, x in run.I.phis[v].items() if e not in run.I.backedge}
    if len(init) != 1:
        return None
    init = init.pop()
    tr = run.LL.traversals(L)
    if init is EMPTY or init.op == 'str' and init.a[0] == '':
        # appended to
        best = None
        for n, i, end in tr:
            if n.op != 'size':
                continue
            X = n.a[0]
            prev = stages(run, X, depth + 1)
            if prev is None:
                continue
            return prev + [table(run, L, v, X, n, i, end)]
        return None
    # changed in place
    prev = stages(run, init, depth + 1)
    if prev is None:
        return None
    for n, i, end in tr:
        if n.op == 'size' and (n.a[0] is v or n.a[0] is init):
            return prev + [table(run, L, v, v, n, i, end, inplace=True)]
    return None


def out_of(run, L, v, X, i, nv, inplace, same):
    """outputs of one round: list of terms, or None"""
    if inplace:
        if nv is v:
            return (X_i(X, i),)
        if nv.op == 'upd' and nv.a[0] is v and (nv.a[1] is i or nv.a[1] in same):
            return (nv.a[2],)
        return None
    r = []
    while nv is not v:
        if nv.op == 'push':
            r.append(nv.a[1])
            nv = nv.a[0]
        elif nv.op == 'cat' and nv.a[1].op == 'push':
            # a piece that is appended
            p = []
            w = nv.a[1]
            while w.op == 'push':
                p.append(w.a[1])
                w = w.a[0]
            if w is not EMPTY:
                return None
            r += p
            nv = nv.a[0]
        else:
            return None
    return tuple(reversed(r))


def X_i(X, i):
    return raw('idx', X, i)


def table(run, L, v, X, n, i, end, inplace=False):
    """{byte: set of results}; result: tuple of outputs (ints, or tuples of ints for strings) or ('cut',) or None"""
    same = twins(run, L, i)
    cx = {t.index(X, j) for j in same | {i}} | {raw('idx', X, j) for j in same | {i}}
    tb = {}
    for c in range(256):
        res = None
        for sgn in ((c,) if c < 128 else (c - 256, c)):
            env = {x: sgn for x in cx}
            # inside the loop the position is within the text
            env[t.ge0(sub(sub(n, i), ONE))] = 1
            try:
                ws = body_ways(run, L, env, None)
            except Toobig:
                res = {None}
                break
            got = set()
            for (kind, k), sel, op in ws:
                if kind == 'throw' or kind == 'ret':
                    got.add(('cut',))
                    continue
                if kind == 'out':
                    got.add(('cut',) if k != end else None)
                    continue
                nv = header_value(run, v, k, sel)
                os = out_of(run, L, v, X, i, nv, inplace, same | {i}) if nv is not None else None
                if os is None:
                    got.add(None)
                    continue
                vals = tuple(outval(o, env) for o in os)
                r = None if any(x is None for x in vals) else vals
                if op and r is not None and any(not known(run, x[0]) for x in op):
                    r = ('maybe',) + r
                got.add(r)
            res = got if res is None else (res if res == got else {None})
        tb[c] = res or {None}
    return tb


def known(run, c):
    """the condition is made of things the run shows"""
    return c is not None and not any(x.op in lib.OPQ for x in t.walk(c))


def twins(run, L, i):
    """positions that are the same as i in every round"""
    r = set()
    cs = run.LL.counters(L)
    me = next(((a, s) for ph, a, s in cs if ph is i), None)
    for ph, a, s in cs:
        if ph is not i and me == (a, s):
            r.add(ph)
    for ph, ops in run.I.phis.items():
        if ph.a[0] == L.header and ph is not i and isinstance(ph.a[1], T) and ph.a[1].op == 'pos':
            ok = True
            for e, x in ops.items():
                y = run.I.phis[i].get(e) if i in run.I.phis else None
                if y is None or not (x is y or sub(x, ph) is sub(y, i) and e in run.I.backedge):
                    ok = False
            if ok:
                r.add(ph)
    return r


def outval(o, env):
    """a byte, or a string as a tuple of bytes"""
    if o.op == 'push' or o is EMPTY or o.op == 'fill' or o.op == 'sub':
        r = []
        if o.op == 'fill':
            n, c = ev(o.a[0], env), ev(o.a[1], env)
            return (c & 255,) * n if n is not None and c is not None else None
        if o.op == 'sub':
            n = ev(o.a[2], env) if len(o.a) > 2 else None
            c = ev(raw('idx', o.a[0], o.a[1]), env)
            return (c & 255,) if n == 1 and c is not None else None
        while o.op == 'push':
            c = ev(o.a[1], env)
            if c is None:
                return None
            r.append(c & 255)
            o = o.a[0]
        return tuple(reversed(r)) if o is EMPTY else None
    c = ev(o, env)
    return c & 255 if c is not None else None


def compose(a, b):
    """result tables one after the other"""
    r = {}
    for c in range(256):
        out = set()
        for x in a[c]:
            if x is None:
                out.add(None)
                continue
            if x and x[0] in ('cut', 'maybe'):
                out.add(None if x[0] == 'maybe' else x)
                continue
            acc = [()]
            for y in x:
                if not isinstance(y, int):
                    acc = [None]
                    break
                acc = [None if p is None or q is None or q and q[0] == 'maybe' else (('cut',) if q and q[0] == 'cut' or p and p[0] == 'cut' else p + q) for p in acc for q in b[y]]
            out |= set(acc)
        r[c] = out
    return r


IDENT = {c: {(c,)} for c in range(256)}


def through(sts):
    r = IDENT
    for s in sts:
        r = compose(r, s)
    return r


def rets(run):
    r = []
    for x in lib.returns(run):
        v = x.a[0] if x.a and isinstance(x.a[0], T) else None
        if v is not None:
            r += [(x, y) for f, y in lib.alts(run, v, x.facts)]
    return r


def show(c):
    return repr(chr(c)) if 32 <= c < 127 else '0x%02x' % c


def chars(cx):
    rn, rt = run_of(cx, 'CharTokenizer', 'normalize'), run_of(cx, 'CharTokenizer', 'tokenize')
    if rn is None or rt is None:
        return
    na, ta = rets(rn), rets(rt)
    if len(na) != 1 or len(ta) != 1:
        cx.ob('letters', lib.at(rn if len(na) != 1 else rt), None, 'the tokenizer is not a byte-by-byte function')
        return
    ns, ts = stages(rn, na[0][1]), stages(rt, ta[0][1])
    if ns is None or ts is None:
        cx.ob('letters', lib.at(rn if ns is None else rt), None, 'the tokenizer is not a byte-by-byte function')
        return
    n = through(ns)
    whole = through(ns + ts)
    bad, un = [], []
    for c in range(256):
        want = ((low(c),),) if alnum(c) else ()
        for r in whole[c]:
            if r is None:
                un.append(c)
            elif r and r[0] == 'maybe':
                if r[1:] != want:
                    un.append(c)
            elif r != want:
                bad.append((c, r))
    cut = [(c, r) for c, r in bad if r and r[0] == 'cut']
    # where it goes wrong: normalizing, if its own table is wrong for the byte
    def place(c):
        return lib.at(rn if n[c] != ({(low(c),)} if alnum(c) else {()}) else rt)
    if bad:
        c, r = bad[0]
        cx.ob('letters', place(c), False, 'letters and digits are kept, in lower case, one per token, and nothing else is',
              'wrong for %s' % ', '.join(show(x) for x in sorted({x for x, y in bad})[:12]))
    elif un:
        cx.ob('letters', place(un[0]), None, 'what is made of %s is not recognised' % ', '.join(show(x) for x in sorted(set(un))[:8]))
    else:
        cx.ob('letters', lib.at(rn), True, 'letters and digits are kept, in lower case, one per token, and nothing else is (%d stages, 256 bytes)' % len(ns + ts))
    cx.ob('all', lib.at(rt), None if un and not cut else not cut, 'the character tokenizer looks at all of the text')


def alnum(c):
    return c < 128 and chr(c).isalnum()


def low(c):
    return c + 32 if 65 <= c <= 90 else c


# -- the word tokenizer ----------------------------------------------------------------------------------------------------

def words(cx):
    rn, rt = run_of(cx, 'WordTokenizer', 'normalize'), run_of(cx, 'WordTokenizer', 'tokenize')
    if rn is not None:
        na = rets(rn)
        ns = stages(rn, na[0][1]) if len(na) == 1 else None
        if ns is None:
            cx.ob('words', lib.at(rn), None, 'what is done to the text before it is split is not recognised')
        else:
            n = through(ns)
            bad = [c for c in range(256) if c != 32 and any(r is not None and (not r or r[0] != 'maybe') and r != (c,) for r in n[c])]
            bad += [32] if any(r is not None and r != (32,) and (r == () or any(isinstance(x, int) and x != 32 for x in r)) for r in n[32]) else []
            un = [c for c in range(256) if any(r is None or r and r[0] == 'maybe' for r in n[c])]
            cx.ob('words', lib.at(rn), False if bad else None if un else True, 'the text is not changed before it is split',
                  'wrong for %s' % ', '.join(show(x) for x in bad[:12]) if bad else None)
    if rt is None:
        return
    run = rt
    rs = lib.returns(run)
    v = rs[0].a[0] if len(rs) == 1 and rs[0].a and isinstance(rs[0].a[0], T) else None
    ph = [x for x in lib_headers(run, v)] if v is not None else []
    if len(ph) != 1:
        cx.ob('words', lib.at(run), None, 'the splitter is not recognised')
        return
    Tk = ph[0]
    L = loop_of(run, Tk)
    tr = [(n, i, end) for n, i, end in run.LL.traversals(L) if n.op == 'size' and n.a[0].op == 'init'] if L else []
    Ws = [p for p in run.I.phis if p.a[0] == L.header and p is not Tk and any(x.op in ('push', 'cat') for x in lib.sources(run, p) + list(walkall(run, p)))] if L else []
    Ws = [p for p in Ws if text_like(run, p)]
    if len(tr) != 1 or len(Ws) != 1:
        cx.ob('words', lib.at(run), None, 'the splitter is not recognised')
        return
    n, i, end = tr[0]
    X, W = n.a[0], Ws[0]
    init = [run.I.phis[p].get(e) for p in (Tk, W) for e in run.I.phis[p] if e not in run.I.backedge]
    cx.ob('words', lib.at(run), True if all(x is EMPTY or x.op == 'str' and x.a[0] == '' for x in init if x is not None) else None, 'at the start there is no word and no token')
    same = twins(run, L, i)
    cell = {t.index(X, j) for j in same | {i}} | {raw('idx', X, j) for j in same | {i}}
    bads, uns, cuts = {}, set(), set()
    for c in range(256):
        for full in (0, 1):
            per = []
            for sgn in ((c,) if c < 128 else (c - 256, c)):
                env = {x: sgn for x in cell}
                env[t.ge0(sub(sub(n, i), ONE))] = 1
                state(env, W, full)
                try:
                    ws = body_ways(run, L, env, None)
                except Toobig:
                    per.append({None})
                    continue
                got = set()
                for (kind, k), sel, op in ws:
                    if kind != 'back':
                        got.add('cut' if not (kind == 'out' and k == end) else None)
                        continue
                    a, b = header_value(run, Tk, k, sel), header_value(run, W, k, sel)
                    got.add(step(run, a, b, Tk, W, env, c, full, [x for x in op]))
                per.append(got)
            got = per[0] if all(p == per[0] for p in per) else {None}
            for g in got:
                if g is None:
                    uns.add(c)
                elif g == 'cut':
                    cuts.add(c)
                elif g != 'ok':
                    bads.setdefault(g, set()).add(c)
    what = {'space': 'a space ends a word', 'lost': 'a byte that is no space is added to the word', 'token': 'a token is made at spaces only',
            'empty': 'no token is empty', 'kept': 'a word starts empty', 'dropped': 'a non-empty word becomes a token', 'split': 'a word ends at spaces only'}
    for k, w in what.items():
        if k in bads:
            cx.ob('words', lib.at(run), False, w, 'wrong for %s' % ', '.join(show(x) for x in sorted(bads[k])[:12]))
        else:
            cx.ob('words', lib.at(run), None if uns else True, w)
    # after the text
    b, k = end
    for full in (0, 1):
        env = {}
        state(env, W, full)
        try:
            ws = ways(run, run.I.blocks[b].succ[k].id, end, env, lambda e: None)
        except Toobig:
            cx.ob('words', rs[0], None, 'what happens at the end of the text is not recognised')
            continue
        for (kind, kk), sel, op in ws:
            if kind == 'throw':
                cx.ob('words', rs[0], False, 'every text is accepted')
                continue
            a = resolve(run, v, sel)
            a = settle(a, W, full)
            if a is Tk:
                ok = not full
            elif a.op == 'push' and a.a[0] is Tk and a.a[1] is W:
                ok = bool(full)
            else:
                ok = None
            if ok is False and op and not all(known(run, x[0]) for x in op):
                ok = None
            cx.ob('words', rs[0], ok, 'the last word becomes a token unless it is empty', None if ok else 'a token is lost' if full else 'an empty token is made')
    cx.ob('all', lib.at(run), False if cuts else None if uns else True, 'the word tokenizer looks at all of the text')


def state(env, W, full):
    """what is known of the word"""
    n = size(W)
    env[t.ge0(sub(n, ONE))] = full
    env[t.eq(n, ZERO)] = 1 - full
    env[t.eq(W, EMPTY)] = 1 - full
    for x in (raw('str', ''),):
        env[t.eq(W, x)] = 1 - full
    if not full:
        env[n] = 0


def settle(v, W, full):
    return v


def step(run, a, b, Tk, W, env, c, full, op):
    """one round: -> 'ok', what is wrong, or None"""
    if a is None or b is None or any(not known(run, x[0]) for x in op):
        return None
    emptied = b is EMPTY or b.op == 'str' and b.a[0] == '' or b is W and not full
    if a is Tk:
        made = False
    elif a.op == 'push' and a.a[0] is Tk and a.a[1] is W:
        made = True
    else:
        return None
    added = b.op == 'push' and b.a[0] is W and val(b.a[1], env) == c
    if added is False and not (b is W or emptied):
        return 'lost' if b.op == 'push' and b.a[0] is W and c != 32 and val(b.a[1], env) is not None else ('split' if b.op == 'push' and b.a[0] is EMPTY and c != 32 else None)
    if c == 32:
        if added:
            return 'space'
        if full:
            if not made:
                return 'dropped' if emptied else 'space'
            return 'ok' if emptied else 'kept'
        return 'empty' if made else 'ok'
    if made:
        return 'token'
    if added:
        return 'ok'
    return 'split' if emptied and full else 'lost'


def val(o, env):
    c = ev(o, env)
    return c & 255 if c is not None else None


def lib_headers(run, v):
    """joins at loop headers a value comes from"""
    seen, st, r = set(), [v], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in run.I.phis:
            if x.a[0] in run.I.headers:
                r.append(x)
            else:
                st += [y for e, y in run.I.phis[x].items() if e in run.I.out]
        elif x.op == 'push':
            st.append(x.a[0])
    return r


def walkall(run, p):
    seen, st = set(), [p]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'phi' and x in run.I.phis:
            st += list(run.I.phis[x].values())
        elif x.op == 'push':
            st.append(x.a[0])


def text_like(run, p):
    """bytes of the text are put into it"""
    return any(x.op == 'push' and x.a[1].op in ('idx', 'f', 'lin') for x in walkall(run, p))
