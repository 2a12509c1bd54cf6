"""The search of one nonogram line: the states of the search advance by the right moves, all of them, in the right order."""
from .common import *
from ..lin import fsyms
from .solver import line_search
from ..report import Report

ENG = 'abstract interpretation of MIR with inferred loop invariants; every step of the search compared with a transition table'
LTRUST = TRUST + ['the state list has the shape C15 shows: Start, End, runs of Fill separated by one Space, End',
                  'the cells of a line are fewer than 2^31']


class Unclear(Exception):
    pass


def setup(d):
    P = program(d)
    nm = line_search(d)
    fs = [f for f in P.fns.values() if f.name == nm] if nm else []
    for f in fs:
        ts = [P.T[f.locals[i + 1]] for i in range(f.argc)]
        si = [i for i, t in enumerate(ts) if t['k'] == 'ref' and P.T[t['to']]['k'] == 'slice']
        gi = [i for i, t in enumerate(ts) if t['k'] == 'adt' and t['def'].endswith('slice::Iter')]
        if f.argc == 2 and len(si) == 1 and len(gi) == 1:
            return f, si[0], gi[0]
    return None


def state_variants(cx, t):
    return {v['name']: i for i, v in enumerate(cx.T[t]['variants'])}


class Search:
    def __init__(self, d, panics=False):
        x = setup(d)
        self.run = None
        if x is None:
            return
        fn, si, gi = x

        def mk(cx, f, st):
            ty = cx.T[f.locals[gi + 1]]['args'][0]
            n = declare('n', 0, MAXLEN - 1)
            st.mem[('G', 'cells')] = ('Q', const(0), n, ('gen', 'cells', ty, (), None), (), ty)
            out = [None, None]
            out[si] = cx.of_type(f.locals[si + 1], 'states')
            out[gi] = ('I', 'seq', (('R', ('G', 'cells'), (), None, None), const(0), n))
            self.n, self.states, self.cx = n, out[si], cx
            to = cx.T[ty]
            while to['k'] == 'ref':
                ty = to['to']
                to = cx.T[ty]
            self.cellty = ty
            self.len = out[si][4]
            return out
        self.run = Run(d, fn, events={'push', 'store'}, args=mk, opts={'time': 800, 'loads': True, 'cap': 60, 'split': self.split if panics else None},
                       assume=lambda cx, st, a: [ge(a[si][4] - 2)])
        self.cx = self.run.cx
        self.left = []      # states whose entries stay in the table that is read

    def split(self, cx, st, goal):
        """the cases for the entries read on a path, by what the rules on moves show of the tables: an entry is at one of the places,
        and names states after the first"""
        out = [st]
        known = set(fsyms(goal))
        for f in st.facts.items():
            known |= set(fsyms(f))
        try:
            for c, p in list(cx.loads.values()):
                if not isinstance(p, Poly) or c == 'states' or c.startswith('cells'):
                    continue
                x = '%s[%r]' % (c, p)
                if not any(x in k for k in known):
                    continue
                t = cx.load_type.get(c)
                t = cx.T[t] if t is not None else {'k': ''}
                if t['k'] == 'adt' and t['def'].endswith('option::Option'):
                    out = [b for a in out for b in self.at_place(a, c, p)]
                elif t['s'] == 'usize':
                    out = [self.in_entry(a, c, p) for a in out]
                if len(out) > 60:
                    return None
        except Unclear:
            return None
        return out

    def at_place(self, st, c, p):
        cx = self.cx
        try:
            v = cx.of_type(cx.load_type[c], '%s[%r]' % (c, p), st.copy())
        except TypeError:
            v = cx.of_type(cx.load_type[c], '%s[%r]' % (c, p))
        f = none_is(cx, v)
        if f is None or not st.facts.proves(neg(f)):
            return [st]
        return [b for what, b, mv, last in self.cases(st, p)]

    def in_entry(self, st, c, p):
        v = sym('%s[%r]' % (c, p))
        b = st.copy()
        b.assume(ge(v - 1))
        b.assume(ge(self.len - 1 - v))
        if not b.facts.dead:
            for f in self.same(b, 'states', v, self.kind):
                b.assume(f)
            b.assume(neg(self.kind(b, v)['Start']))
        return b

    # ---- kinds of states and squares
    def kind(self, st, i):
        """{name: formula} of the state at index i"""
        from .. import models
        q = models.seqof(self.cx, st.copy(), self.states)[4]
        v, _ = read(self.cx, st, q, i)
        if not isinstance(v, tuple) or v[0] not in ('E', 'SE'):
            raise Unclear('a state is not known')
        return self.variants(v)

    def variants(self, v):
        t = v[1] if v[0] == 'E' else v[2]
        d = {x: self.cx.variant_is(v, k) for x, k in state_variants(self.cx, t).items()}
        d['#'] = const(v[2]) if v[0] == 'E' else self.cx.discr_sym(v[1], v[2])
        return d

    def cell(self, st, i):
        q, base = st.mem[('G', 'cells')], None
        v, s = read(self.cx, st, q, i)
        for _ in range(4):
            if isinstance(v, tuple) and v[0] == 'R':
                try:
                    v = self.cx.walk(s, self.cx.base_value(s, v[1]), v[2])
                except Exception:
                    raise Unclear('a cell is not known')
        if not isinstance(v, tuple) or v[0] not in ('E', 'SE'):
            raise Unclear('a cell is not known')
        return self.variants(v)

    def same(self, st, c, i, kind):
        """what is known by another name of the index"""
        out = []
        for x, p in list(self.cx.loads.values()):
            if x.rstrip('*') == c and isinstance(p, Poly) and (p - i).const is None and st.facts.proves(eq(p - i)):
                out.append(eq(kind(st, p)['#'] - kind(st, i)['#']))
        return out

    def cases(self, st, s):
        """the places in the list of states an entry can be at: (what, state with that assumed, {move: cells it is forbidden on},
        whether only the last state follows)"""
        L = self.len
        for what, at, kinds, mv in PLACES:
            b = st.copy()
            b.assume(ge(s))
            b.assume(ge(L - 2 - s))
            for f in at(s, L):
                b.assume(f)
            for j, k in enumerate(kinds):
                if k and not b.facts.dead:
                    b.assume(self.kind(b, s + j)[k])
            if b.facts.dead:
                continue
            for j in range(len(kinds)):
                for f in self.same(b, 'states', s + j, self.kind):
                    b.assume(f)
            if not b.facts.dead and not b.facts.proves(F):
                yield what, b, mv, kinds[1:] == ('End',) and what != 'border'


# what follows each place, and the cells on which it is ruled out
PLACES = [
    ('an empty rule', lambda s, L: [eq(s), eq(L - 2)], ('Start', 'End'), {}),
    ('border', lambda s, L: [eq(s), ge(L - 4)], ('Start', 'End', 'Fill'), {'next': 'Filled', 'skip': 'Blocked'}),
    ('leading gap', lambda s, L: [eq(s - 1), ge(L - 4)], ('End', 'Fill'), {'stay': 'Filled', 'next': 'Blocked'}),
    ('inside a block', lambda s, L: [ge(s - 2), ge(L - s - 3)], ('Fill', 'Fill'), {'next': 'Blocked'}),
    ('end of a block', lambda s, L: [ge(s - 2), ge(L - s - 4)], ('Fill', 'Space'), {'next': 'Filled'}),
    ('gap', lambda s, L: [ge(s - 3), ge(L - s - 3)], ('Space', 'Fill'), {'stay': 'Filled', 'next': 'Blocked'}),
    ('end of the last block', lambda s, L: [ge(s - 2), eq(L - s - 2)], ('Fill', 'End'), {}),
]


def some(cx, v):
    return isinstance(v, tuple) and v[0] == 'E' and cx.T[v[1]]['variants'][v[2]]['name'] == 'Some' and isinstance(v[3][0], tuple) and v[3][0][0] == 'Q'


def none_is(cx, v):
    """formula: the optional value is None"""
    if not isinstance(v, tuple) or v[0] not in ('E', 'SE'):
        return None
    t = v[1] if v[0] == 'E' else v[2]
    return cx.variant_is(v, variant(cx, t, 'None'))


def entry_of(cx, q):
    """(content of the table, index) of the entry whose sequence q is, or was before something was added to it"""
    nm = content(q)
    if nm and nm.endswith('.Some.0'):
        return cx.loads.get(nm[:-len('.Some.0')])
    return None


def stores(cx, evs):
    return [e for e in evs if e[0] == 'store' and some(cx, e[5])]


def straight(st):
    return [e for e in st.events()]


def table(S, rec):
    """the keys of the table read and the table written by the iterations of a loop over the states"""
    cx = S.cx
    src, dst = set(), set()
    for b in rec.backs:
        for e in stores(cx, straight(b)):
            x = entry_of(cx, e[5][3][0])
            dst.add((e[1], tuple(e[2])))
            if x:
                src.add(x[0])
    return src, dst


def key_of(rec, name):
    for l in rec.leaves:
        if l.kind == 'content' and l.name == name:
            return l.key, tuple(l.path[:-1])
    return None


def seq_at(cx, st, kp):
    v = st.mem.get(kp[0])
    if v is None:
        return None
    v = loops.leaf(cx, st, v, kp[1]) if kp[1] else v
    return v if isinstance(v, tuple) and v[0] == 'Q' else None


def empty_table(cx, st, q):
    """every entry of q is None"""
    b = q[3]
    if any(none_is(cx, w[2]) != T for w in q[4]):
        return False
    if b[0] == 'fill':
        return none_is(cx, b[1]) == T
    return False


def entry_none(cx, st, q, i):
    v, s = read(cx, st, q, i)
    f = none_is(cx, v) if v is not None else None
    return f is not None and s.facts.proves(f)


def passes(cx, rec):
    """[(leaf, step)] of integers that move by one in every iteration"""
    out = []
    for l in rec.leaves:
        if l.kind != 'int' or not isinstance(l.v0, Poly) or any(isinstance(x, str) and x.startswith('#') and not x.startswith('#ix') for x in l.path):
            continue
        ds = set()
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
            d = (v - l.h).const if isinstance(v, Poly) else None
            if d is None and isinstance(v, Poly):
                d = next((k for k in (1, -1) if b.facts.proves(eq(v - l.h - k))), None)
            ds.add(d)
        if len(ds) == 1 and ds <= {1, -1}:
            out.append((l, next(iter(ds))))
    return out


def index_in_round(S, rec, b, src):
    """(index of the entry this iteration is about, counter leaf, +1 or -1)"""
    cx = S.cx
    names = {x[0] for x in cx.loads.values()}
    for l in rec.leaves:
        if l.kind != 'int' or not isinstance(l.v0, Poly) or l.key not in b.mem or any(isinstance(x, str) and x.startswith('#') for x in l.path):
            continue
        v = loops.leaf(cx, b, b.mem[l.key], l.path)
        if not isinstance(v, Poly):
            continue
        for d, s in ((1, v - 1), (-1, v)):
            if (d == 1 and not rec.entry.facts.proves(eq(l.v0))) or d == -1 and rec.entry.facts.proves(eq(l.v0)):
                continue
            for (c, p) in cx.loads.values():
                if c in src and isinstance(p, Poly) and ((p - s).const == 0 or b.facts.proves(eq(p - s))):
                    return s, l, d, c
    return None


def skipped_none(S, b, l, d, s, skey):
    """the entries passed over in this iteration before s are None"""
    cx = S.cx
    if b.facts.proves(eq(s - l.h if d == 1 else l.h - 1 - s)):
        return True
    return any(e[0] == 'loop' and none_walk(S, e[1], b, l.h, s if d == 1 else s + 1, skey, d) for e in straight(b))


def none_walk(S, rec, after, start, end, skey, d=1):
    """the loop passes over the entries from start to end, and all of them are None"""
    cx = S.cx
    for m, step_ in passes(cx, rec):
        if step_ != d or not rec.entry.facts.proves(eq(m.v0 - start)):
            continue
        if not after.facts.proves(eq(m.h - end)):
            continue
        good = True
        for y in rec.backs:
            q = seq_at(cx, rec.head, skey)
            good = good and q is not None and entry_none(cx, y, q, m.h if d == 1 else m.h - 1)
        if good:
            return True
    return False


def position(S, outer):
    """the counter of the cells consumed: its value during a round of the outer loop"""
    cx = S.cx
    for l, d in passes(cx, outer):
        if d == 1 and outer.entry.facts.proves(eq(l.v0)):
            if all(b.facts.proves(ge(S.n - l.h - 1)) for b in outer.backs):
                return l
    return None


STEP = {'stay': 0, 'next': 1, 'skip': 2}
WORDS = {'stay': 'one more empty cell', 'next': 'the next state', 'skip': 'the first block without a gap'}


def appended(cx, st, q, t):
    """q is an entry of a table with the one element t added: that table's content and index"""
    x = entry_of(cx, q)
    if x is None or len(q[4]) != 1 or q[4][0][1] != ():
        return None
    at, _, v = q[4][0]
    if not isinstance(v, Poly) or not st.facts.proves(conj([eq(q[2] - at - 1), eq(v - t)])):
        return None
    old = sym(content(q) + '.len')
    if not st.facts.proves(eq(at - q[1] - old)):
        return None
    return x


def round_rules(S, r, rec, b, pos, skey, tkey, name):
    """one state of the search advanced by one cell"""
    cx = S.cx
    src = {l.name for l in rec.leaves if l.kind == 'content' and (l.key, tuple(l.path[:-1])) == skey}
    for e in straight(b):
        if e[0] == 'loop':
            src |= {l.name for l in e[1].leaves if l.kind == 'content' and (l.key, tuple(l.path[:-1])) == skey}
    q0 = seq_at(cx, rec.head, skey)
    if q0 is not None and content(q0) and not q0[4]:
        src.add(content(q0))
    x = index_in_round(S, rec, b, src)
    if x is None:
        raise Unclear('which state a round advances')
    s, l, d, c = x
    if not skipped_none(S, b, l, d, s, skey):
        raise Unclear('which states a round passes over')
    # the table read loses its entries and gets no new ones
    if q0 is not None and entry_none(cx, b, q0, s) and not stores(cx, straight(b)):
        return
    q = seq_at(cx, b, skey)
    if q is None:
        raise Unclear('the table of states')
    if not entry_none(cx, b, q, s):
        S.left.append(pp(s))
    if any(none_is(cx, w[2]) != T for w in q[4]):
        raise Unclear('entries written into the table that is read')
    gone = b.known(ge(pos - S.n))
    if gone is None:
        raise Unclear('whether there is another cell')
    put = stores(cx, straight(b))
    if any((e[1], tuple(e[2])) != tkey for e in put):
        raise Unclear('a second table of states is written')
    for what, st, mv, last in S.cases(b, s):
        for sq in ('Filled', 'Blocked', 'Blank') if gone is False else (None,):
            st2 = st.copy()
            if sq:
                for f in S.same(st2, 'cells', pos, S.cell):
                    st2.assume(f)
                st2.assume(S.cell(st2, pos)[sq])
                if st2.facts.dead or st2.facts.proves(F):
                    continue
            one_case(S, r, st2, b, s, c, d, what, sq, {m for m in mv if mv[m] != sq}, last, put, pos, rec, skey, tkey, name)
    return d


def one_case(S, r, st, b, s, c, d, what, sq, mv, last, put, pos, rec, skey, tkey, name):
    cx = S.cx
    at = '%s, %s' % (what, sq.lower() + ' cell' if sq else 'no more cells')
    if sq:
        done = []
        for e in put:
            t, v = e[3], e[5][3][0]
            m = next((m for m in STEP if st.facts.proves(eq(t - s - STEP[m]))), None)
            if m not in mv:
                r.bad('moves', name, '%s: %s is not what may follow' % (at, 'an entry moving to %s' % WORDS[m] if m else pp(t)))
                continue
            r.ok('moves', name, '%s: %s' % (at, WORDS[m]))
            y = appended(cx, st, v, t)
            if y is None and content(v) is not None and entry_of(cx, v) is None:
                raise Unclear('how an entry is made')
            r.check(y is not None and y[0] == c and st.facts.proves(eq(y[1] - s)), 'entries', name, 'the new entry is the old one of the state with the new state added')
            done.append(m)
            if m == 'next' and d == -1:
                tq = seq_at(cx, rec.head, tkey)
                r.check(tq is not None and entry_none(cx, st, tq, t), 'order', name, 'a later arrival in a state does not take the place of an earlier one')
        for m in mv:
            r.check(m in done, 'moves', name, '%s: %s is tried' % (at, WORDS[m]))
    if last:
        # finishing, had it been possible, would have left the loop
        ok = False
        for x in cells_known(S, st):
            if st.facts.proves(conj([ge(x - pos), ge(S.n - x - 1), S.cell(st, x)['Filled']])):
                ok = True
        if not ok and unknown_loops(S, b, skey):
            raise Unclear('whether the rest of the line is empty')
        r.check(ok, 'finish', name, '%s: the search goes on only if a filled cell is left' % at)


def cells_known(S, st):
    out = []
    for c, p in list(S.cx.loads.values()):
        if c.startswith('cells') and isinstance(p, Poly) and p not in out:
            out.append(p)
    return out


def unknown_loops(S, b, skey):
    """loops of a round that are neither a walk over the table nor one over cells"""
    out = []
    for e in straight(b):
        if e[0] == 'loop' and not any((l.key, tuple(l.path[:-1])) == skey for l in e[1].leaves if l.kind == 'content') and not cell_walk(S, e[1], b, None):
            out.append(e[1])
    return out


def cell_walk(S, rec, after, pos):
    """a loop over cells none of which is filled: the leaf that runs over them"""
    cx = S.cx
    for m, d in passes(cx, rec):
        if d != 1 or pos is not None and not any(rec.entry.facts.proves(f) for f in (eq(m.v0 - pos), eq(m.v0 - pos - 1))):
            continue
        try:
            if all(y.facts.proves(neg(S.cell(y, m.h)['Filled'])) for y in rec.backs):
                return m
        except Unclear:
            continue
    return None


def rest_empty(S, st, recs, pos):
    """every cell from pos on is known not to be filled"""
    cx = S.cx
    if st.facts.proves(ge(pos - S.n)):
        return True
    for rec in recs:
        m = cell_walk(S, rec, st, pos)
        if m is None:
            continue
        if rec.entry.facts.proves(eq(m.v0 - pos - 1)) and not rec.entry.facts.proves(neg(S.cell(rec.entry, pos)['Filled'])):
            continue
        if st.facts.proves(ge(m.h - S.n)):
            return True
        if st.facts.proves(eq(m.h - S.n + 1)) and st.facts.proves(neg(S.cell(st, m.h)['Filled'])):
            return True
    return False


def leaving(S, r, st, v, outer, inner, tkey, pos, name):
    """an answer: the entry of the last but one state, made up with the last one"""
    cx = S.cx
    evs = straight(st)
    recs = [e[1] for e in evs if e[0] == 'loop']
    fin = None
    after = max(i for i, e in enumerate(evs) if e[0] == 'loop' and (e[1] in inner or e[1] is outer))
    if not stores(cx, evs[after:]):
        # the last entry of the table, which no round writes and goes on
        tn = {l.name for x in recs for l in x.leaves if l.kind == 'content' and (l.key, tuple(l.path[:-1])) == tkey}
        if any(c in tn and isinstance(p, Poly) and st.facts.proves(eq(p - S.len)) for c, p in list(cx.loads.values())):
            return
        raise Unclear('where an answer comes from')
    for e in reversed(stores(cx, evs[after:])):
        q = e[5][3][0]
        x, grown = entry_of(cx, q), None
        if x is None:
            for rec in recs:
                for l in rec.leaves:
                    if l.kind == 'content' and l.name == content(q):
                        q0 = seq_at(cx, rec.entry, (l.key, tuple(l.path[:-1])))
                        x = entry_of(cx, q0) if q0 and not q0[4] else None
                        grown = rec, (l.key, tuple(l.path[:-1])), q0
        if x is not None:
            cs = list(S.cases(st, x[1]))
            if not cs:
                return          # entries are at none but these places
            for what, s3, mv, last in cs:
                if last and s3.facts.proves(eq(e[3] - S.len)):
                    fin = q, x, grown
        if fin:
            break
    if fin is None:
        raise Unclear('how an arrangement is finished')
    q, x, grown = fin
    s = x[1]
    s2 = None
    for what, s3, mv, last in S.cases(st, s):
        if last:
            s2 = s3
        r.check(last, 'finish', name, '%s: an entry is finished %s' % (what, '' if last else 'too early'))
    if s2 is None:
        return
    ok = rest_empty(S, s2, recs, pos)
    r.check(ok, 'finish', name, 'an arrangement is finished only if no filled cell is left')
    # the entry is made up by the last state for every cell that is left
    base = q if grown is None else grown[2]
    n0 = sym(content(base) + '.len')
    full = s2.facts.proves(eq(q[2] - q[1] - n0 - (S.n - pos))) or s2.facts.proves(ge(pos - S.n)) and s2.facts.proves(eq(q[2] - q[1] - n0))
    r.check(full, 'finish', name, 'the finished entry has one state per cell that is left')
    vals = [w[2] for w in q[4]]
    good = all(isinstance(w, Poly) and s2.facts.proves(eq(w - s - 1)) for w in vals)
    if grown is not None:
        for y in grown[0].backs:
            for e in straight(y):
                if e[0] in ('push', 'store') and (e[1], tuple(e[2])) == grown[1]:
                    w = e[4] if e[0] == 'push' else e[5]
                    good = good and isinstance(w, Poly) and y.facts.proves(eq(w - s - 1))
    r.check(good, 'finish', name, 'what is left of the line is given the last state')
    # the answer: filled where the state is one of a block
    a = v[3][0]
    bl = built(cx, st, a)
    if bl is None:
        raise Unclear('how the answer is made from the states')
    rec, items = bl
    cs = [l for l, d in passes(cx, rec) if d == 1 and rec.entry.facts.proves(eq(l.v0 - q[1]))]
    for y, e in items:
        ok = False
        for l in cs:
            good = is_bool(e[4])
            for f in [eq(l.h - w[0]) for w in q[4]] + [conj([ne(l.h - w[0]) for w in q[4]])]:
                y1 = y.copy()
                y1.assume(f)
                if y1.facts.dead or y1.facts.proves(F):
                    continue
                p, y2 = read(cx, y1, q, l.h)
                if not isinstance(p, Poly):
                    good = False
                    continue
                for f in S.same(y2, 'states', p, S.kind):
                    y2.assume(f)
                k = S.kind(y2, p)
                good = good and y2.facts.proves(conj([imp(e[4], k['Fill']), imp(k['Fill'], e[4])]))
            ok = ok or good
        r.check(ok, 'answer', name, 'a cell is filled in the answer exactly if its state is one of a block')
    r.check(any(st.facts.proves(eq(l.h - q[2])) for l in cs), 'answer', name, 'the answer has one decision per state')


def line(d, g, deep):
    r = Report('C28', 'proof', ENG,
               'Starting from the empty entry in the first state, each round advances every entry by one cell: an entry of state s moves to s '
               '(an empty cell more), s + 1 and, over the leading gap, s + 2 exactly where the cell allows it, with that state added to it; '
               'entries are advanced in ascending order so that an earlier arrival keeps its state; an entry past the last block is '
               'finished exactly if no filled cell is left, with the last state for every cell left, and the answer is filled exactly where the '
               'state is one of a block; without an entry finished the search refuses only after the last cell.', LTRUST)
    S = Search(d)
    if S.run is None:
        r.undecided('line search', 'its arguments are not a list of states and the cells of a line')
        return r
    R, cx = S.run, S.cx
    name = R.fn.short()
    if not R.report(r, panics=False):
        return r
    try:
        r.soft = bool(cx.lossy)
        decide(S, r, name)
    except Unclear as e:
        r.undecided(name, 'not recognised: %s' % e)
    return r


def decide(S, r, name):
    R, cx = S.run, S.cx
    recs = []
    for st, v in R.results:
        for x in all_loops(st):
            if x not in recs:
                recs.append(x)
    inner = [x for x in recs if any(stores(cx, straight(b)) for b in x.backs)]
    outer = [x for x in recs if any(e[0] == 'loop' and e[1] in inner for b in x.backs for e in straight(b))]
    if not inner or len(outer) != 1:
        raise Unclear('the loops over the cells and over the states')
    O = outer[0]
    src, dst = set(), set()
    for x in inner:
        a, b = table(S, x)
        src |= a
        dst |= b
    names = {}
    for x in recs:
        for l in x.leaves:
            if l.kind == 'content':
                names[l.name] = (l.key, tuple(l.path[:-1]))
    skeys = {names.get(c) for c in src}
    if len(skeys) != 1 or len(dst) != 1 or None in skeys:
        raise Unclear('the tables of states')
    skey, tkey = skeys.pop(), dst.pop()
    P = position(S, O)
    if P is None:
        raise Unclear('the position in the line')
    pos = P.h
    # before the first cell
    qs, qt = seq_at(cx, O.entry, skey), seq_at(cx, O.entry, tkey)
    if qs is None:
        raise Unclear('the first table of states')
    ok = qs[3][0] == 'fill' and none_is(cx, qs[3][1]) == T and len(qs[4]) == 1 and some(cx, qs[4][0][2]) and \
        O.entry.facts.proves(eq(qs[4][0][0] - qs[1])) and O.entry.facts.proves(eq(qs[4][0][2][3][0][2] - qs[4][0][2][3][0][1]))
    r.check(ok, 'start', name, 'the search starts with the empty entry in the first state and no other')
    # rounds over the states
    ds = set()
    k = 0
    for x in inner:
        fresh = seq_at(cx, x.entry, tkey)
        for b in x.backs:
            d = round_rules(S, r, x, b, pos, skey, tkey, name)
            if d:
                ds.add(d)
                k += 1
    r.floor('ways to advance a state', k, 4)
    r.note('ways to advance a state', {'%d' % k})
    # between rounds
    for b in O.backs:
        its = [e[1] for e in straight(b) if e[0] == 'loop']
        at = [i for i, x in enumerate(its) if x in inner]
        if len(at) != 1:
            raise Unclear('what a round over the cells consists of')
        x = its[at[0]]
        q0 = seq_at(cx, x.entry, skey)
        # every entry was advanced
        full = False
        for l in x.leaves:
            if l.kind == 'int' and isinstance(l.v0, Poly) and x.entry.facts.proves(eq(l.v0)):
                n = q0[2] - q0[1]
                full = full or b.facts.proves(ge(l.h - n)) or any(none_walk(S, y, b, l.h, n, skey) or none_over(S, y, b, l.h, n, skey) for y in its[at[0] + 1:])
        if not full:
            raise Unclear('whether every state is advanced')
        r.ok('all advanced', name, 'the loop over the states ends after the last one')
        # the table written is the one read next
        q1 = seq_at(cx, b, skey)
        tn = [l.name for l in x.leaves if l.kind == 'content' and (l.key, tuple(l.path[:-1])) == tkey]
        if q1 is None or content(q1) is None:
            raise Unclear('the table of the next cell')
        r.check(content(q1) in tn and not q1[4], 'next cell', name, 'the next cell starts from the states reached with this one')
        # and the other one is empty
        q2 = seq_at(cx, b, tkey)
        if q2 is None:
            raise Unclear('the second table of the next cell')
        emptied = [l.name for y in its[at[0]:] for l in y.leaves if l.kind == 'content' and (l.key, tuple(l.path[:-1])) == skey]
        again = content(q2) in emptied and all(none_is(cx, w[2]) == T for w in q2[4])
        fresh = seq_at(cx, x.entry, tkey)
        made = empty_table(cx, b, q2) or empty_table(cx, x.entry, fresh)
        if not made:
            r.check(not S.left, 'used up', name, 'the entry of a state is taken out when it is advanced')
        r.check(again or made or S.left, 'next cell', name, 'the table that is filled next is empty')
    for x in inner:
        fresh = seq_at(cx, x.entry, tkey)
        if not empty_table(cx, x.entry, fresh):
            first = seq_at(cx, O.entry, tkey)
            r.check(first is not None and empty_table(cx, O.entry, first), 'start', name, 'the table that is filled first is empty')
    # answers
    for st, v in R.results:
        if not (isinstance(v, tuple) and v[0] == 'E'):
            raise Unclear('an answer')
        if some(cx, v):
            leaving(S, r, st, v, O, inner, tkey, pos, name)
            continue
        its = [e[1] for e in straight(st) if e[0] == 'loop']
        if any(x not in inner and x is not O and not any((l.key, tuple(l.path[:-1])) == skey for l in x.leaves) for x in its):
            raise Unclear('a refusal')
        ok = st.facts.proves(ge(pos - S.n))
        r.check(ok, 'refusal', name, 'the search refuses only after the last cell')
        x = [y for y in its if y in inner]
        q0 = seq_at(cx, x[0].entry, skey) if x else None
        full = False
        if x:
            for l in x[0].leaves:
                if l.kind == 'int' and isinstance(l.v0, Poly) and x[0].entry.facts.proves(eq(l.v0)):
                    n = q0[2] - q0[1]
                    full = full or st.facts.proves(ge(l.h - n)) or any(none_walk(S, y, st, l.h, n, skey) or none_over(S, y, st, l.h, n, skey) for y in its)
        if not full:
            raise Unclear('whether every state is tried before a refusal')


def none_over(S, rec, after, start, end, skey):
    """like none_walk, for a loop that ends when the table does"""
    cx = S.cx
    for m, d in passes(cx, rec):
        if d == 1 and rec.entry.facts.proves(eq(m.v0 - start)) and after.facts.proves(ge(m.h - end)):
            q = seq_at(cx, rec.head, skey)
            if q is not None and all(entry_none(cx, y, q, m.h) for y in rec.backs):
                return True
    return False


def entries_placed(S):
    """None, or why it is not shown that tables at the start of a round have entries at the places only, and that these name states after the first"""
    cx = S.cx
    recs = []
    for st in [x for x, _ in S.run.results] + cx.failed:
        for x in all_loops(st):
            if x not in recs:
                recs.append(x)
    if not any(stores(cx, straight(b)) for x in recs for b in x.backs):
        return 'the loops over the cells and over the states were not found'

    def shown(st, f):
        return st.facts.proves(f) or cx.by_cases(st, f)

    def inside(st, p):
        return shown(st, conj([ge(p), ge(S.len - 2 - p)]))

    def state(st, v):
        return isinstance(v, Poly) and shown(st, conj([ge(v - 1), ge(S.len - 1 - v)]))

    def entry(st, q):
        return (q[3][0] == 'gen' or st.facts.proves(eq(q[2] - q[1]))) and all(w[1] == () and state(st, w[2]) for w in q[4]) or \
            all(w[1] == () and state(st, w[2]) for w in q[4]) and st.facts.proves(eq(q[2] - q[1] - len(q[4])))

    for rec in recs:
        for l in rec.leaves:
            if l.kind != 'content':
                continue
            q = seq_at(cx, rec.entry, (l.key, tuple(l.path[:-1])))
            if q is None or q[5] is None:
                return 'a sequence of unknown content'
            t = cx.T[q[5]]
            if t['k'] == 'adt' and t['def'].endswith('option::Option'):
                if q[3][0] != 'gen' and none_is(cx, q[3][1] if q[3][0] == 'fill' else None) != T:
                    return 'the first table of states'
                for w in q[4]:
                    if none_is(cx, w[2]) != T and not (some(cx, w[2]) and inside(rec.entry, w[0]) and entry(rec.entry, w[2][3][0])):
                        return 'the first entries'
            elif t['s'] == 'usize' and not entry(rec.entry, q):
                return 'the first states of an entry'
        for b in rec.backs:
            for e in straight(b):
                if e[0] == 'push' and isinstance(e[4], Poly) and not state(b, e[4]):
                    return 'a state that an entry gets'
                if e[0] == 'store':
                    if isinstance(e[5], Poly) and not state(b, e[5]):
                        return 'a state that an entry gets'
                    if some(cx, e[5]) and not (inside(b, e[3]) and entry(b, e[5][3][0])):
                        return 'where an entry is written'
    return None


def no_panic(d, g, deep):
    r = Report('C29', 'proof', ENG,
               'Every index, addition, unwrap and explicit panic in the search of one line is proven not to fire, given that an entry is at a place before the last state and names states after the first, which is shown for every entry that is written.',
               LTRUST)
    S = Search(d, panics=True)
    if S.run is None:
        r.undecided('line search', 'its arguments are not a list of states and the cells of a line')
        return r
    if not S.run.report(r, panics=False):
        return r
    # what is assumed of the entries holds of the moves that are made
    why = entries_placed(S)
    if why:
        r.undecided(S.run.fn.short(), why)
        return r
    r.ok('entries', S.run.fn.short(), 'entries are written at places before the last state, and get states after the first')
    r.soft = bool(S.cx.lossy)
    for (kind, site, sp), (ok, text) in sorted(S.cx.obl[0].items()):
        r.check(ok, kind, '%s (from %s)' % (site, S.run.fn.short()), text)
    return r
