"""The nonogram solver: what answers and refusals rest on, the line pass, panics."""
from .common import *
from ..report import Report
from .. import models

ENG = 'abstract interpretation of MIR with inferred loop invariants; rules over the calls and stores of every path'
STRUST = TRUST + ['width * height < 2^31']
MAXRULES = 2 ** 27


# ---------------------------------------------------------------------------------------------- functions and hooks
def step(d, name):
    """the solver function of that name: (grid, columns, rows) -> Result"""
    p = program(d)
    fs = [f for f in p.local_fn(name) if f.argc == 3 and all(p.T[f.locals[i + 1]]['k'] == 'ref' for i in range(3))]
    return fs[0] if len(fs) == 1 else None


def is_grid(cx, q, w, h, st):
    return st.facts.proves(eq(q[2] - q[1] - w * h)) and st.facts.proves(ge(w - 1)) and st.facts.proves(ge(h - 1))


def h_step(tag):
    def f(cx, st, c):
        ok = st.decide(('b', cx.fresh(st, tag)))
        a, b, e = c.args
        base, path, lo, hi, q = models.seqof(cx, st, a)
        whole = st.facts.proves(conj([eq(lo - q[1]), eq(hi - q[2])]))
        w, h = cx.lines
        c.oblige(st, conj([eq(hi - lo - w * h), ge(w - 1), ge(h - 1)]), 'grid size', 'the grid has one cell per column and row')
        cx.havoc_reach(st, a, tag)
        q2 = models.seqof(cx, st, a)[4]
        st.event('call', tag, whole, q, q2, ok, b, e)
        i = 0 if ok else 1
        return ('E', c.dty, i, (cx.of_type(cx.T[c.dty]['variants'][i]['fields'][0][1], cx.fresh(st, tag + '.res')),))
    return f


def line_search(d):
    """the function that arranges one line: (states, squares) -> Option<Vec<bool>>"""
    p = program(d)
    fs = {f.name for f in p.fns.values() if f.local and f.has_body and 'closure' not in f.name and p.T[f.locals[0]]['k'] == 'adt'
          and p.T[f.locals[0]]['s'].replace('std::option::', '').replace('std::vec::', '') == 'Option<Vec<bool>>'}
    return fs.pop() if len(fs) == 1 else None


def cells_of(cx, st, it, n, k):
    """index of the cell behind square k of an iterator over references to the grid, or None"""
    if it[0] == 'I' and it[1] in ('copied', 'inspect') or it[0] == 'I' and it[1] == 'map':
        return cells_of(cx, st, it[2][0], n, k) if it[1] != 'map' else None
    if it[0] == 'I' and it[1] == 'rev':
        return cells_of(cx, st, it[2][0], n, n - 1 - k)
    if it[0] == 'I' and it[1] == 'seq':
        r, lo, hi = it[2]
        try:
            q = models.seqof(cx, st, r)[4]
        except Unsupported:
            return None
        v, s = read(cx, st, q, lo + k)
        for _ in range(3):
            if isinstance(v, tuple) and v[0] == 'R' and v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] == 'i' and v[4] is None:
                if v[1] == cx.cells[0] and v[2][:-1] == cx.cells[1]:
                    return v[2][-1][1]
            break
    if it[0] == 'I' and it[1] == 'seqstep':
        r, lo, hi, w = it[2]
        if isinstance(r, tuple) and r[0] == 'R' and (r[1], r[2]) == cx.cells:
            return lo + k * w
    return None


def h_find(cx, st, c):
    """find_left(states, squares): an arrangement of the same length, if there is one"""
    ok = st.decide(('b', cx.fresh(st, 'fits')))
    its = [(x, models.iter_len(cx, st, x)) for x in c.args if isinstance(x, tuple) and x[0] in ('I', 'S')]
    its = [x for x in its if x[1] is not None]
    rest = [x for x in c.args if isinstance(x, tuple) and x[0] == 'R']
    if len(its) != 1 or len(rest) != 1:
        raise Unsupported('the squares of the line are not known')
    it, n = its[0]
    e = cx.T[cx.T[c.dty]['args'][0]]['args'][0]
    q = ('Q', const(0), n, ('gen', cx.fresh(st, 'bools'), e, (), None), (), e)
    k = declare(cx.fresh(st, 'square'), 0, MAXLEN)
    s = st.copy()
    s.assume(ge(n - 1 - k))
    p = cells_of(cx, s, it, n, k)
    sq = states_of(cx, st, rest[0])
    st.event('fit', n, k, p, sq, q, ok)
    return models.some(q, c.dty) if ok else models.none(c.dty)


def states_of(cx, st, r):
    """(index of the machine or None, field path, sequence of machines or of states)"""
    from ..interp import Fork
    try:
        for j, x in enumerate(r[2]):
            if isinstance(x, tuple) and x[0] == 'i':
                v = cx.walk(st.copy(), cx.base_value(st, r[1]), r[2][:j])
                return (x[1], r[2][j + 1:], v) if isinstance(v, tuple) and v[0] == 'Q' else None
        return None, (), models.seqof(cx, st.copy(), r)[4]
    except (Fork, Unsupported, Dead):
        return None


def lines(cx, st, args):
    c, r = args[-2], args[-1]
    cx.lines = c[4], r[4]
    cx.cells = (args[0][1], args[0][2])
    return c[4], r[4]


def run_step(d, name):
    def assume(cx, st, a):
        w, h = lines(cx, st, a)
        return [eq(a[0][4] - w * h), ge(w - 1), ge(h - 1), ge(const(MAXLEN - 1) - w * h)]
    H = {}
    if name == 'right_left':
        f = line_search(d)
        if f:
            H[('fn', f)] = h_find
    else:
        hooks(d, H)
    fn = step(d, name)
    return Run(d, fn.name if fn else name, H, {'push', 'store', 'copy'}, assume)


def hooks(d, H):
    for n, t in (('right_left', 'pass'), ('recursive_backtrack', 'guess')):
        fn = step(d, n)
        if fn is not None:
            H[('fn', fn.name)] = h_step(t)


def run_solve(d):
    H = {}
    hooks(d, H)

    def assume(cx, st, a):
        w, h = lines(cx, st, a)
        return [ge(const(MAXLEN - 1) - w * h)]
    return Run(d, 'solve_nonogram', H, {'push', 'store', 'copy'}, assume)


# ---------------------------------------------------------------------------------------------- C14
def calls(st):
    return [e for e in st.events() if e[0] == 'call']


def same_q(st, a, b):
    """the two sequences have the same content"""
    return a[3] == b[3] and a[4] == b[4] and st.facts.proves(conj([eq(a[1] - b[1]), eq(a[2] - b[2])]))


def rules_of(cx, st, e, R):
    """the call gets the rules of the puzzle, columns first"""
    return same_ref(st, e[6], R.args[-2]) and same_ref(st, e[7], R.args[-1])


def same_ref(st, a, b):
    return a[:3] == b[:3] and st.facts.proves(conj([eq(a[3] - b[3]), eq(a[4] - b[4])])) if a[0] == 'R' and b[0] == 'R' and None not in (a[4], b[4]) else a == b


def square(cx, st, q, p):
    v, s = read(cx, st, q, p)
    return v, s


def named(cx, st, v, name):
    """formula: the square v is called name"""
    if v[0] == 'E':
        return T if cx.T[v[1]]['variants'][v[2]]['name'] == name else F
    if v[0] == 'SE':
        return cx.variant_is(v, variant(cx, v[2], name))
    return None


def aliases(st, p):
    """p and the symbols that equal it"""
    out = [p]
    syms = set()
    for f in st.facts.items():
        if f[0] in ('ge', 'eq'):
            syms |= {x for x in lin.fsyms(f) if not isinstance(x, tuple)}
    for x in sorted(syms, key=str):
        y = sym(x)
        if y != p and st.facts.proves(eq(y - p)):
            out.append(y)
    return out


def any_name(cx, st, q, p, name, want, decided=False):
    """want(cell p of q is called name) holds; decided: the cell is known not to be blank"""
    for x in aliases(st, p):
        v, s = square(cx, st, q, x)
        g = named(cx, s, v, name) if isinstance(v, tuple) else None
        if g is not None and decided:
            s.assume(neg(named(cx, s, v, 'Blank')))
        if g is not None and s.facts.proves(want(g)):
            return True
    return False


def complete_scan(cx, st, q, n):
    """a loop on the path went through all of q and every iteration found a cell that is not blank"""
    for rec in all_loops(st):
        for c in counters(cx, rec):
            if not st.facts.proves(eq(c.v0)) and not st.facts.proves(eq(c.v0 - q[1])):
                continue
            if not st.facts.proves(ge(c.h - (q[2] - q[1]))):
                continue
            good = bool(rec.backs)
            for b in rec.backs:
                v, s = square(cx, b, q, q[1] + c.h)
                g = named(cx, s, v, 'Blank') if isinstance(v, tuple) else None
                good = good and g is not None and s.facts.proves(neg(g))
            if good:
                return True
    return False


def self_checking(R, q0):
    """the guessing function itself makes the pass over all lines before it looks for a blank cell"""
    oks = [(st, calls(st)) for st, v in R.results if v[0] == 'E' and v[2] == 0]
    return bool(oks) and all(cs and cs[0][1] == 'pass' and cs[0][2] and cs[0][5] and same_q(st, cs[0][3], q0) for st, cs in oks)


def guesses(cx, st, q0, R, selfc):
    """the failed and accepted attempts of a path: (kind, {cell: name}, end content)"""
    out = []
    done = []          # grids after a successful pass: (start, after)
    for e in calls(st):
        _, tag, whole, before, after, ok, _, _ = e
        if not whole or not rules_of(cx, st, e, R):
            out.append(('other rules' if whole else 'part', None, None))
            continue
        if tag == 'pass':
            if ok:
                done.append((before, after))
            else:
                out.append(('refused', before, None))
        else:
            start = [before] if selfc else [b for b, a in done if same_q(st, a, before)]
            if not start:
                out.append(('unchecked', before, after))
            else:
                out.append(('accepted' if ok else 'refused', start[-1], after))
    return out


def one_change(cx, st, q0, q):
    """q is q0 with one cell replaced: (cell, name) or None"""
    if q[3] != q0[3] or not st.facts.proves(conj([eq(q[1] - q0[1]), eq(q[2] - q0[2])])):
        return None
    ov = list(q[4])
    if list(q0[4]) and ov[:len(q0[4])] == list(q0[4]):
        ov = ov[len(q0[4]):]
    elif q0[4]:
        return None
    if not ov or any(len(o) != 3 or o[1] != () for o in ov):
        return None
    cell = ov[0][0]
    if not all(st.facts.proves(eq(o[0] - cell)) for o in ov):
        return None
    v = ov[-1][2]
    return (cell, cx.T[v[1]]['variants'][v[2]]['name']) if v[0] == 'E' else None


def answers(d, g, deep):
    r = Report('C14', 'proof', ENG,
               'solve_nonogram: EmptyPuzzle only without columns or rows; the first grid is blank everywhere; an answer is the grid that a pass over all lines accepted and guessing then completed, entry k telling whether cell k is filled; '
               'NoSolution only when a pass or guessing refused, or the numbers of a rule exceed its line. recursive_backtrack: Ok only for a grid without blank cells, unchanged or taken from an accepted attempt; '
               'Err only after the same blank cell was tried both ways and both attempts were refused; every attempt passes all lines before guessing goes on.', STRUST)
    S, B = run_solve(d), run_step(d, 'recursive_backtrack')
    for fn in ('right_left', 'recursive_backtrack'):
        if step(d, fn) is None:
            r.undecided(fn, 'function not found')
            return r
    selfc = not B.error and self_checking(B, models.seqof(B.cx, St(), B.args[0])[4])
    if S.report(r, kinds={'grid size'}):
        solve_rules(r, S, selfc)
    if B.report(r, kinds={'grid size'}):
        guess_rules(r, B)
    return r


def initial_blank(cx, st, q, w, h):
    if not st.facts.proves(eq(q[2] - q[1] - w * h)):
        return False
    i = declare(cx.fresh(st, 'anycell'), 0, MAXLEN)
    s = st.copy()
    s.assume(ge(w * h - 1 - i))
    v, s = square(cx, s, q, q[1] + i)
    return isinstance(v, tuple) and vname(cx, s, v) == 'Blank'


def solve_rules(r, R, selfc=False):
    cx, at = R.cx, R.fn.short()
    w, h = cx.lines
    oks = 0
    for st, v in R.results:
        f = st.facts
        if v[0] != 'E':
            r.undecided(at, 'result of unknown shape')
            continue
        cs = calls(st)
        if v[2] == 1:
            e = v[3][0]
            name = vname(cx, st, e)
            failed = bool(cs) and not cs[-1][5]
            if name == 'EmptyPuzzle':
                r.check(f.proves(disj([eq(w), eq(h)])), 'EmptyPuzzle only for a puzzle without columns or rows', at, 'other puzzles may be called empty')
                continue
            r.check(f.proves(conj([ge(w - 1), ge(h - 1)])), 'a puzzle without columns or rows is called empty', at, 'it is answered with %s' % (name or 'an error'))
            if failed:
                r.check(rules_of(cx, st, cs[-1], R), 'the solver works on the rules given', at, 'columns or rows are not those of the puzzle')
                r.check(chain(r, cx, st, cs, w, h, at, selfc), 'a refusal rests on the blank grid', at, 'the refused grid is not the blank grid after a pass')
                r.check(name in (None, 'NoSolution'), 'a refused puzzle has no solution', at, 'it is answered with %s' % name)
                continue
            t = too_long(cx, st, R, w, h)
            if t is None:
                r.undecided(at, 'the reason of a refusal is not recognised')
            else:
                r.check(t and name == 'NoSolution', 'NoSolution only when the numbers of a rule exceed its line', at, 'refused with %s although the rules may fit' % name)
            continue
        oks += 1
        q = v[3][0]
        r.check(f.proves(conj([ge(w - 1), ge(h - 1)])), 'a puzzle without columns or rows is called empty', at, 'it is answered')
        good = bool(cs) and cs[-1][1] == 'guess' and all(e[5] for e in cs) and all(e[2] and rules_of(cx, st, e, R) for e in cs)
        r.check(good, 'an answer was accepted by a pass and completed by guessing', at, 'Ok after %s' % [(e[1], e[5]) for e in cs])
        if not good:
            continue
        r.check(chain(r, cx, st, cs, w, h, at, selfc), 'the answer grew from the blank grid', at, 'the completed grid is not the blank grid after a pass')
        fin = cs[-1][4]
        ent = entries(cx, st, q)
        if ent is None:
            r.undecided(at, 'how the answer is filled is not recognised')
            continue
        good = True
        for x, k, val in ent:
            good = good and is_bool(val) and any_name(cx, x, fin, fin[1] + k, 'Filled', lambda g: disj([conj([g, val]), conj([neg(g), neg(val)])]), True)
        r.check(good, 'entry k tells whether cell k is filled', at, 'the loop stores %s' % ', '.join(fmt(e)[:60] for _, _, e in ent if is_bool(e)))
        r.check(f.proves(eq(q[2] - q[1] - w * h)), 'one entry per cell', at, 'length %s' % pp(q[2] - q[1]))
    r.floor('answers', oks, 1)


def entries(cx, st, q):
    """[(state, k, value of entry k)] for the iterations of the loop that fills the sequence, entry by entry"""
    b = built(cx, st, q)
    if b is not None:
        rec, pushes = b
        if any(all(x.facts.proves(eq(e[3] - c.h)) for x, e in pushes) for c in counters(cx, rec)):
            return [(x, e[3], e[4]) for x, e in pushes]
        return None
    name = content(q)
    for rec in all_loops(st):
        for l in rec.leaves:
            if l.kind != 'content' or l.name != name:
                continue
            q0 = loops.leaf(cx, rec.entry, rec.entry.mem[l.key], l.path[:-1]) if len(l.path) > 1 else rec.entry.mem.get(l.key)
            if not (isinstance(q0, tuple) and q0[0] == 'Q') or q0[4]:
                return None
            for c in counters(cx, rec):
                if not rec.entry.facts.proves(eq(c.v0 - q0[1])) or not st.facts.proves(ge(c.h - q0[2])):
                    continue
                out = []
                for b in rec.backs:
                    ps = [x for x in b.events() if x[0] in ('push', 'store', 'copy') and x[1] == l.key and x[2] == l.path[:-1]]
                    if any(x[0] != 'store' or x[4] != () or not b.facts.proves(eq(x[3] - c.h)) for x in ps):
                        return None
                    v, s = read(cx, b, q0, c.h)
                    out.append((b, c.h - q0[1], ps[-1][5] if ps else v))
                return out
    return None


def chain(r, cx, st, cs, w, h, at, selfc=False):
    """every call works on the grid the one before left, from the blank grid; guessing only after a pass"""
    if not initial_blank(cx, st, cs[0][3], w, h):
        return False
    seen = False
    for a, b in zip([None] + cs, cs):
        if a is not None and not same_q(st, a[4], b[3]):
            return False
        if b[1] == 'guess' and not seen and not selfc:
            return False
        seen = b[1] == 'pass' or seen
    return True


def too_long(cx, st, R, w, h):
    """the sum of (a part of) a rule is known to exceed its line: True / False, or None if no sum is recognised"""
    found = None
    f = st.facts
    recs = all_loops(st)
    idx = [c.h for rec in recs for c in counters(cx, rec)]
    for rec in recs:
        for l in rec.leaves:
            if l.kind != 'int' or any(isinstance(x, str) and x.startswith('#') for x in l.path):
                continue
            if not (isinstance(l.v0, Poly) and rec.entry.facts.proves(eq(l.v0))):
                continue
            for arg, lim in ((R.args[0], h), (R.args[1], w)):
                for i in idx:
                    for k in [c.h for c in counters(cx, rec)]:
                        good = bool(rec.backs)
                        for b in rec.backs:
                            x = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
                            y = sub_num(cx, b, arg, i, k)
                            good = good and isinstance(x, Poly) and y is not None and b.facts.proves(disj([eq(x - l.h - y), ge(x - 2 ** 64 + 1)]))
                        if not good or (rec.entry.facts.proves(eq(i)) and not counted(cx, recs, i)):
                            continue
                        y = sub_num(cx, st, arg, i, k)
                        if found is None:
                            found = not other_counts(cx, recs, l)
                            found = False if found else None
                        if f.proves(ge(l.h - lim - 1)) or y is not None and f.proves(disj([ge(l.h - lim - 1), ge(l.h + y - 2 ** 64), ge(l.h + y - lim - 1)])):
                            return True
    return found


def other_counts(cx, recs, l):
    """the path also computed other numbers in loops"""
    for rec in recs:
        for x in rec.leaves:
            if x.kind != 'int' or x.name == l.name or any(isinstance(p, str) and p.startswith('#') for p in x.path):
                continue
            vs = [loops.leaf(cx, b, b.mem[x.key], x.path) if x.key in b.mem else None for b in rec.backs]
            ds = [v - x.h if isinstance(v, Poly) else None for v in vs]
            if not all(d is not None and (d.const == 1 or d.const is None and all(str(y).endswith(']') for y in d.syms())) for d in ds):
                return True
    return False


def counted(cx, recs, i):
    return any(c.h == i for rec in recs for c in counters(cx, rec))


def sub_num(cx, st, arg, i, k):
    from .pictures import sub_num as f
    return f(cx, st, arg, i, k)


def guess_rules(r, R):
    cx, at = R.cx, R.fn.short()
    base, path, lo, hi, q0 = models.seqof(cx, St(), R.args[0])
    n = hi - lo
    oks = errs = 0
    selfc = self_checking(R, q0)
    first = q0
    for st, v in R.results:
        if v[0] != 'E':
            r.undecided(at, 'result of unknown shape')
            continue
        gs = guesses(cx, st, q0, R, selfc)
        if selfc:
            cs = calls(st)
            if v[2] == 1 and len(cs) == 1 and cs[0][1] == 'pass' and not cs[0][5] and same_q(st, cs[0][3], first):
                r.ok('refused only after both values of a blank cell were refused', at, 'the pass refused the grid itself')
                continue
            q0 = cs[0][4]
        for kind, _, _ in gs:
            r.check(kind != 'other rules', 'every attempt is judged by the rules given', at, 'columns or rows are not those of the puzzle')
            r.check(kind != 'unchecked', 'guessing goes on only after a pass over all lines', at, 'an attempt is guessed on without a pass')
        fin = models.seqof(cx, st, R.args[0])[4]
        if v[2] == 0:
            oks += 1
            if same_q(st, fin, q0):
                r.check(complete_scan(cx, st, q0, n), 'Ok without guessing only for a grid without blank cells', at, 'Ok is returned although a cell may be blank')
                continue
            acc = [x for x in gs if x[0] == 'accepted' and same_q(st, x[2], fin)]
            r.check(bool(acc), 'Ok only with the grid of an accepted attempt', at, 'the grid returned is that of no accepted attempt')
            for _, start, _ in acc:
                ch = one_change(cx, st, q0, start)
                if ch is None:
                    start_unknown(r, cx, st, start, at)
                else:
                    was_blank(r, cx, st, q0, ch[0], at)
        else:
            errs += 1
            r.check(vname(cx, st, v[3][0]) in ('NoSolution', None), 'a refusal is NoSolution', at, 'refused with %s' % vname(cx, st, v[3][0]))
            ref = [(one_change(cx, st, q0, s), s) for kind, s, _ in gs if kind == 'refused']
            odd = [s for a, s in ref if a is None]
            for s in odd:
                start_unknown(r, cx, st, s, at)
            if odd:
                continue
            ref = [a for a, _ in ref]
            both = [(a, b) for a in ref for b in ref if a[1] == 'Filled' and b[1] == 'Blocked' and st.facts.proves(eq(a[0] - b[0]))]
            r.check(bool(both), 'refused only after both values of a blank cell were refused', at, 'refused after the attempts %s' % sorted({a[1] for a in ref}))
            for a, b in both[:1]:
                was_blank(r, cx, st, q0, a[0], at)
    r.floor('accepting paths', oks, 2)
    r.floor('refusing paths', errs, 1)


def start_unknown(r, cx, st, start, at):
    left = [e for e in calls(st) if e[4][3] == start[3]]
    if left or start[3][0] != 'gen':
        r.bad('an attempt starts from the grid given, with one cell replaced', at, 'it starts from %s' % ('what another attempt left' if left else 'another grid'))
    else:
        r.undecided(at, 'what an attempt starts from is not recognised')


def was_blank(r, cx, st, q0, cell, at):
    r.check(any_name(cx, st, q0, cell, 'Blank', lambda g: g), 'only a blank cell is guessed', at, 'the guessed cell may be decided already')


# ---------------------------------------------------------------------------------------------- C15
def iff(a, b):
    return disj([conj([a, b]), conj([neg(a), neg(b)])])


class Line:
    """the cells handed to the search: column or row c, forwards or backwards"""

    def __init__(self, column, c, reverse, w):
        self.column, self.c, self.reverse, self.w = column, c, reverse, w

    def cell(self, k):
        return self.c + k * self.w if self.column else self.c * self.w + k


def line_of(cx, st, e):
    _, n, k, p, sq, q, ok = e
    w, h = cx.lines
    s = st.copy()
    s.assume(ge(n - 1 - k))
    s.assume(ge(k))
    f = s.facts
    cands = [sym(x) for x in sorted(p.syms(), key=str) if sym(x) not in (k, w, h)] + [const(0)]
    more = []
    for c in cands:
        more += [x for x in aliases(s, c) if x not in cands and x not in more]
    # what is multiplied by the width in an equation about the position
    wide = w.single() if isinstance(w, Poly) else None
    for g in f.items():
        if g[0] == 'eq' and not g[1].syms().isdisjoint(p.syms()):
            for m in g[1].mons():
                if len(m) == 2 and wide in m:
                    x = sym(m[0] if m[1] == wide else m[1])
                    if x not in cands and x not in more:
                        more.append(x)
    for c in cands + more:
        for rev in (False, True):
            kk = n - 1 - k if rev else k
            for column in (True, False):
                l = Line(column, c, rev, w)
                m, lim = (h, w) if column else (w, h)
                if f.proves(conj([eq(p - l.cell(kk)), ge(c), ge(lim - 1 - c), eq(n - m)])):
                    return l
    return None


def fits_in(cx, r, st, at, evs):
    """[(line, event)] of the searches among events"""
    out = []
    for e in evs:
        if e[0] != 'fit':
            continue
        if e[3] is None:
            r.undecided(at, 'the squares of a line are not recognised')
            continue
        l = line_of(cx, st, e)
        r.check(l is not None, 'the squares searched are those of one whole line', at, 'square %s is cell %s of the grid' % (pp(e[2]), pp(e[3])))
        if l is not None:
            out.append((l, e))
    return out


def bit(cx, st, q, p):
    v, s = read(cx, st, q, p)
    return v if is_bool(v) else None


def link(cx, st, q, p):
    """st, knowing that entries of q at positions equal to p are entry p"""
    v = bit(cx, st, q, p)
    s = st.copy()
    if v is None:
        return s
    seen = set()
    for f in st.facts.items():
        if f[0] in ('ge', 'eq'):
            seen |= {x for x in lin.fsyms(f) if not isinstance(x, tuple)}
    for x in sorted(seen, key=str):
        for y in (sym(x), sym(x) - 1):
            if y != p and st.facts.proves(eq(y - p)):
                w = bit(cx, st, q, y)
                if w is not None and w != v:
                    s.assume(iff(v, w))
    return s


def change_counters(cx, rec, q, p):
    """[(leaf, kind)]: integers that count the changes (all, up, down) of entry p of q, up to and including this one"""
    out = []
    linked = [(b, bit(cx, b, q, p), link(cx, b, q, p)) for b in rec.backs]
    for l in rec.leaves:
        if l.kind != 'int' or any(isinstance(x, str) and x.startswith('#') for x in l.path) or not isinstance(l.v0, Poly):
            continue
        for s in rec.leaves:
            if s.kind != 'bool' or s.v0 != F:
                continue
            for kind in ('all', 'up', 'down'):
                good = bool(rec.backs)
                for b, x, bl in linked:
                    v = loops.leaf(cx, b, b.mem[l.key], l.path)
                    t = loops.leaf(cx, b, b.mem[s.key], s.path)
                    if x is None or not isinstance(v, Poly) or not is_bool(t):
                        good = False
                        break
                    old = ('b', s.name)
                    if s.h is not None and is_bool(s.h):
                        old = s.h
                    ch = {'all': neg(iff(x, old)), 'up': conj([x, neg(old)]), 'down': conj([neg(x), old])}[kind]
                    if not (bl.facts.proves(iff(t, x)) and bl.facts.proves(disj([conj([ch, eq(v - l.h - 1)]), conj([neg(ch), eq(v - l.h)])]))):
                        good = False
                        break
                if good:
                    out.append((l, kind))
    return out


def gated(cx, rec):
    """integers of the loop that some iterations increase by one, as far as their type goes, and others leave"""
    out = []
    for l in rec.leaves:
        if l.kind != 'int' or any(isinstance(x, str) and x.startswith('#') for x in l.path):
            continue
        ds = set()
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path)
            k = (v - l.h).const if isinstance(v, Poly) else None
            if k is None and isinstance(v, Poly) and (v.single() or '').startswith('wrap(%r;' % (l.h + 1)):
                k = 1           # not beyond the end of its type, which the blocks of a line are not known to stay below
            ds.add(k)
        if ds == {0, 1}:
            out.append(l)
    return out


def is_store(cx, e):
    return e[0] in ('store', 'copy', 'push') and (e[1], e[2]) == cx.cells


def flags(cx, rec, dirty):
    """boolean leaves that never fall back to false and are true after every iteration that changed the grid"""
    out = []
    for l in rec.leaves:
        if l.kind != 'bool' or not is_bool(l.h):
            continue
        good = True
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path)
            if not is_bool(v):
                good = False
                break
            s = b.copy()
            need = [imp(l.h, v)]
            for e in b.events():
                if is_store(cx, e):
                    need.append(v)
                elif e[0] == 'loop' and id(e[1]) in dirty:
                    fl = dirty[id(e[1])]
                    need += [imp(x.h, v) for x in fl] if fl else [v]
                    for x in fl:
                        s.assume(imp(x.v0, x.h))
            if not s.facts.proves(conj(need)):
                good = False
                break
        if good:
            out.append(l)
    return out


def line_pass(d, g, deep):
    r = Report('C15', 'proof', ENG,
               'right_left: every search gets the cells of one whole column or row, from one end or the other, and the states built from the rule of that line in the same direction; '
               'a cell is written only when it was blank, with the value that both arrangements of its line have there, in blocks of the same number; '
               'Ok only after a pass that searched every column and every row in both directions, all of them successfully, and changed nothing; Err only after a search that found no arrangement.',
               STRUST + ['find_left returns an arrangement of the line as long as the line, the leftmost one, or None if there is none'])
    R = run_step(d, 'right_left')
    if step(d, 'right_left') is None or line_search(d) is None:
        r.undecided('right_left', 'function not found')
        return r
    if not R.report(r, panics=False):
        return r
    cx, at = R.cx, R.fn.short()
    w, h = cx.lines
    segs = segments(R.results)
    parent = {}
    fits = {}
    for kind, rec, st, ev in segs:
        fits[id(st)] = fits_in(cx, r, st, at, ev)
        for l, e in fits[id(st)]:
            machine_rule(cx, r, R, st, l, e, at)
    r.floor('searches', sum(len(x) for x in fits.values()), 4)
    # what is written
    nst = 0
    for kind, rec, st, ev in segs:
        for e in ev:
            if is_store(cx, e):
                nst += 1
                written(cx, r, rec, st, e, at)
    r.floor('writes to cells', nst, 2)
    # the end
    dirty = {}
    recs = []
    seen = set()

    def order(st):
        for e in st.events():
            if e[0] == 'loop' and id(e[1]) not in seen:
                seen.add(id(e[1]))
                for b in e[1].backs:
                    order(b)
                recs.append(e[1])
    for st, v in R.results:
        order(st)
    for rec in recs:
        if any(is_store(cx, e) or e[0] == 'loop' and id(e[1]) in dirty for b in rec.backs for e in b.events()):
            dirty[id(rec)] = flags(cx, rec, dirty)
    progress(cx, r, recs, dirty, at)
    oks = 0
    for rec in recs:
        for b in rec.backs:
            r.check(all(e[6] for e in b.events() if e[0] == 'fit'), 'a line without an arrangement is refused', at, 'the pass goes on after a search that failed')
    for st, v in R.results:
        if v[0] != 'E':
            r.undecided(at, 'result of unknown shape')
            continue
        fs = [e for e in st.events() if e[0] == 'fit']
        if v[2] == 1:
            r.check(any(not e[6] for e in fs), 'Err only after a search that found no arrangement', at, 'refused although every line has an arrangement')
            r.check(vname(cx, st, v[3][0]) in ('NoSolution', None), 'a refusal is NoSolution', at, 'refused with %s' % vname(cx, st, v[3][0]))
            continue
        oks += 1
        r.check(all(e[6] for e in fs), 'a line without an arrangement is refused', at, 'Ok is returned after a search that failed')
        final_pass(cx, r, st, dirty, fits, at)
    r.floor('accepting paths', oks, 1)
    return r


def progress(cx, r, recs, dirty, at):
    """a round over the lines is repeated only if it decided a cell: the pass ends"""
    honest = {}
    sure = {}
    for rec in recs:
        if id(rec) not in dirty:
            continue
        honest[id(rec)], sure[id(rec)] = [], True
        for x in dirty[id(rec)]:
            good = True
            for b in rec.backs:
                if any(is_store(cx, e) for e in b.events()):
                    continue
                t = b.copy()
                t.assume(conj([loops.leaf(cx, b, b.mem[x.key], x.path), neg(x.h)]))
                for e in b.events():
                    if e[0] == 'loop' and id(e[1]) in dirty:
                        for y in honest[id(e[1])]:
                            t.assume(imp(y.h, y.v0))
                        if not honest[id(e[1])] and not sure[id(e[1])]:
                            sure[id(rec)] = False
                good = good and (t.facts.dead or t.facts.proves(F))
            if good:
                honest[id(rec)].append(x)
        if not dirty[id(rec)]:
            sure[id(rec)] = False
    n = 0
    for rec in recs:
        if id(rec) not in dirty or counters(cx, rec) or any(l.kind == 'int' for l in rec.leaves):
            continue
        # flags every round starts by testing: their next values decide whether there is another one
        tested = [(x, v) for x in rec.leaves if x.kind == 'bool' and is_bool(x.h) for v in (x.h, neg(x.h)) if rec.backs and all(b.facts.proves(v) for b in rec.backs)]
        for b in rec.backs:
            n += 1
            if any(is_store(cx, e) for e in b.events()):
                r.ok('another round only after a cell was decided', at)
                continue
            t = b.copy()
            known = True
            for x, v in tested:
                now = loops.leaf(cx, b, b.mem[x.key], x.path)
                t.assume(now if v is x.h else neg(now))
            for e in b.events():
                if e[0] == 'loop' and id(e[1]) in dirty:
                    known = known and (bool(honest[id(e[1])]) or sure[id(e[1])])
                    for y in honest[id(e[1])]:
                        t.assume(imp(y.h, y.v0))
            if t.facts.dead or t.facts.proves(F):
                r.ok('another round only after a cell was decided', at)
            elif known:
                r.bad('another round only after a cell was decided', at, 'the lines may be searched again although no cell was decided')
            else:
                r.undecided(at, 'why another round is made is not recognised')
    r.note('rounds that are repeated', {'%d ways' % n})


def final_pass(cx, r, st, dirty, fits, at):
    w, h = cx.lines
    s = st.copy()
    evs = st.events()
    own = [e[1] for e in evs if e[0] == 'loop']
    # the loops of the last pass: those after the last loop that contains searches of both kinds
    cover = {True: [], False: []}
    outer = None
    for i, rec in enumerate(own):
        kinds = {l.column for b in rec.backs for l in deep_lines(cx, b, fits)}
        direct = all(any(True for _ in fits.get(id(b), [])) for b in rec.backs) and bool(rec.backs)
        if kinds and not direct:
            outer = i
    last = own[outer + 1:] if outer is not None else own
    if outer is not None and not any(deep_lines(cx, b, fits) for rec in last for b in rec.backs):
        rec = own[outer]
        for x in rec.leaves:
            if x.kind != 'bool' or not is_bool(x.h) or not is_bool(x.v0):
                continue
            for out in (neg(x.h), x.h):
                if st.facts.proves(out) and rec.entry.facts.proves(neg(x.v0) if out is x.h else x.v0):
                    # the loop is left because its last iteration set this flag
                    for b in rec.backs:
                        v = loops.leaf(cx, b, b.mem[x.key], x.path)
                        t = b.copy()
                        if not is_bool(v):
                            continue
                        t.assume(v if out is x.h else neg(v))
                        if not t.facts.proves(F):
                            final_pass(cx, r, t, dirty, fits, at)
                    return
    for rec in last:
        for c in counters(cx, rec):
            for column, lim in ((True, w), (False, h)):
                if not (st.facts.proves(ge(c.h - lim)) and rec.entry.facts.proves(eq(c.v0))):
                    continue
                good = bool(rec.backs)
                for b in rec.backs:
                    ls = [l for l, e in fits.get(id(b), []) if e[6] and l.column == column and b.facts.proves(eq(l.c - c.h))]
                    good = good and any(l.reverse for l in ls) and any(not l.reverse for l in ls)
                if good:
                    cover[column].append(rec)
    for column in (True, False):
        name = 'column' if column else 'row'
        r.check(bool(cover[column]), 'Ok only after a pass over every %s in both directions' % name, at, 'a %s may be left out of the last pass' % name)
    for rec in last:
        if id(rec) not in dirty:
            continue
        if not dirty[id(rec)]:
            steps = {c.name for c in counters(cx, rec)}
            if any(l.kind == 'bool' for l in rec.leaves) or all(l.name in steps or l.kind == 'content' and (l.key, l.path[:-1]) == cx.cells for l in rec.leaves):
                r.bad('changes of the grid are noticed', at, 'no flag of the loop %s is true after every change of the grid' % rec.fn.short())
            else:
                r.undecided(at, 'how changes of the grid are noticed is not recognised')
            return
        for x in dirty[id(rec)]:
            s.assume(imp(x.v0, x.h))
    for rec in last:
        if id(rec) in dirty:
            r.check(any(s.facts.proves(neg(x.h)) for x in dirty[id(rec)]), 'Ok only after a pass that changed nothing', at, 'Ok may be returned right after a change')


def deep_lines(cx, st, fits):
    out = [l for l, e in fits.get(id(st), [])]
    for e in st.events():
        if e[0] == 'loop':
            for b in e[1].backs:
                out += deep_lines(cx, b, fits)
    return out


def written(cx, r, rec, st, e, at):
    if e[0] != 'store' or e[4] != () or rec is None:
        r.undecided(at, 'a change of the grid is not recognised')
        return
    p, v, before = e[3], e[5], e[6]
    r.check(any_name(cx, st, before, p, 'Blank', lambda g: g), 'only blank cells are written', at, 'cell %s may be decided already' % pp(p))
    ls = [(l, x) for l, x in fits_of(cx, rec) if x[6]]
    name = vname(cx, st, v) if isinstance(v, tuple) else None
    if not ls or name is None:
        r.undecided(at, 'what is written is not recognised')
        return
    r.check(name in ('Filled', 'Blocked'), 'a cell is decided', at, 'it is written with %s' % name)
    ks = [c for c in counters(cx, rec) if rec.entry.facts.proves(eq(c.v0))]
    found = False
    for lf, ef in ls:
        for lr, er in ls:
            if lf.reverse or not lr.reverse or lf.column != lr.column or not st.facts.proves(eq(lf.c - lr.c)):
                continue
            for k in ks:
                if not st.facts.proves(eq(lf.cell(k.h) - p)):
                    continue
                found = True
                a, b = bit(cx, st, ef[5], k.h), bit(cx, st, er[5], er[1] - 1 - k.h)
                sl = link(cx, link(cx, st, ef[5], k.h), er[5], er[1] - 1 - k.h)
                r.check(a is not None and b is not None and sl.facts.proves(conj([a, b] if name == 'Filled' else [neg(a), neg(b)])),
                        'the value written is that of both arrangements', at, 'written %s although the arrangements may differ' % name)
                ca = change_counters(cx, rec, ef[5], k.h)
                cb = change_counters(cx, rec, er[5], er[1] - 1 - k.h)
                pairs = [(x, y) for x, i in ca for y, j in cb if i == j and st.facts.proves(eq(x.v0 - y.v0))]
                if not pairs:
                    if len(gated(cx, rec)) >= 2:
                        r.bad('the blocks of both arrangements are counted', at, 'the numbers compared do not count the blocks of both arrangements up to the cell')
                    else:
                        r.undecided(at, 'how blocks are numbered is not recognised')
                    continue
                r.check(any(st.facts.proves(eq(loops.leaf(cx, st, st.mem[x.key], x.path) - loops.leaf(cx, st, st.mem[y.key], y.path))) for x, y in pairs),
                        'a cell is written only if it lies in the same block of both arrangements', at, 'the blocks may differ')
    if not found:
        r.bad('a cell is written from the arrangements of its own line', at, 'cell %s is not the one the arrangements are read at' % pp(p))


_fits = {}


def fits_of(cx, rec):
    """the searches made before the loop, in the same iteration of the loop around it"""
    if id(rec) not in _fits:
        out = []
        for e in rec.entry.events():
            if e[0] == 'fit' and e[3] is not None:
                l = line_of(cx, rec.entry, e)
                if l is not None:
                    out.append((l, e))
        _fits[id(rec)] = out
    return _fits[id(rec)]


# the states of a rule
def machine_rule(cx, r, R, st, l, e, at):
    """the states searched with are those of the rule of the line, in the direction of the search"""
    if e[4] is None:
        r.undecided(at, 'the states of a line are not recognised')
        return
    m, path, q = e[4]
    arg = R.args[1] if l.column else R.args[2]
    other = R.args[2] if l.column else R.args[1]
    if m is None:
        got = states_rule(cx, st, q, R, None)
        hold, index = st, l.c
    else:
        pool = cx.pool = getattr(cx, 'pool', None) or [x for s, _ in R.results for x in all_loops(s)]
        b = built(cx, pool, q)
        if b is None or len(b[1]) != 1:
            r.undecided(at, 'how the machines are built is not recognised')
            return
        rec, [(hold, ev)] = b
        index = ev[3]
        v = ev[4]
        for x in path:
            v = v[2][x] if isinstance(v, tuple) and v[0] == 'S' and isinstance(x, int) else None
        if not (isinstance(v, tuple) and v[0] == 'Q'):
            r.undecided(at, 'how the machines are built is not recognised')
            return
        r.check(st.facts.proves(eq(m - l.c)), 'a line is searched with its own rule', at, 'line %s is searched with machine %s' % (pp(l.c), pp(m)))
        got = states_rule(cx, hold, v, R, index)
    if isinstance(got, str):
        r.undecided(at, got)
        return
    ok, text = got[0], got[1]
    r.check(ok, 'the states are those of a rule', at, text)
    if not ok:
        return
    a, i, rev = got[2:]
    r.check(a == (1 if l.column else 2), 'a line is searched with its own rule', at, 'a %s is searched with the rule of a %s' % (('column', 'row') if l.column else ('row', 'column')))
    good = hold.facts.proves(eq(i - index)) or any(hold.facts.proves(eq(x - index)) for x in aliases(hold, i))
    r.check(good, 'a line is searched with its own rule', at, 'line %s is searched with rule %s' % (pp(index), pp(i)))
    r.check(rev == l.reverse, 'the states are read in the direction of the search', at, 'a search from the %s end uses the states of the other direction' % ('far' if l.reverse else 'near'))


def node_name(cx, v):
    return cx.T[v[1]]['variants'][v[2]]['name'] if isinstance(v, tuple) and v[0] == 'E' else None


_memo = {}


def states_rule(cx, st, q, R, index):
    """(holds, text, argument, rule, reversed) of the states in q, or what is not recognised"""
    key = (id(R), content(q), len(q[4]))
    if key not in _memo:
        _memo[key] = states_rule_(cx, st, q, R)
    return _memo[key]


def states_rule_(cx, st, q, R):
    name = content(q)
    for e in st.events():
        if e[0] != 'loop':
            continue
        rec = e[1]
        for l in rec.leaves:
            if l.kind == 'content' and l.name == name:
                return states_loop(cx, st, q, rec, l, R)
    return 'how the states of a rule are built is not recognised'


def states_loop(cx, st, q, rec, leaf, R):
    sk = (leaf.key, leaf.path[:-1])
    q0 = loops.leaf(cx, rec.entry, rec.entry.mem[leaf.key], leaf.path[:-1]) if len(leaf.path) > 1 else rec.entry.mem.get(leaf.key)
    if not (isinstance(q0, tuple) and q0[0] == 'Q' and q0[3][0] == 'arr'):
        return 'what the states of a rule start with is not recognised'
    first = []
    for i in range(8):
        if rec.entry.facts.proves(ge(q0[2] - q0[1] - i - 1)):
            first.append(node_name(cx, read(cx, rec.entry, q0, q0[1] + i)[0]))
    if None in first:
        return 'what the states of a rule start with is not recognised'
    if first != ['Start', 'End']:
        return False, 'the states of a rule start with %s' % first
    # the last state is turned into End
    if len(q[4]) != 1 or q[4][0][1] != () or not st.facts.proves(eq(q[4][0][0] - q[2] + 1)) or node_name(cx, q[4][0][2]) != 'End':
        return False, 'the last state of a rule is not turned into End'
    ints = [l for l in rec.leaves if l.kind == 'int' and not any(isinstance(x, str) and x.startswith('#') for x in l.path)]
    idx = index_candidates(st, rec)
    best = None
    for a in (1, 2):
        for i in idx:
            x = sub_seq(cx, rec.entry, R.args[a], i)
            if x is None:
                continue
            n = x[1][2] - x[1][1]
            for l in ints:
                for rev in (False, True):
                    if not isinstance(l.v0, Poly) or not rec.entry.facts.proves(eq(l.v0 - (n if rev else const(0)))):
                        continue
                    if rev and rec.entry.facts.proves(eq(n)):
                        continue
                    t = walk_rule(cx, st, rec, l, rev, R.args[a], i, sk, n)
                    if t is None:
                        return True, '', a, i, rev
                    if best is None or len(t) > 0 and best[0] > t[1]:
                        best = (t[1], t[0])
    if best is None:
        return 'how the numbers of a rule are visited is not recognised'
    return (False, best[1]) if best[0] < 9 else best[1]


def sub_seq(cx, st, arg, i):
    from .pictures import sub_seq as f
    return f(cx, st, arg, i)


def index_candidates(st, rec):
    out = []
    for f in list(rec.entry.facts.items()) + list(st.facts.items()):
        for x in lin.fsyms(f) if f[0] in ('ge', 'eq') else ():
            if not isinstance(x, tuple) and sym(x) not in out:
                out.append(sym(x))
    return out


def walk_rule(cx, st, rec, l, rev, arg, i, sk, n):
    """None if the loop visits the numbers of rule i one after the other and adds the states of each; (text, grade)"""
    def value(b, x):
        v = sub_num(cx, b, arg, i, x)
        return v
    if not st.facts.proves(ge(-l.h) if rev else ge(l.h - n)) and not any(
            e[0] == 'loop' and skipped(cx, st, e[1], l, rev, None, value, n) for e in st.events()):
        passed = any(e[0] == 'loop' and skipped(cx, st, e[1], l, rev, None, value, n, False) for e in st.events())
        return ('numbers of the rule are skipped that may not be zero', 3) if passed else ('not every number of the rule is visited', 9)
    for b in rec.backs:
        new = loops.leaf(cx, b, b.mem[l.key], l.path)
        if not isinstance(new, Poly):
            return 'the position in the rule is lost', 9
        x = new if rev else new - 1
        evs = [e for e in b.events() if e[0] == 'loop' or e[0] in ('push', 'store', 'copy') and (e[1], e[2]) == sk]
        skips = [e[1] for e in evs if e[0] == 'loop' and not fills(e[1], sk)]
        rest = [e for e in evs if not (e[0] == 'loop' and not fills(e[1], sk))]
        at = l.h if not rev else l.h - 1
        if not b.facts.proves(eq(x - at)):
            t = [s for s in skips if skipped(cx, b, s, l, rev, x, value)]
            if not t:
                return 'numbers of the rule are skipped that may not be zero', 3
        v = value(b, x)
        if v is None:
            return 'the number at the position is not known', 9
        if not rest:
            if not b.facts.proves(eq(v)):
                return 'a number of the rule that may not be zero adds no states', 2
            continue
        if len(rest) != 2 or rest[0][0] != 'loop' or rest[1][0] != 'push':
            return 'the states added for a number are not recognised', 9
        if not b.facts.proves(ge(v - 1)):
            return 'a zero adds states', 1
        fl = rest[0][1]
        if node_name(cx, rest[1][4]) != 'Space':
            return 'the states of a number end with %s' % node_name(cx, rest[1][4]), 1
        for y in fl.backs:
            ps = [e for e in y.events() if e[0] in ('push', 'store', 'copy') and (e[1], e[2]) == sk]
            if len(ps) != 1 or ps[0][0] != 'push' or node_name(cx, ps[0][4]) != 'Fill':
                return 'a number adds other states than Fill', 1
        if not any(b.facts.proves(eq(n - v)) for n in rounds(cx, fl)):
            return 'a number adds another count of Fill states than the number', 1
    return None


def fills(rec, sk):
    return any(e[0] in ('push', 'store', 'copy') and (e[1], e[2]) == sk or e[0] == 'loop' and fills(e[1], sk) for b in rec.backs for e in b.events())


def skipped(cx, b, s, l, rev, x, value, n=None, zeros=True):
    """the loop s moves on from position l.h to x (to the end, if x is None) over zeros only"""
    for m in s.leaves:
        if m.kind != 'int' or not isinstance(m.v0, Poly) or not s.entry.facts.proves(eq(m.v0 - l.h)):
            continue
        if not b.facts.proves(eq((m.h - 1 if rev else m.h) - x) if x is not None else ge(-m.h) if rev else ge(m.h - n)):
            continue
        good = True
        for y in s.backs:
            new = loops.leaf(cx, y, y.mem[m.key], m.path)
            v = value(y, m.h - 1 if rev else m.h)
            good = good and isinstance(new, Poly) and v is not None and y.facts.proves(conj([eq(new - m.h + (1 if rev else -1))] + ([eq(v)] if zeros else [])))
        if good:
            return True
    return False


# ---------------------------------------------------------------------------------------------- C18
def no_panic(d, g, deep):
    r = Report('C18', 'proof', ENG,
               'Every index, slice, division, subtraction, addition, multiplication, unwrap/expect, assertion and explicit panic reachable from parse_nonogram_rules, solve_nonogram, print_nonogram '
               'and print_nonogram_solution, outside the search for one line (find_left), is proven not to fire. The steps of the solver get a grid with one cell per column and row, of which there is at least one.',
               STRUST + ['rules given to print_nonogram have fewer than 2^27 numbers', 'find_left does not panic and returns an arrangement as long as its line'])
    Run(d, 'parse_nonogram_rules', opts={'ret_cap': 200}).report(r)
    Run(d, 'print_nonogram', opts={'maxlen': MAXRULES}, args=lambda cx, fn, st: [cx.of_type(fn.locals[i + 1], 'p%d' % i) for i in range(fn.argc)]).report(r)
    Run(d, 'print_nonogram_solution').report(r)
    for fn in ('right_left', 'recursive_backtrack'):
        if step(d, fn) is None:
            r.undecided(fn, 'function not found')
            return r
    for R in (run_solve(d), run_step(d, 'recursive_backtrack'), run_step(d, 'right_left')):
        if R.fn is step(d, 'right_left') and line_search(d) is None:
            r.undecided('right_left', 'the search for one line was not found')
            continue
        R.report(r)
    return r
