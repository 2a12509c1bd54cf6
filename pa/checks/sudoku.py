"""Sudoku: parsing, the exact-cover instance, clues, panics."""
from .common import *
from ..report import Report
from ..models import into_iter, iter_next, ref
from .. import models

ENG = 'abstract interpretation of MIR with inferred loop invariants'


# ---------------------------------------------------------------------------------------------- parsing
def parsing(d, g, deep):
    r = Report('C03', 'proof', ENG + '; every path classified by what it returns',
               'Every path of parse_sudoku: Ok only when all characters are decimal digits and there are 81, entry k being the value of character k; '
               'InvalidInteger only with a character that is no digit and comes after digits only; InvalidSize only with the number of characters, when all are digits and they are not 81.', TRUST)
    R = Run(d, 'parse_sudoku', events={'push', 'store'})
    if not R.report(r, panics=False):
        return r
    cx = R.cx
    s = R.args[0]
    n = models.nchars(cx, s)
    oks = errs = 0
    for st, v in R.results:
        f = st.facts
        if v[0] != 'E':
            r.undecided(R.fn.short(), 'result of unknown shape')
            continue
        loops_ = [e[1] for e in st.events() if e[0] == 'loop']
        scans = [(rec, c) for rec in loops_ for c in counters(cx, rec) if digits_only(cx, rec, c, s)]
        if v[2] == 0:
            oks += 1
            q = v[3][0]
            r.check(f.proves(eq(n - 81)), 'Ok only for 81 characters', R.fn.short(), 'Ok is returned on a path where the text may not have 81 characters')
            done = [c for rec, c in scans if f.proves(ge(c.h - n))]
            r.check(bool(done), 'Ok only when every character is a digit', R.fn.short(), 'Ok is returned on a path that has not examined every character')
            b = built(cx, st, q)
            if b is None:
                r.undecided(R.fn.short(), 'how the result is filled is not recognised')
                continue
            rec, pushes = b
            good = False
            for c in counters(cx, rec):
                if all(x.facts.proves(eq(e[3] - c.h)) and isinstance(e[4], Poly) and
                       x.facts.proves(eq(e[4] - models.char_at(cx, s, c.h) + 48)) for x, e in pushes):
                    good = True
            r.check(good, 'entry k is the value of character k', R.fn.short(), 'the loop stores %s' % ', '.join(pp(e[4]) if isinstance(e[4], Poly) else str(e[4])[:60] for _, e in pushes))
            r.check(q[0] == 'Q' and f.proves(eq(q[2] - q[1] - n)), 'one entry per character', R.fn.short(), 'length %s' % pp(q[2] - q[1]))
        else:
            errs += 1
            e = v[3][0]
            name = vname(cx, st, e)
            if name == 'InvalidInteger':
                x = e[3][0]
                ok = False
                for rec, c in scans:
                    ch = models.char_at(cx, s, c.h)
                    ok = ok or (f.proves(eq(x - ch)) and f.proves(neg(conj([ge(ch - 48), ge(57 - ch)]))) and f.proves(ge(n - 1 - c.h)))
                r.check(ok, 'InvalidInteger names the first character that is no digit', R.fn.short(), 'reports %s' % pp(x))
            elif name == 'InvalidSize':
                x = e[3][0]
                done = [c for rec, c in scans if f.proves(ge(c.h - n))]
                r.check(bool(done), 'InvalidSize only for digits', R.fn.short(), 'InvalidSize is returned although a character may be no digit')
                r.check(f.proves(eq(x - n)) and f.proves(ne(n - 81)), 'InvalidSize reports the number of characters', R.fn.short(), 'reports %s' % pp(x))
            else:
                r.bad('error kind', R.fn.short(), 'returns %s' % name)
    if not oks or not errs:
        r.undecided(R.fn.short(), 'no Ok or no Err path')
    return r


def digits_only(cx, rec, c, s):
    """every iteration that goes round has seen a digit at the counter"""
    ch = models.char_at(cx, s, c.h)
    return c.v0 == const(0) and rec.backs and all(b.facts.proves(ge(ch - 48)) and b.facts.proves(ge(57 - ch)) for b in rec.backs)


# ---------------------------------------------------------------------------------------------- solving
def drive(cx, st, v, c):
    """the values of an iterator of iterators of references to constants, or None"""
    def one(s, rf):
        res = [x for x in iter_next(cx, s, rf, c.fr.d + 1, c) if not x[0].facts.dead]
        more = [x for x in res if x[1][0] == 'E' and x[1][2] == 1]
        if len(res) > 1 and more:
            # it may end here: follow the way on which it does not
            cx.drive.append((s, [x[0] for x in res if x[1][0] == 'E' and x[1][2] == 0]))
            res = more
        if len(res) != 1 or res[0][1][0] != 'E':
            return None, None
        s, o = res[0]
        return s, (o[3][0] if o[2] == 1 else None)
    slot = ('T', 'dlx')
    table = []
    st.mem[slot] = into_iter(cx, st, v)
    while len(table) < 2000:
        st, x = one(st, ref(slot, ()))
        if st is None:
            return None
        if x is None:
            return table
        row = []
        inner = ('T', 'dlxrow')
        st.mem[inner] = into_iter(cx, st, x)
        while True:
            st, y = one(st, ref(inner, ()))
            if st is None or len(row) > 2000:
                return None
            if y is None:
                break
            y = models.deref(cx, st, y)
            if not isinstance(y, Poly) or y.const is None:
                return None
            row.append(y.const)
        table.append(row)
    return None


def depends(cx, st, lost):
    """whether the argument of the function decides that st goes on to lost"""
    old = set(map(repr, st.facts.items()))
    seen = list(st.events())
    facts = [f for f in lost.facts.items() if repr(f) not in old]
    for e in lost.events()[len(seen):]:
        if e[0] == 'loop':
            for b in e[1].backs:
                facts += [f for f in b.facts.items() if repr(f) not in old]
    return any('a0' in repr(f) for f in facts)


def h_new(cx, st, c):
    cx.drive = []
    try:
        t = drive(cx, st.copy(), c.args[0], c)
    except Exception as e:
        if type(e).__name__ not in ('Unsupported', 'Fork', 'Dead'):
            raise
        t = None
    lost = [depends(cx, s, x) for s, xs in cx.drive for x in xs]
    cx.drive = None
    cx.emit(st, 'dlx_new', None if t is None else tuple(map(tuple, t)), tuple(lost))
    return ('O', ('dlx',))


def h_add(cx, st, c):
    res = ('SE', cx.fresh(st, 'imposed'), c.dty)
    cx.emit(st, 'dlx_add', models.poly(c.args[1]), res)
    return res


def h_solve(cx, st, c):
    t = cx.T[c.dty]
    n = cx.fresh(st, 'solved')
    b = ('b', n)
    if st.decide(b):
        vt = t['variants'][0]['fields'][0][1]
        q = cx.of_type(vt, n + '.rows', st)
        cx.emit(st, 'dlx_solve', q)
        return ('E', c.dty, 0, (q,))
    cx.emit(st, 'dlx_solve', None)
    return ('E', c.dty, 1, (cx.of_type(t['variants'][1]['fields'][0][1], n + '.err', st),))


_s = {}


def run(d):
    if 'r' not in _s:
        hooks = {}
        for k in program(d).fns.values():
            s = k.short()
            for m, h in (('DancingMatrix::new', h_new), ('DancingMatrix::add_solution', h_add), ('DancingMatrix::solve', h_solve)):
                if s.endswith(m):
                    hooks[('fn', k.name)] = h
        _s['r'] = Run(d, 'solve_sudoku', hooks, {'dlx_new', 'dlx_add', 'dlx_solve', 'push', 'store', 'sort'})
    return _s['r']


def expected_table():
    t = []
    for a in range(9):
        for b in range(9):
            t.append(frozenset((a * 9 + b) * 9 + v for v in range(9)))                # cell
            t.append(frozenset((a * 9 + c) * 9 + b for c in range(9)))                # row a, digit b
            t.append(frozenset((c * 9 + a) * 9 + b for c in range(9)))                # column a, digit b
            t.append(frozenset(((a // 3 * 3 + k // 3) * 9 + a % 3 * 3 + k % 3) * 9 + b for k in range(9)))  # box a, digit b
    return t


def instance(d, g, deep):
    r = Report('C01', 'proof', 'constant evaluation of the compiled table and of the iterator handed to the search (abstract interpretation of MIR)',
               'The sequence of requirements handed to DancingMatrix::new on every path of solve_sudoku equals the 324 requirements of sudoku, '
               'computed independently from cell, row, column and box, each with its nine placements, in any order.', TRUST)
    R = run(d)
    if not R.report(r, panics=False):
        return r
    want = expected_table()
    n = 0
    for kind, rec, st, ev in segments(R.results):
        for e in ev:
            if e[0] != 'dlx_new':
                continue
            n += 1
            if any(e[2]):
                r.bad('every requirement reaches the search', R.fn.short(), 'whether a requirement or a placement is handed to the search depends on the grid')
            if e[1] is None or e[2] and not any(e[2]):
                r.undecided(R.fn.short(), 'the requirements are not compile-time constants')
                continue
            got = [frozenset(x) for x in e[1]]
            from collections import Counter
            cg, cw = Counter(got), Counter(want)
            for x in e[1]:
                r.check(len(set(x)) == len(x), 'a placement listed once', R.fn.short(), 'requirement %s lists a placement twice' % (x,))
            for x in want:
                r.check(cg[x] >= 1, 'requirement present', R.fn.short(), 'no requirement for placements %s' % sorted(x))
            for x, k in cg.items():
                r.check(cw[x] == k, 'no other requirement', R.fn.short(), 'requirement %s appears %d times instead of %d' % (sorted(x), k, cw[x]))
    for st, v in R.results:
        if v[0] == 'E' and v[2] == 0:
            r.check(sum(1 for e in st.events() if e[0] == 'dlx_new') == 1, 'one instance per solution', R.fn.short(), 'Ok is returned without exactly one exact-cover instance')
    if not n:
        r.undecided(R.fn.short(), 'no call of DancingMatrix::new')
    return r


def clues(d, g, deep):
    r = Report('C02', 'proof', ENG + '; the exact-cover matrix is abstract (contract: C04-C06)',
               'Every path of solve_sudoku: InvalidSize(length) exactly when the length is not 81; the clue loop visits every entry in order, imposes row 9k+v-1 exactly when entry k is v in 1..9, '
               'imposes nothing for 0, and goes on only when v <= 9 and the row was not refused; Ok only after the loop has seen all entries and with entry k of the result = '
               '(k-th smallest chosen row mod 9) + 1.', TRUST)
    R = run(d)
    if not R.report(r, panics=False):
        return r
    cx = R.cx
    puz = models.deref  # the slice behind the argument
    a = R.args[0]
    n = a[4] - a[3] if a[0] == 'R' and a[4] is not None else None
    if n is None:
        r.undecided(R.fn.short(), 'argument of unknown shape')
        return r
    base = cx.base_value(St(), a[1])

    def entry(st, p):
        v, s = read(cx, st, base, p)
        return v
    segs = segments(R.results)
    found = None
    for rec, up in [(e[1], rec0) for k, rec0, st, ev in segs for e in ev if e[0] == 'loop']:
        if any(e[0] == 'dlx_add' for b in rec.backs for e in b.events()):
            cs = [c for c in counters(cx, rec) if c.v0 == const(0)]
            for c in cs:
                if any(e[0] == 'dlx_add' and b.facts.proves(eq(e[1] - c.h * 9 - entry(b, c.h) + 1)) for b in rec.backs for e in b.events()):
                    found = (rec, c)
    oks = 0
    for st, v in R.results:
        f = st.facts
        if v[0] != 'E':
            r.undecided(R.fn.short(), 'result of unknown shape')
            return r
        if v[2] == 1:
            nm = vname(cx, st, v[3][0])
            if nm == 'InvalidSize':
                x = v[3][0][3][0]
                r.check(f.proves(ne(n - 81)) and f.proves(eq(x - n)), 'InvalidSize only for a wrong length', R.fn.short(), 'reports %s' % pp(x))
            else:
                r.check(nm == 'NoSolution', 'error kind', R.fn.short(), 'returns %s' % nm)
                r.check(f.proves(eq(n - 81)), 'a wrong length is InvalidSize', R.fn.short(), '%s for a length other than 81' % nm)
                # refused for a reason
                ev = st.events()
                why = None
                if any(e[0] == 'dlx_solve' and e[1] is None for e in ev):
                    why = 'search failed'
                for e in ev:
                    if e[0] == 'dlx_add' and refused(cx, st, e[2]):
                        why = 'clue refused'
                if why is None and found and f.proves(ge(entry(st, found[1].h) - 10)):
                    why = 'digit above nine'
                r.check(why is not None, 'refused for a reason', R.fn.short(), 'NoSolution on a path where no clue was refused and the search did not fail')
        else:
            oks += 1
            r.check(f.proves(eq(n - 81)), 'Ok only for 81 entries', R.fn.short(), 'Ok for a length other than 81')
    if found is None:
        r.undecided(R.fn.short(), 'the clue loop is not recognised')
        return r
    rec, c = found
    where_ = R.fn.short()
    for b in rec.backs:
        f = b.facts
        v = entry(b, c.h)
        adds = [e for e in b.events() if e[0] == 'dlx_add']
        if f.proves(eq(v)):
            r.check(not adds, 'zero imposes nothing', where_, 'a row is imposed for an empty cell')
        elif f.proves(ne(v)):
            r.check(len(adds) == 1 and f.proves(eq(adds[0][1] - c.h * 9 - v + 1)), 'the clue imposes its own row', where_, 'imposed: %s' % ', '.join(pp(e[1]) for e in adds))
            r.check(f.proves(ge(9 - v)), 'clues above nine are refused', where_, 'an entry above 9 is accepted')
            for e in adds:
                r.check(not_refused(cx, b, e[2]), 'a refused clue ends the attempt', where_, 'the loop goes on although the row may have been refused')
        else:
            # the path does not say whether there is a clue
            r.check(not adds or f.proves(ne(v)), 'zero imposes nothing', where_, 'a row may be imposed for an empty cell')
            r.check(bool(adds) or f.proves(eq(v)), 'every clue is imposed', where_, 'an entry may be skipped')
    for st, v in R.results:
        if v[2] != 0:
            continue
        f = st.facts
        ev = st.events()
        r.check(any(e[0] == 'loop' and e[1] is rec for e in ev) and f.proves(ge(c.h - 81)), 'every entry is visited', where_, 'Ok on a path that has not visited every entry')
        solves = [e for e in ev if e[0] == 'dlx_solve' and e[1] is not None]
        order = [e[0] if e[0] != 'loop' else ('L', e[1]) for e in ev]
        r.check(len(solves) == 1, 'the answer comes from the search', where_, 'Ok without a search')
        if not solves:
            continue
        r.check([x for x in order if x == 'dlx_solve' or x == ('L', rec)][:2] == [('L', rec), 'dlx_solve'], 'clues are imposed before the search', where_, 'order of events %s' % order[:6])
        q = v[3][0]
        bt = built(cx, st, q) if q[0] == 'Q' else None
        if bt is None:
            r.undecided(where_, 'how the result is filled is not recognised')
            continue
        brec, pushes = bt
        sorts = [e for e in ev if e[0] == 'sort' and content(e[3]) == content(solves[0][1])]
        if sorts:
            by = by_cell(cx, sorts[-1][6])
            if by is None:
                r.undecided(where_, 'the order given to %s is not recognised' % sorts[-1][5])
                continue
            r.check(by, 'the chosen rows are put in the order of their cells', where_, '%s does not order rows by cell' % sorts[-1][5])
        good = False
        for cc in counters(cx, brec):
            okc = bool(pushes)
            for x, e in pushes:
                if not sorts:
                    okc = False
                    break
                el, s2 = read(cx, x, sorts[-1][4], cc.h)
                okc = okc and isinstance(el, Poly) and isinstance(e[4], Poly) and s2.facts.proves(eq(e[3] - cc.h)) and \
                    s2.facts.proves(eq(e[4] - lin.divmod_syms(el, const(9))[1] - 1))
            good = good or okc
        r.check(good, 'entry k is the digit of the row of cell k', where_, 'the result is filled with %s' % ', '.join(pp(e[4]) if isinstance(e[4], Poly) else '?' for _, e in pushes))
        r.check(f.proves(eq(q[2] - q[1] - (solves[0][1][2] - solves[0][1][1]))), 'one entry per chosen row', where_, 'length %s' % pp(q[2] - q[1]))
    if not oks:
        r.undecided(where_, 'no Ok path')
    return r


def by_cell(cx, order):
    """the order puts a before b when row a belongs to an earlier cell than row b; None if unknown"""
    if order is None:
        return None
    for x, a, b, o in order:
        s = x.copy()
        s.assume(ge(lin.divmod_syms(b, const(9))[0] - lin.divmod_syms(a, const(9))[0] - 1))
        if s.facts.proves(F):
            continue
        if o[0] == 'E':
            if cx.T[o[1]]['variants'][o[2]]['name'] != 'Less':
                return False
        elif isinstance(o[0], Poly) and isinstance(o[1], Poly):
            if not s.facts.proves(ge(o[1] - o[0] - 1)):
                return False
        else:
            return None
    return True


def err_variant(cx, res, name):
    """formula: the Result is Err(name)"""
    t = cx.T[res[2]]
    et = t['variants'][1]['fields'][0][1]
    i = variant(cx, et, name)
    if i is None:
        return None
    e = ('SE', '%s.%s.0' % (res[1], t['variants'][1]['name']), et)
    return conj([cx.variant_is(res, 1), cx.variant_is(e, i)])


def refused(cx, st, res):
    g = err_variant(cx, res, 'InvalidRow')
    return st.facts.proves(cx.variant_is(res, 1)) or g is not None and st.facts.proves(g)


def not_refused(cx, st, res):
    g = err_variant(cx, res, 'InvalidRow')
    return g is not None and st.facts.proves(neg(g))


def no_panic(d, g, deep):
    r = Report('C16', 'proof', ENG,
               'Every index, slice, division, subtraction, addition, multiplication, unwrap/expect, assertion and explicit panic reachable from parse_sudoku, '
               'solve_sudoku and print_sudoku, outside the exact-cover module, is proven not to fire.', TRUST + ['the functions of the exact-cover matrix do not panic (C05, C06)'])
    Run(d, 'parse_sudoku').report(r)
    run(d).report(r)
    Run(d, 'print_sudoku').report(r)
    return r
