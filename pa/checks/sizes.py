"""Which inputs the printing functions refuse because of their sizes, and with what."""
from .pictures import *
from .solver import MAXRULES

U32 = 2**32 - 1


class Sizes:
    """a function and what its sizes have to be: of(cx, st, args) -> (cases that cover the inputs that fit, cases that cover the others), each a list of facts"""

    def __init__(self, d, name, text, variant, of, payload=None, others=(), assume=None, **kw):
        self.d, self.name, self.text, self.variant, self.of, self.payload, self.others, self.assume, self.kw = d, name, text, variant, of, payload, others, assume, kw

    def run(self, which=None, k=None):
        def assume(cx, st, a):
            return (self.assume(cx, st, a) if self.assume else []) + (self.of(cx, st, a)[which][k] if which is not None else [])
        return Run(self.d, self.name, assume=assume, **self.kw)

    def never(self, R, which, wrong):
        """in none of the cases does a path return such a result"""
        n = len(self.of(R.cx, R.results[0][0].copy(), R.args)[which])
        for k in range(n):
            R = self.run(which, k)
            if R.error or R.cx.havoced:
                return False
            for st, v in R.results:
                if not (st.facts.dead or st.facts.proves(F)) and wrong(R.cx, st, v):
                    return False
        return True

    def check(self, r):
        R = self.run()
        if not R.report(r, panics=False):
            return
        cx, where = R.cx, R.fn.short()
        oks = errs = 0
        memo = {}

        def error(cx, st, v):
            return vname(cx, st, v[3][0]) if isinstance(v[3][0], tuple) else None

        def no_ok():
            if 'ok' not in memo:
                memo['ok'] = self.never(R, 1, lambda cx, st, v: v[0] != 'E' or v[2] == 0 or error(cx, st, v) in (None,) + self.others)
            return memo['ok']

        def no_err():
            if 'err' not in memo:
                memo['err'] = self.never(R, 0, lambda cx, st, v: v[0] != 'E' or v[2] == 1 and error(cx, st, v) not in self.others)
            return memo['err']

        for st, v in R.results:
            if v[0] != 'E':
                r.undecided(where, 'a result that is neither Ok nor Err: %s' % str(v)[:60])
                continue
            st = st.copy()
            cond = disj([conj(c) for c in self.of(cx, st, R.args)[1]])
            n = None if v[2] == 0 else error(cx, st, v)
            if v[2] == 0 or n in self.others:
                oks += v[2] == 0
                r.check(st.facts.proves(neg(cond)) or no_ok(), 'other answers only if the sizes fit', where, '%s is returned although the sizes may be wrong (%s)' % (n or 'Ok', self.text))
                continue
            if n is None:
                r.undecided(where, 'an error of unknown kind: %s' % str(v[3][0])[:60])
                continue
            errs += 1
            r.check(n == self.variant, 'the error names the cause', where, '%s is returned, %s was expected' % (n, self.variant))
            r.check(st.facts.proves(cond) or no_err(), 'refused only if the sizes do not fit', where, '%s is returned although the sizes may be right (%s)' % (n, self.text))
            if self.payload and n == self.variant:
                e, want = v[3][0], self.payload(cx, st, R.args)
                got = e[3][0] if e[0] == 'E' and e[3] else None
                r.check(isinstance(got, Poly) and st.facts.proves(eq(got - want)), 'the error names the size found', where, 'the size reported is %s' % (pp(got) if isinstance(got, Poly) else str(got)[:60]))
        r.floor('%s: ways to succeed' % where, oks, 1)
        r.floor('%s: ways to refuse a size' % where, errs, 1)


def differs(a, b):
    return [[ge(a - b - 1)], [ge(b - a - 1)]]


def above(a, n):
    return [[ge(a - n - 1)]]


def maze(cx, st, a):
    w, h, arg = a
    n, m = slice_len(cx, st, arg), U32 - 1
    return [[eq(n - w * h), ge(const(m) - w * 10), ge(const(m) - h * 10)]], differs(n, w * h) + above(w * 10, m) + above(h * 10, m)


def path(cx, st, a):
    w, h = a[0][1:3]
    return [[ge(w - 6), ge(h - 6)]], [[ge(const(5) - w)], [ge(const(5) - h)]]


def sudoku(cx, st, a):
    n = slice_len(cx, st, a[0])
    return [[eq(n - 81)]], differs(n, const(81))


def rules(cx, st, a):
    w, h, col, row = a
    n, m = slice_len(cx, st, col), slice_len(cx, st, row)
    return [[eq(n - w), eq(m - h), ge(const(U32) - w * 60), ge(const(U32) - h * 60)]], differs(n, w) + differs(m, h) + above(w * 60, U32) + above(h * 60, U32)


def cells(cx, st, a):
    w, h, im, arg = a
    n = slice_len(cx, st, arg)
    # 50k + max(150, 10k)
    wide, narrow = lambda k: (ge(k - 15), k * 60), lambda k: (ge(14 - k), k * 50 + 150)
    fits = []
    for f in (wide, narrow):
        for g in (wide, narrow):
            (cw, x), (ch, y) = f(w), g(h)
            fits.append([eq(n - w * h), ge(const(U32) - w * 60), ge(const(U32) - h * 60), cw, ch, eq(im[1] - x), eq(im[2] - y)])
    off = [[c] + o for k, side in ((w, im[1]), (h, im[2])) for f in (wide, narrow) for c, x in (f(k),) for o in differs(side, x)]
    return fits, differs(n, w * h) + above(w * 60, U32) + above(h * 60, U32) + off


def sizes(d, g, deep):
    r = Report('C19', 'proof', 'abstract interpretation of MIR; the facts of every returning path against the condition under which that answer is right',
               'On every path that returns Ok the sizes are proven to fit, on every path that returns an error about sizes they are proven not to fit, the error is the right one, and carries the size found: '
               'print_maze (cells = width x height, 10w+1 and 10h+1 below 2^32), print_maze_solution (both sides at least 6), print_sudoku (81 entries), '
               'print_nonogram (one rule per column and row, 60w and 60h below 2^32), print_nonogram_solution (a grid of w x h cells on a picture of 50w+max(150,10w) by 50h+max(150,10h)).',
               PTRUST + ['the picture given to print_maze_solution has sides below 2^31'])

    def small(cx, st, a):
        return [ge(const(MAXLEN - 1) - a[0][1]), ge(const(MAXLEN - 1) - a[0][2])] if a[0][0] == 'IMG' else []
    for s in (Sizes(d, 'print_maze', 'cells = width x height, 10w+1 and 10h+1 below 2^32', 'InvalidDimensions', maze),
              Sizes(d, 'print_maze_solution', 'both sides at least 6', 'InvalidDimensions', path, others=('InvalidSolution',), assume=small, opts={'ret_cap': 200}),
              Sizes(d, 'print_sudoku', '81 entries', 'InvalidSize', sudoku, payload=lambda cx, st, a: slice_len(cx, st, a[0])),
              Sizes(d, 'print_nonogram', 'one rule per column and row, 60w and 60h below 2^32', 'InvalidDimensions', rules, opts={'maxlen': MAXRULES},
                    args=lambda cx, fn, st: [cx.of_type(fn.locals[i + 1], 'p%d' % i) for i in range(fn.argc)]),
              Sizes(d, 'print_nonogram_solution', 'w x h cells, a picture of 50w+max(150,10w) by 50h+max(150,10h)', 'InvalidDimensions', cells)):
        s.check(r)
    return r
