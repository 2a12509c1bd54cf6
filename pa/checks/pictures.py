"""What the printing functions paint."""
from .paint import *
from ..report import Report

ENG = 'abstract interpretation of MIR with inferred loop invariants; every painting event against the clauses of a specification, every clause against the loops'
PTRUST = TRUST + ['draw_text_mut draws the given text at the given position and nothing else']
EV = {'put', 'rect', 'text', 'new'}
BLACK, WHITE, RED, GRAY = (0, 0, 0), (255, 255, 255), (255, 0, 0), (105, 105, 105)


def div(a, b):
    return lin.divmod_syms(a, b)


def flag_of(cx, st, arg, i, name=None):
    """the boolean (or the field of that name) of element i of a slice"""
    b, p, lo, hi, q = models.seqof(cx, st, arg)
    v, s = read(cx, st, q, lo + i)
    if v is None:
        return None
    if name is None:
        return v if is_bool(v) else None
    k = field(cx, q[5], name)
    if k is None:
        return None
    try:
        v = cx.walk(s, v, (k,))
    except (Unsupported, Fork):
        return None
    return v if is_bool(v) else None


def slice_len(cx, st, arg):
    b, p, lo, hi, q = models.seqof(cx, st, arg)
    return hi - lo


def flat(cx, st, cells):
    return list(cells)


def two(w):
    """cells of a grid of width w, from one counter or from two"""
    def f(cx, st, cells):
        out = [(i,) for i in cells]
        out += [(y, x) for y in cells for x in cells if y is not x]
        return out
    return f


def place(cell, w):
    """(column, row, index) of a cell"""
    if len(cell) == 1:
        q, m = div(cell[0], w)
        return m, q, cell[0]
    return cell[1], cell[0], cell[0] * w + cell[1]


def cellparams(w, h, n):
    return [[('i', const(0), n)], [('Y', const(0), h), ('X', const(0), w)]]


def cellof(env, w):
    return place((env['i'],) if 'i' in env else (env['Y'], env['X']), w)


def inside(cell, w, h, n):
    if len(cell) == 1:
        return [ge(cell[0]), ge(n - 1 - cell[0])]
    return [ge(cell[0]), ge(h - 1 - cell[0]), ge(cell[1]), ge(w - 1 - cell[1])]


def between(v, lo, hi):
    return [ge(v - lo), ge(hi - v)]


def near(p, cells):
    return p


class Cells:
    """a clause that repeats for every cell of a grid where a flag is set: points (ox + k*dx, oy + k*dy) relative to the cell"""

    def __init__(self, name, colour, w, h, n, flag, unit, ox, oy, kx, ky, rx=const(0), ry=const(0)):
        """kx, ky: numbers of points in each direction; rx, ry: offsets of the grid in the picture"""
        self.w, self.h, self.n, self.flag = w, h, n, flag
        self.unit, self.ox, self.oy, self.kx, self.ky, self.rx, self.ry = unit, ox, oy, kx, ky, rx, ry
        ks = ([('k', const(0), const(kx))] if kx > 1 else []) + ([('l', const(0), const(ky))] if ky > 1 else [])
        alts = [(ps + ks, self.pos) for ps in cellparams(w, h, n)]
        self.clause = Clause(name, colour, alts, self.pred, two(w), self.cond)

    def corner(self, X, Y):
        return X * self.unit + self.ox + self.rx, Y * self.unit + self.oy + self.ry

    def pos(self, cx, st, env):
        X, Y, i = cellof(env, self.w)
        x, y = self.corner(X, Y)
        return x + env.get('k', const(0)), y + env.get('l', const(0))

    def pred(self, cx, st, cell, x, y):
        X, Y, i = place(cell, self.w)
        cx0, cy0 = self.corner(X, Y)
        pos = conj(inside(cell, self.w, self.h, self.n) + between(x, cx0, cx0 + self.kx - 1) + between(y, cy0, cy0 + self.ky - 1))
        if not st.facts.proves(pos):
            return None
        f = self.flag(cx, st, i)
        if f is not None and st.facts.proves(f):
            return T
        for j in near(i, None) and cx.all_cells:
            if j is not i and st.facts.proves(eq(j - i)):
                f = self.flag(cx, st, j)
                if f is not None and st.facts.proves(f):
                    return T
        return None

    def cond(self, cx, st, env):
        i = cellof(env, self.w)[2]
        fs = [self.flag(cx, st, i)] + [self.flag(cx, st, j) for j in cx.all_cells if st.facts.proves(eq(j - i))]
        fs = [f for f in fs if f is not None]
        for f in fs:
            if st.facts.proves(neg(f)):
                return F
        return conj(fs) if fs else None


def result_image(r, where, v):
    x = v[3][0]
    if x[0] != 'IMG':
        r.undecided(where, 'the image that is returned is not recognised')
        return None
    return x


def fresh_image(r, where, st, im, w, h, colour):
    f = st.facts
    r.check(f.proves(eq(im[1] - w)) and f.proves(eq(im[2] - h)), 'size of the picture', where, '%s x %s' % (pp(im[1]), pp(im[2])))
    new = [e for e in st.events() if e[0] == 'new' and e[1] == im[3]]
    if not new:
        r.undecided(where, 'where the picture is made is not recognised')
    else:
        c = rgb(new[0][4]) if new[0][4] is not None else (0, 0, 0)
        r.check(c == colour, 'background', where, 'background %s' % (c,))


def maze_picture(d, g, deep):
    r = Report('C11', 'proof', ENG,
               'print_maze: every pixel painted black belongs to the left border, to the top border right of the entrance, or to a closed right or down wall of a cell (11 pixels), '
               'and all of these are painted, for every grid, on a white picture of 10w+1 by 10h+1.', PTRUST)
    R = Run(d, 'print_maze', events=EV)
    if not R.report(r, panics=False):
        return r
    cx, where = R.cx, R.fn.short()
    w, h, arg = R.args
    P = Picture(R, r, where)
    done = 0
    for st, v in R.results:
        if v[0] != 'E' or v[2] != 0:
            continue
        im = result_image(r, where, v)
        if im is None:
            continue
        done += 1
        n = slice_len(cx, st, arg)
        cx.all_cells = P.candidates(st)
        fresh_image(r, where, st, im, w * 10 + 1, h * 10 + 1, WHITE)
        clauses = maze_clauses(cx, w, h, n, arg)
        if done == 1:
            painted = P.sound(im[3], clauses)
            r.floor('painting events', painted, 2)
        P.complete(st, im[3], clauses)
    r.floor('successful paths', done, 1)
    return r


def maze_clauses(cx, w, h, n, arg):
    z = const(0)
    return [
        Clause('left border', BLACK, [([('k', z, h * 10 + 1)], lambda cx, st, e: (z, e['k']))],
               lambda cx, st, cell, x, y: conj([eq(x)] + between(y, z, h * 10))),
        Clause('top border', BLACK, [([('k', const(10), w * 10 + 1)], lambda cx, st, e: (e['k'], z))],
               lambda cx, st, cell, x, y: conj([eq(y)] + between(x, const(10), w * 10))),
        Cells('right walls', BLACK, w, h, n, lambda cx, st, i: flag_of(cx, st, arg, i, 'right'), 10, 10, 0, 1, 11).clause,
        Cells('down walls', BLACK, w, h, n, lambda cx, st, i: flag_of(cx, st, arg, i, 'down'), 10, 0, 10, 11, 1).clause,
    ]


def run_picture(r, name, build, image, assume=None):
    """analyse a printing function: build(cx, st, R) -> clauses for a successful path; image(cx, st, R, im) checks size and background"""
    R = Run(r.data, name, events=EV | {'push', 'store'}, assume=assume)
    if not R.report(r, panics=False):
        return R
    cx, where = R.cx, R.fn.short()
    P = R.picture = Picture(R, r, where)
    done = 0
    for st, v in R.results:
        if v[0] != 'E' or v[2] != 0:
            continue
        im = result_image(r, where, v)
        if im is None:
            continue
        done += 1
        cx.all_cells = P.candidates(st)
        image(cx, st, R, im, where)
        clauses = build(cx, st, R)
        if done == 1:
            r.floor('painting events', P.sound(im[3], clauses), 1)
        P.complete(st, im[3], clauses)
    r.floor('successful paths', done, 1)
    return R


def num_of(cx, st, arg, i):
    b, p, lo, hi, q = models.seqof(cx, st, arg)
    v, s = read(cx, st, q, lo + i)
    return v if isinstance(v, Poly) else None


def shown(v):
    return ('STR', ('show', repr(v)))


def same_cells(cx, st, i):
    """other names of index i"""
    return [j for j in cx.all_cells if j != i and st.facts.proves(eq(j - i))]


def ones(cx, st, cells):
    return list(cells)


def sudoku_picture(d, g, deep):
    r = Report('C26', 'proof', ENG,
               'print_sudoku: on a white picture of 900 by 900, every black pixel belongs to a line at a multiple of 100 (three pixels wide at 300 and 600), and all of these are painted; '
               'the text of entry i is drawn in cell (i mod 9, i div 9), for every entry that is not zero and for no other.', PTRUST)
    r.data = d

    def line(name, horizontal, off):
        def pos(cx, st, e):
            a, b = e['k'], e['g'] * 100 + off
            return (a, b) if horizontal else (b, a)

        def thick(gv):
            """two ways to say that it is 3 or 6"""
            return [disj([eq(gv - 3), eq(gv - 6)]), conj([eq(div(gv, const(3))[1]), ge(gv - 1), ge(7 - gv)])] if off else []

        def pred(cx, st, cell, x, y):
            a, b = (x, y) if horizontal else (y, x)
            if off and st.facts.proves(conj([eq(div(cell, const(3))[1]), ge(cell - 1), ge(8 - cell)])):
                st.assume(thick(cell)[0])
            return conj([eq(b - cell * 100 - off), ge(cell), ge(8 - cell)] + between(a, const(0), const(899)) + thick(cell)[:1])

        def cond(cx, st, e):
            return thick(e['g'])
        return Clause(name, BLACK, [([('g', const(0), const(9)), ('k', const(0), const(900))], pos)], pred, ones, cond if off else None)

    def texts(cx, st, arg):
        def at(i):
            q, m = div(i, const(9))
            return m * 100 + 25, q * 100 + 5

        def text(cx, st, cell):
            v = num_of(cx, st, arg, cell)
            if v is None:
                return None
            if any(st.facts.proves(ne(num_of(cx, st, arg, j))) for j in same_cells(cx, st, cell)):
                st.assume(ne(v))
            x, y = at(cell)
            return x, y, [shown(v)] + [shown(num_of(cx, st, arg, j)) for j in same_cells(cx, st, cell)], conj([ge(cell), ge(80 - cell), ne(v)])

        def pos(cx, st, e):
            v = num_of(cx, st, arg, e['i'])
            return None if v is None else at(e['i']) + ([shown(v)] + [shown(num_of(cx, st, arg, j)) for j in same_cells(cx, st, e['i'])],)

        def cond(cx, st, e):
            vs = [num_of(cx, st, arg, j) for j in [e['i']] + same_cells(cx, st, e['i'])]
            if any(v is not None and st.facts.proves(eq(v)) for v in vs):
                return F
            return None if vs[0] is None else ne(vs[0])
        return Clause('digits', BLACK, [([('i', const(0), const(81))], pos)], None, ones, cond, kind='text', text=text)

    def build(cx, st, R):
        out = []
        for off in (0, 1, -1):
            for hz in (True, False):
                out.append(line('%s lines%s' % ('horizontal' if hz else 'vertical', '' if not off else ', thick (%+d)' % off), hz, off))
        return out + [texts(cx, st, R.args[0])]

    def image(cx, st, R, im, where):
        fresh_image(r, where, st, im, const(900), const(900), WHITE)
    run_picture(r, 'print_sudoku', build, image)
    return r


# ---------------------------------------------------------------------------------------------- solution of a maze
STEP = {'Right': (1, 0), 'Down': (0, 1), 'Left': (-1, 0), 'Up': (0, -1)}


class Walk:
    """the loop over the steps: the pixel (px, py) it stands on and the step it takes"""

    def __init__(self, rec, px, py, idx, left):
        self.rec, self.px, self.py, self.idx, self.left = rec, px, py, idx, left


def step_name(cx, st, arg, idx):
    b, p, lo, hi, q = models.seqof(cx, st, arg)
    v, s = read(cx, st, q, lo + idx)
    return None if v is None else vname(cx, s, v)


def walks(cx, P, st, arg):
    """candidates for the loop over the steps"""
    n = slice_len(cx, st, arg)
    for rec in P.loops.values():
        if not P.paints(rec):
            continue
        ints = [l for l in rec.leaves if l.kind == 'int' and isinstance(l.v0, Poly)]
        pix = []
        for l in ints:
            for a, b in ((10, 5), (1, 0)):
                if rec.entry.facts.proves(eq(l.v0 * a + b - 5)):
                    pix.append((l, a, b))
        idxs = []
        for c in P.down[id(rec)]:
            if isinstance(c.v0, Poly):
                idxs += [(c.h - 1, c.h), (c.h, c.h + 1)]
        for c in P.cnt[id(rec)]:
            if isinstance(c.v0, Poly) and rec.entry.facts.proves(eq(c.v0)):
                idxs.append((n - 1 - c.h, n - c.h))
                idxs.append((c.h, n - c.h))
        for lx, a, b in pix:
            for ly, a2, b2 in pix:
                if lx is ly or (a, b) != (a2, b2):
                    continue
                for idx, left in idxs:
                    w = Walk(rec, lx.h * a + b, ly.h * a2 + b2, idx, left)
                    w.lx, w.ly, w.a, w.b = lx, ly, a, b
                    w.last_first = rec.entry.facts.proves(eq(n - 1 - idx.subst({str(s): c.v0 for c in rec.leaves if isinstance(c.v0, Poly) and c.kind == 'int' for s in c.h.syms()})))
                    yield w


def steps_right(cx, w, arg):
    """for every iteration: (state, direction, the position moved one cell that way)"""
    out = []
    for b in w.rec.backs:
        d = step_name(cx, b, arg, w.idx)
        x = loops.leaf(cx, b, b.mem[w.lx.key], w.lx.path) if w.lx.key in b.mem else None
        y = loops.leaf(cx, b, b.mem[w.ly.key], w.ly.path) if w.ly.key in b.mem else None
        good = d in STEP and isinstance(x, Poly) and isinstance(y, Poly) and \
            b.facts.proves(eq((x - w.lx.h) * w.a - 10 * STEP[d][0])) and b.facts.proves(eq((y - w.ly.h) * w.a - 10 * STEP[d][1]))
        out.append((b, d, good))
    return out


def walk_picture(d, g, deep):
    r = Report('C12', 'proof', ENG,
               'print_maze_solution: starting at pixel (5, 5) with the stroke (5, 0..5), every direction, taken from the last to the first, paints the 11 pixels to the centre of the neighbour in that direction and moves there; '
               'then five pixels down from the last centre; nothing else is painted, all in red, on the picture given. InvalidSolution is returned only when one of these pixels lies outside.', PTRUST)
    R = Run(d, 'print_maze_solution', events=EV, opts={'ret_cap': 200},
            assume=lambda cx, st, a: [ge(const(MAXLEN - 1) - a[0][1]), ge(const(MAXLEN - 1) - a[0][2])] if a[0][0] == 'IMG' else [])
    if not R.report(r, panics=False):
        return r
    cx, where = R.cx, R.fn.short()
    im, arg = R.args
    P = Picture(R, r, where)
    oks = [(st, v) for st, v in R.results if v[0] == 'E' and v[2] == 0]
    if not oks:
        r.undecided(where, 'no path returns Ok')
        return r
    best = None
    for w in walks(cx, P, oks[0][0], arg):
        sr = steps_right(cx, w, arg)
        n = sum(good for _, _, good in sr)
        n = n, w.last_first
        if best is None or n > best[0]:
            best = n, w, sr
    if best is None or not best[0][0]:
        r.undecided(where, 'the loop over the steps is not recognised')
        return r
    _, w, sr = best
    for b, dn, good in sr:
        r.check(good, 'every step moves one cell in its direction', where, 'step %s' % dn)
    n = slice_len(cx, oks[0][0], arg)
    W, H = im[1], im[2]
    z = const(0)
    if n.const is None:
        r.check(w.last_first, 'the steps are taken from the last to the first', where, 'the first step taken is step %s' % pp(w.idx))
    # soundness
    for kind, rec, st, ev in segments(R.results):
        for e in ev:
            if e[0] not in ('put', 'rect', 'text'):
                continue
            if e[0] == 'text':
                r.bad('painted where it should be', where, 'text')
                continue
            s = st
            if e[0] == 'put':
                x, y, px = e[2], e[3], e[4]
            else:
                s = st.copy()
                rx, ry, rw, rh = e[2][2]
                x, y = declare(cx.fresh(s, 'px'), -2**33, 2**33), declare(cx.fresh(s, 'py'), -2**33, 2**33)
                for f in (ge(x - rx), ge(rx + rw - 1 - x), ge(y - ry), ge(ry + rh - 1 - y)):
                    s.assume(f)
                px = e[3]
            f = s.facts
            ok = f.proves(conj([eq(x - 5)] + between(y, z, const(5))))
            if not ok and f.proves(ge(-w.left)):
                ok = f.proves(conj([eq(x - w.px)] + between(y - w.py, z, const(5))))
            if not ok:
                dn = step_name(cx, s, arg, w.idx)
                if dn in STEP:
                    dx, dy = STEP[dn]
                    t = (x - w.px) * dx + (y - w.py) * dy
                    ok = f.proves(conj([ge(t), ge(10 - t), eq(x - w.px - t * dx), eq(y - w.py - t * dy)]))
            r.check(ok and rgb(px) == RED and e[1] == im[3], 'painted where it should be', where, 'colour %s at (%s, %s)' % (rgb(px), pp(x), pp(y)))
    # completeness
    for b, dn, good in sr:
        if dn in STEP:
            dx, dy = STEP[dn]
            c = Clause('stroke of step ' + dn, RED, [([('k', z, const(11))], lambda cx, st, e: (w.px + e['k'] * dx, w.py + e['k'] * dy))])
            P.complete(b, im[3], [c])
    for st, v in oks:
        x = v[3][0]
        r.check(x[0] == 'IMG' and x[3] == im[3] and st.facts.proves(eq(x[1] - W)) and st.facts.proves(eq(x[2] - H)), 'the picture given is returned', where, str(x)[:80])
        r.check(any(e[0] == 'loop' and e[1].header == w.rec.header and e[1].fn is w.rec.fn for e in st.events()) and st.facts.proves(ge(-w.left)),
                'every step is taken', where, 'Ok although steps may be left: %s' % pp(w.left))
        P.complete(st, im[3], [
            Clause('entrance', RED, [([('k', z, const(6))], lambda cx, st, e: (const(5), e['k']))]),
            Clause('exit', RED, [([('k', const(1), const(6))], lambda cx, st, e: (w.px, w.py + e['k']))])])
    # errors
    for st, v in R.results:
        if v[0] != 'E' or v[2] != 1:
            continue
        kind = vname(cx, st, v[3][0])
        f = st.facts
        if kind == 'InvalidDimensions':
            r.check(f.proves(disj([ge(5 - W), ge(5 - H)])), 'InvalidDimensions only for a picture below 6 x 6', where, 'other pictures may be refused')
            continue
        outs = [conj([ge(-w.left), disj([ge(w.px - W), ge(w.py + 5 - H)])])]
        dn = step_name(cx, st, arg, w.idx)
        if dn in STEP:
            dx, dy = STEP[dn]
            outs.append(disj([ge(w.px - W), ge(w.py - H), ge(w.px + 10 * dx - W), ge(w.py + 10 * dy - H), ge(-1 - w.px - 10 * dx), ge(-1 - w.py - 10 * dy)]))
        r.check(kind == 'InvalidSolution' and any(f.proves(o) for o in outs), 'InvalidSolution only when a step leaves the picture', where,
                'refused (%s) although the step %s may stay inside' % (kind, dn))
    return r


# ---------------------------------------------------------------------------------------------- nonograms
MAXRULES = 2**27


def margins(w, h):
    """names for max(150, 10w) and max(150, 10h), and what they are"""
    rw, rh = declare('rule_width', 0, 2**40), declare('rule_height', 0, 2**40)
    return rw, rh, [f for m, n in ((rw, w), (rh, h)) for f in (ge(m - 150), ge(m - n * 10), disj([eq(m - 150), eq(m - n * 10)]))]


def limits(cx, st, a):
    """pictures have less than 2^31 pixels a side"""
    rw, rh, fs = margins(a[0], a[1])
    return fs + [ge(const(MAXLEN - 1) - rw - a[0] * 50), ge(const(MAXLEN - 1) - rh - a[1] * 50)]


def sub_seq(cx, st, arg, i):
    """sequence i of a slice of vectors: (state, sequence) or None"""
    b, p, lo, hi, q = models.seqof(cx, st, arg)
    v, s = read(cx, st, q, lo + i)
    return (s, v) if isinstance(v, tuple) and v[0] == 'Q' else None


def sub_num(cx, st, arg, i, k):
    x = sub_seq(cx, st, arg, i)
    if x is None:
        return None
    v, s = read(cx, x[0], x[1], x[1][1] + k)
    return v if isinstance(v, Poly) else None


def names(cx, st, i):
    return [i] + same_cells(cx, st, i)


def nonogram_picture(d, g, deep):
    r = Report('C25', 'proof', ENG,
               'print_nonogram: with rw = max(150, 10w) and rh = max(150, 10h), on a white picture of 50w+rw by 50h+rh, number k of column rule c is drawn at (rw+50c+15, 30k+10), row rule r, its numbers joined by two spaces, '
               'at (10, rh+50r+10), gray lines run at rw+50c and rh+50r (three pixels wide for multiples of 5), and nothing else is painted. '
               'print_nonogram_solution: a black square of 49 by 49 at (rw+50x+1, rh+50y+1) for every filled cell (x, y) of the given picture, and nothing else.', PTRUST)
    r.data = d
    z = const(0)

    def solution_build(cx, st, R):
        w, h, im, arg = R.args
        rw, rh, _ = margins(w, h)
        n = slice_len(cx, st, arg)
        return [Cells('filled cells', BLACK, w, h, n, lambda cx, st, i: flag_of(cx, st, arg, i), 50, 1, 1, 49, 49, rw, rh).clause]

    def solution_image(cx, st, R, im, where):
        w, h, im0, arg = R.args
        r.check(im[3] == im0[3] and st.facts.proves(eq(im[1] - im0[1])) and st.facts.proves(eq(im[2] - im0[2])), 'the picture given is returned', where, str(im)[:80])
    run_picture(r, 'print_nonogram_solution', solution_build, solution_image, limits)

    def line(name, vertical, off, w, h, rw, rh):
        n, m, ln = (w, rw, h * 50 + rh) if vertical else (h, rh, w * 50 + rw)

        def fifth(c):
            return eq(div(c, const(5))[1]) if off else T

        def pos(cx, st, e):
            a, b = e['c'] * 50 + m + off, e['k']
            return (a, b) if vertical else (b, a)

        def pred(cx, st, c, x, y):
            a, b = (x, y) if vertical else (y, x)
            return conj([eq(a - c * 50 - m - off), ge(c), ge(n - 1 - c), fifth(c)] + between(b, z, ln - 1))
        return Clause(name, GRAY, [([('c', z, n), ('k', z, ln)], pos)], pred, ones, (lambda cx, st, e: [fifth(e['c'])]) if off else None)

    def column_text(cx, w, rw, arg):
        def pos(cx, st, e):
            vs = [sub_num(cx, st, arg, c, k) for c in names(cx, st, e['c']) for k in names(cx, st, e['k'])]
            return e['c'] * 50 + rw + 15, e['k'] * 30 + 10, [shown(v) for v in vs if v is not None]

        def count(cx, st):
            def f(env):
                x = sub_seq(cx, st, arg, env['c'])
                return x[1][2] - x[1][1] if x else None
            return f

        def text(cx, st, cell):
            c, k = cell
            x = sub_seq(cx, st, arg, c)
            if x is None:
                return None
            q = x[1]
            e = {'c': c, 'k': k}
            return pos(cx, st, e) + (conj([ge(c), ge(w - 1 - c), ge(k), ge(q[2] - q[1] - 1 - k)]),)
        return count, Clause('numbers of the columns', BLACK, None, None, lambda cx, st, cells: [(a, b) for a in cells for b in cells if a is not b], None, kind='text', text=text), pos

    def row_text(cx, R, h, rh, arg):
        def joined(st, i):
            def f(got):
                if got[0] != 'STR' or got[1][0] != 'join' or got[1][4] != ('lit', '  '):
                    return False
                q, lo, hi = got[1][1:4]
                x = sub_seq(cx, st, arg, i)
                bl = built(cx, st, q)
                if x is None or bl is None or not st.facts.proves(conj([eq(lo - q[1]), eq(hi - q[2]), eq(hi - lo - (x[1][2] - x[1][1]))])):
                    return False
                for b, e in bl[1]:
                    ks = [e[3]] + [k for k in R.picture.candidates(b) if b.facts.proves(eq(k - e[3]))]
                    vs = [sub_num(cx, b, arg, j, k) for j in names(cx, b, i) for k in ks]
                    if e[4] not in [shown(v) for v in vs if v is not None]:
                        return False
                return True
            return f

        def pos(cx, st, e):
            return const(10), e['c'] * 50 + rh + 10, [joined(st, e['c'])]

        def text(cx, st, cell):
            return pos(cx, st, {'c': cell}) + (conj([ge(cell), ge(h - 1 - cell)]),)
        return Clause('rules of the rows', BLACK, [([('c', z, h)], pos)], None, ones, None, kind='text', text=text)

    def build(cx, st, R):
        w, h, col, row = R.args
        rw, rh, _ = margins(w, h)
        out = []
        for off in (0, 1, -1):
            for v in (True, False):
                out.append(line('%s lines%s' % ('vertical' if v else 'horizontal', '' if not off else ', thick (%+d)' % off), v, off, w, h, rw, rh))
        count, c, pos = column_text(cx, w, rw, col)
        c.alts = [([('c', z, w), ('k', z, count(cx, st))], pos)]
        return out + [c, row_text(cx, R, h, rh, row)]

    def image(cx, st, R, im, where):
        w, h, col, row = R.args
        rw, rh, _ = margins(w, h)
        fresh_image(r, where, st, im, w * 50 + rw, h * 50 + rh, WHITE)
    run_picture(r, 'print_nonogram', build, image, limits)
    return r
