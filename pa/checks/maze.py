"""Maze generation: perfect mazes, and the solution that goes with them."""
from .common import *
from ..report import Report

ENG = 'abstract interpretation of MIR with inferred loop invariants; typestate rules over the events of every loop iteration'


class Open:
    """an open wall of node p leads to a cell of the grid"""
    positional = True

    def __init__(self, fi, kind, w, h):
        self.fi, self.kind, self.w, self.h = fi, kind, w, h

    def key(self):
        return ('open', self.fi, self.kind, self.w, self.h)

    def __eq__(self, o):
        return type(o) is Open and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'open %s wall leads into the grid' % self.kind

    def grid(self, p):
        return ingrid(self.kind, p, self.w, self.h)

    def refine(self, cx, st, v, p):
        if v[0] == 'S' and is_bool(v[2][self.fi]):
            st.assume(disj([v[2][self.fi], self.grid(p)]))
        return v

    def holds(self, cx, st, v, p):
        if v[0] != 'S' or not is_bool(v[2][self.fi]):
            return False
        b = v[2][self.fi]
        return b == T or st.facts.proves(disj([b, self.grid(p)]))


class Adj:
    """an entry of the search tree at n that points to p: the cells touch"""
    positional = True

    def __init__(self, path, w):
        self.path, self.w = path, w

    def key(self):
        return ('adj', self.path, self.w)

    def __eq__(self, o):
        return type(o) is Adj and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'parent is a neighbour'

    def rel(self, n, p):
        w = self.w
        return disj([eq(n - p - 1), eq(n - p - w), eq(p - n - 1), eq(p - n - w)])

    def refine(self, cx, st, v, n):
        k = self.path[0]
        if v[0] == 'SE':
            p = cx.walk(st, v, (k,))
            st.assume(imp(cx.variant_is(v, k[1]), self.rel(n, p)))
        elif v[0] == 'E' and v[2] == k[1]:
            st.assume(self.rel(n, v[3][k[2]]))
        return v

    def holds(self, cx, st, v, n):
        k = self.path[0]
        if v[0] == 'E':
            return v[2] != k[1] or st.facts.proves(self.rel(n, v[3][k[2]]))
        if v[0] == 'SE':
            p = cx.walk(st, v, (k,))
            return st.facts.proves(imp(cx.variant_is(v, k[1]), self.rel(n, p)))
        return False


def rem(p, w):
    return lin.divmod_syms(p, w)[1]


def ingrid(kind, p, w, h):
    """the neighbour of cell p in that direction exists"""
    if kind == 'right':
        return conj([ge(w - 2 - rem(p, w)), ge(w * h - 2 - p), ge(p)])
    if kind == 'down':
        return conj([ge(w * h - 1 - p - w), ge(p)])
    if kind == 'left':
        return conj([ge(rem(p, w) - 1), ge(p - 1)])
    return ge(p - w)


DELTA = {'Right': ('right', lambda c, w: c + 1), 'Down': ('down', lambda c, w: c + w),
         'Left': ('left', lambda c, w: c - 1), 'Up': ('up', lambda c, w: c - w)}


def elements(st, cx, r):
    """the Vec inside the structure behind a reference"""
    v = models.deref(cx, st, r)
    if v[0] == 'S':
        for i, f in enumerate(v[2]):
            if isinstance(f, tuple) and f[0] == 'Q':
                return f
    raise Unsupported('disjoint set without a vector')


def h_find(cx, st, c):
    q = elements(st, cx, c.args[0])
    n = q[2] - q[1]
    i = models.poly(c.args[1])
    if not st.decide(ge(n - 1 - i)):
        return models.none(c.dty)
    k = declare(cx.fresh(st, 'root'), 0, U64)
    st.assume(ge(n - 1 - k))
    cx.emit(st, 'find', i, k)
    return models.some(k, c.dty)


def h_common(cx, st, c):
    q = elements(st, cx, c.args[0])
    n = q[2] - q[1]
    a, b = models.poly(c.args[1]), models.poly(c.args[2])
    if not st.decide(ge(n - 1 - a)) or not st.decide(ge(n - 1 - b)):
        return models.none(c.dty)
    s = ('b', cx.fresh(st, 'common'))
    cx.emit(st, 'common', a, b, s)
    return models.some(s, c.dty)


def h_union(cx, st, c):
    q = elements(st, cx, c.args[0])
    n = q[2] - q[1]
    a, b = models.poly(c.args[1]), models.poly(c.args[2])
    if not st.decide(ge(n - 1 - a)) or not st.decide(ge(n - 1 - b)):
        return models.none(c.dty)
    cx.emit(st, 'union', a, b)
    k = declare(cx.fresh(st, 'root'), 0, U64)
    st.assume(ge(n - 1 - k))
    return models.some(k, c.dty)


def h_pop(cx, st, c):
    """the search queue: never empty before every cell of the bottom row was seen (C09 and C10)"""
    base, path, lo, hi, q = models.seqof(cx, st, c.args[0])
    if tail(tyname(cx, q[5])) == 'usize':
        st.assume(ge(hi - lo - 1))
        if st.facts.infeasible():
            raise Dead()
    return models.pop_front(cx, st, c)


HOOKS = {('fn', 'find'): h_find, ('fn', 'common_set'): h_common, ('fn', 'union'): h_union,
         ('model', 'VecDeque.pop_front'): h_pop}
EVENTS = {'find', 'common', 'union', 'rnd', 'push', 'pop', 'swap_remove', 'remove', 'store'}


def setup(cx):
    def open_templates(cx, S0, l):
        a = cx.maze_args
        out = []
        for k in ('right', 'down'):
            fi = field(cx, l.ty, k)
            if fi is not None:
                out.append(Open(fi, k, a[0], a[1]))
        return out

    def path_templates(cx, S0, l):
        out = []
        for i, v in enumerate(cx.T[l.ty]['variants']):
            if len(v['fields']) == 1 and cx.T[v['fields'][0][1]]['s'] == 'usize':
                out.append(Adj((('v', i, 0),), cx.maze_args[0]))
        return out
    cx.elem_templates['MazeNode'] = [open_templates]
    for t in cx.T.values():
        if t['k'] == 'adt' and t['enum'] and t.get('local') and 'maze' in t['def']:
            cx.elem_templates.setdefault(tail(t['s']), []).append(path_templates)


_run = {}


def run(d):
    if 'r' not in _run:
        def assume(cx, st, a):
            cx.maze_args = a
            return [ge(const(MAXLEN - 1) - a[0] * a[1])]
        _run['r'] = Run(d, 'create_maze', HOOKS, EVENTS, assume, setup, opts={'final_cap': 200})
    return _run['r']


def same_pair(st, a, b, x, y):
    f = st.facts
    return (f.proves(eq(a - x)) and f.proves(eq(b - y))) or (f.proves(eq(a - y)) and f.proves(eq(b - x)))


def carves(cx, ev):
    """(position in ev, kind, cell, opened?) of every change to a wall"""
    out = []
    for n, e in enumerate(ev):
        if e[0] != 'store' or elem_name(cx, e[6]) != 'MazeNode':
            continue
        _, base, path, p, rest, v, q = e
        for k in ('right', 'down'):
            fi = field(cx, q[5], k)
            if fi is None:
                continue
            if rest == (fi,):
                out.append((n, k, p, v))
            elif rest == () and v[0] == 'S':
                out.append((n, k, p, v[2][fi]))
            elif rest == ():
                out.append((n, k, p, None))
    return out


def wall_changes(cx, st, ev):
    """carves with the value the wall had before taken out"""
    res = []
    for n, k, p, v in carves(cx, ev):
        e = ev[n]
        fi = field(cx, e[6][5], k)
        old, s = read(cx, st, e[6], p, (fi,))
        if v is not None and old is not None and (v == old or s.known(v) is not None and s.known(v) == s.known(old)):
            continue
        res.append((n, k, p, v))
    return res


def where(rec, R):
    return rec.fn.short() if rec is not None else R.fn.short()


def carve_rules(d, r):
    """C08; returns the exits found"""
    R = run(d)
    if not R.report(r, panics=False):
        return None
    cx, (w, h) = R.cx, R.args[:2]
    exits, carved, unions = [], 0, 0
    vecs = set()
    for kind, rec, st, ev in segments(R.results):
        f = st.facts
        where_ = where(rec, R)
        us = [(n, e) for n, e in enumerate(ev) if e[0] == 'union']
        used = set()
        for n, k, p, v in wall_changes(cx, st, ev):
            if v is None or st.known(v) is not False:
                r.bad('walls only open', where_, 'a %s wall of cell %s is given the value %s' % (k, pp(p), v))
                continue
            nb = DELTA[{'right': 'Right', 'down': 'Down'}[k]][1](p, w)
            hit = [(m, e) for m, e in us if m not in used and same_pair(st, p, nb, e[1], e[2])]
            if not hit:
                if k == 'down' and kind == 'end' and f.proves(ge(p + w - w * h)):
                    exits.append((st, ev, p))
                    r.ok('exit in the bottom row', where_, 'cell %s' % pp(p))
                else:
                    r.bad('opened wall joins two sets', where_,
                          'the %s wall of cell %s is opened but its two cells are not united' % (k, pp(p)))
                continue
            m, u = hit[0]
            used.add(m)
            carved += 1
            vecs.add((ev[n][1], ev[n][2]))
            if m > n:
                other = [x for x, _ in us if n < x < m]
            r.check(f.proves(ingrid(k, p, w, h)), 'opened wall leads into the grid', where_,
                    '%s wall of cell %s' % (k, pp(p)))
            first = min(m, n)
            sep = False
            finds = {}
            for x, e in enumerate(ev[:max(m, 0)]):
                if e[0] == 'union':
                    sep, finds = False, {}
                elif e[0] == 'common' and same_pair(st, e[1], e[2], p, nb):
                    sep = st.known(e[3]) is False
                elif e[0] == 'find':
                    finds[e[1]] = e[2]
            if not sep:
                fa = [v_ for i, v_ in finds.items() if f.proves(eq(i - p))]
                fb = [v_ for i, v_ in finds.items() if f.proves(eq(i - nb))]
                sep = any(f.proves(ne(a - b)) for a in fa for b in fb)
            r.check(sep, 'united cells were in different sets', where_,
                    'cells %s and %s are united on a path that has not established that they are separate' % (pp(p), pp(nb)))
        for m, e in us:
            unions += 1
            r.check(m in used, 'united cells get a passage', where_,
                    'cells %s and %s are united without opening the wall between them' % (pp(e[1]), pp(e[2])))
        # a call that makes sets anew would forget unions
    # the grid is all walls before the first carving
    seen = {}
    for kind, rec, st, ev in segments(R.results):
        for e in ev:
            if e[0] == 'loop':
                seen.setdefault(id(e[1]), (e[1], rec))
    outer = [x for x, up in seen.values() if any(l.kind == 'content' and (l.key, l.path[:-1]) in vecs for l in x.leaves)
             and (up is None or not any((l.key, l.path[:-1]) in vecs for l in up.leaves))]
    for rec in outer:
        for base, path in vecs:
            q = seq_in(cx, rec.entry, base, path)
            if q is None:
                continue
            s = rec.entry
            r.check(s.facts.proves(eq(q[2] - q[1] - w * h)), 'one node per cell', rec.fn.short(), 'length %s' % pp(q[2] - q[1]))
            i = declare('any', 0, MAXLEN)
            s2 = s.copy()
            s2.assume(ge(q[2] - q[1] - i - 1))
            v, s3 = read(cx, s2, q, i)
            ok = v is not None and v[0] == 'S' and all(s3.known(v[2][field(cx, q[5], k)]) is True for k in ('right', 'down'))
            r.check(ok, 'every wall starts closed', rec.fn.short(), 'initial node %s' % str(v)[:120])
    if not carved or not outer:
        r.undecided(R.fn.short(), 'no carving of passages recognised')
    r.note('passages', ['%d carvings, %d unions' % (carved, unions)])
    return exits


def carving(d, g, deep):
    r = Report('C08', 'proof', ENG,
               'In every path of every loop iteration of create_maze: a wall that is opened lies between two cells of the grid, '
               'which the same path unites, after having established that they were in different sets with no union in between; every union opens '
               'exactly that wall; no wall is closed again; all walls are closed before; the only other opening is one down wall of a bottom cell at the end.', TRUST)
    ex = carve_rules(d, r)
    if ex is not None:
        for st, v in run(d).results:
            n = sum(1 for s, _, _ in ex if s is st)
            if n > 1:
                r.bad('one exit', 'create_maze', '%d openings in the bottom boundary' % n)
    return r


KINDS = ('right', 'down', 'left', 'up')
NB = {'right': lambda c, w: c + 1, 'down': lambda c, w: c + w, 'left': lambda c, w: c - 1, 'up': lambda c, w: c - w}


def loops_of(R):
    """every loop met: record -> record of the loop around it (or None)"""
    out = {}
    for kind, rec, st, ev in segments(R.results):
        for e in ev:
            if e[0] == 'loop':
                out.setdefault(id(e[1]), (e[1], rec))
    return list(out.values())


def disposed(st, ev, upto, c, k, w, h):
    """how the neighbour of c in direction k was dealt with on this path"""
    f = st.facts
    n = NB[k](c, w)
    if f.proves(neg(ingrid(k, c, w, h))):
        return 'outside'
    for e in ev:
        if e[0] == 'union' and same_pair(st, e[1], e[2], c, n):
            return 'united'
        if e[0] == 'common' and same_pair(st, e[1], e[2], c, n) and st.known(e[3]) is True:
            return 'already connected'
    fa = [e[2] for e in ev if e[0] == 'find' and f.proves(eq(e[1] - c))]
    fb = [e[2] for e in ev if e[0] == 'find' and f.proves(eq(e[1] - n))]
    if any(f.proves(eq(a - b)) for a in fa for b in fb):
        return 'already connected'
    return None


def spanning(d, g, deep):
    r = Report('C09', 'proof', ENG,
               'Depth-first exploration invariant of create_maze: the exploration starts with one cell and all four directions open for every cell; '
               'a direction of a cell is struck off only when its neighbour is outside the grid, already connected, or united in the same step and then explored; '
               'a cell is left only when no direction remains; exploration ends only when nothing is left to explore.', TRUST)
    R = run(d)
    if not R.report(r, panics=False):
        return r
    cx, (w, h) = R.cx, R.args[:2]
    segs = segments(R.results)
    stacks, opts = set(), set()
    for kind, rec, st, ev in segs:
        for e in ev:
            if e[0] in ('swap_remove', 'remove', 'pop') and elem_name(cx, e[5]) == 'MazeDirection':
                p = e[2]
                if p and isinstance(p[-1], tuple) and p[-1][0] == 'i':
                    opts.add((e[1], p[:-1]))
        if any(e[0] == 'union' for e in ev):
            for e in ev:
                if e[0] == 'push' and elem_name(cx, e[5]) == 'usize':
                    stacks.add((e[1], e[2]))
    if len(stacks) != 1 or len(opts) != 1:
        r.undecided(R.fn.short(), 'depth-first exploration with a stack and per-cell directions not recognised')
        return r
    stack, opt = next(iter(stacks)), next(iter(opts))
    # -- initial state: the entry of the loop that pops the stack
    outer = None
    for rec, up in loops_of(R):
        if any((l.key, l.path[:-1]) == stack for l in rec.leaves) and (up is None or not any((l.key, l.path[:-1]) == stack for l in up.leaves)):
            outer = rec
    if outer is None:
        r.undecided(R.fn.short(), 'exploration loop not recognised')
        return r
    s0 = outer.entry
    q, o = seq_in(cx, s0, *stack), seq_in(cx, s0, *opt)
    if q is None or o is None:
        r.undecided(outer.fn.short(), 'initial state of the exploration not recognised')
        return r
    r.check(s0.facts.proves(eq(q[2] - q[1] - 1)), 'exploration starts with one cell', outer.fn.short(), 'stack of %s' % pp(q[2] - q[1]))
    r.check(s0.facts.proves(eq(o[2] - o[1] - w * h)), 'directions for every cell', outer.fn.short(), 'length %s' % pp(o[2] - o[1]))
    i = declare('any', 0, MAXLEN)
    s2 = s0.copy()
    s2.assume(ge(o[2] - o[1] - i - 1))
    v, s3 = read(cx, s2, o, i)
    names = set()
    if v is not None and v[0] == 'Q' and (v[2] - v[1]).const is not None:
        for j in range((v[2] - v[1]).const):
            x, _ = read(cx, s3, v, v[1] + j)
            names.add(vname(cx, s3, x) if x is not None and x[0] in ('E', 'SE') else None)
        r.check(names == set(DELTA), 'all four directions at the start', outer.fn.short(), 'directions %s' % sorted(map(str, names)))
    else:
        r.undecided(outer.fn.short(), 'initial directions of a cell not recognised')
        return r
    # -- every step
    fates = {}
    pops = pushes = 0
    for kind, rec, st, ev in segs:
        if rec is None or not in_loop(R, rec, outer):
            continue
        f = st.facts
        at = where(rec, R)
        for n, e in enumerate(ev):
            if e[0] in ('swap_remove', 'remove', 'pop') and elem_name(cx, e[5]) == 'MazeDirection' and (e[1], e[2][:-1]) == opt:
                c = e[2][-1][1]
                d_ = vname(cx, st, e[4]) if e[4][0] in ('E', 'SE') else None
                if d_ is None:
                    r.bad('direction examined', at, 'a direction is struck off without being looked at')
                    continue
                ks = {k for k in KINDS if disposed(st, ev, n, c, k, w, h)}
                fates.setdefault(d_, []).append((ks, at, c))
            if e[0] == 'store' and (e[1], e[2][:len(opt[1])]) == opt and e[1] == opt[0]:
                r.bad('directions only struck off', at, 'the directions of a cell are overwritten')
            if e[0] == 'push' and elem_name(cx, e[5]) == 'MazeDirection' and e[1] == opt[0] and e[2][:-1] == opt[1]:
                pass
            if e[0] == 'union':
                after = [x for x in ev[n + 1:] if x[0] == 'push' and (x[1], x[2]) == stack] + [x for x in ev[:n] if x[0] == 'push' and (x[1], x[2]) == stack]
                ok = any(f.proves(eq(x[4] - e[2])) or f.proves(eq(x[4] - e[1])) for x in after if isinstance(x[4], Poly))
                r.check(ok, 'a united cell is explored', at, 'cells %s and %s are united but the new one is not put on the stack' % (pp(e[1]), pp(e[2])))
                # the new cell is not the one being explored
                cs = [x[2][-1][1] for x in ev if x[0] in ('swap_remove', 'remove', 'pop') and elem_name(cx, x[5]) == 'MazeDirection']
                for x in after:
                    if cs and isinstance(x[4], Poly):
                        r.check(f.proves(ne(x[4] - cs[-1])), 'the new cell is explored', at, 'pushed %s' % pp(x[4]))
            if e[0] in ('pop',) and (e[1], e[2]) == stack:
                pops += 1
                c = e[4]
                qs = seq_in(cx, st, *opt)
                v, s5 = read(cx, st, qs, c) if qs is not None else (None, st)
                ok = v is not None and v[0] == 'Q' and s5.facts.proves(eq(v[2] - v[1]))
                r.check(ok, 'a cell is left only when nothing remains', at, 'cell %s is dropped with directions left' % pp(c))
            if e[0] in ('swap_remove', 'remove', 'store') and (e[1], e[2]) == stack:
                r.bad('stack discipline', at, '%s on the stack of cells' % e[0])
            if e[0] == 'push' and (e[1], e[2]) == stack:
                pushes += 1
    # one neighbour per direction, all four
    poss = {d_: set.intersection(*[set(ks) for ks, _, _ in l]) for d_, l in fates.items()}
    for d_, l in fates.items():
        std = DELTA[d_][0] if d_ in DELTA else None
        for ks, at, c in l:
            r.check(bool(ks) if std is None else std in ks or bool(poss[d_]), 'direction dealt with', at,
                    '%s is struck off for cell %s although the neighbour may be in the grid and unconnected' % (d_, pp(c)))
    import itertools
    ds = sorted(fates)
    ok = any(all(k in poss[d_] for d_, k in zip(ds, perm)) for perm in itertools.permutations(KINDS, len(ds))) if len(ds) <= 4 else False
    r.check(ok and len(ds) == 4, 'four directions, four neighbours', outer.fn.short(), 'directions %s stand for %s' % (ds, {k: sorted(v) for k, v in poss.items()}))
    # -- the exploration ends with an empty stack
    n = 0
    for kind, rec, st, ev in segs:
        if any(e[0] == 'loop' and e[1] is outer for e in ev):
            q1 = seq_in(cx, st, *stack)
            if q1 is None:
                s_end = exit_facts(cx, st, outer, stack)
                ok = s_end
            else:
                ok = st.facts.proves(eq(q1[2] - q1[1]))
            n += 1
            r.check(ok, 'exploration runs until the stack is empty', outer.fn.short(), 'the loop can be left with cells on the stack')
    if not pops or not pushes or not n:
        r.undecided(outer.fn.short(), 'the steps of the exploration were not recognised')
    r.note('steps', ['%d pops, %d pushes, %d struck-off directions' % (pops, pushes, sum(map(len, fates.values())))])
    return r


def exit_facts(cx, st, rec, stack):
    """the stack is gone: its end, in terms of the loop head, is known from the facts of the exit"""
    q = seq_in(cx, rec.head, *stack)
    return q is not None and st.facts.proves(eq(q[2] - q[1]))


def in_loop(R, rec, outer):
    ups = {id(a): b for a, b in loops_of(R)}
    while rec is not None:
        if rec is outer:
            return True
        rec = ups.get(id(rec))
    return False


def bottom_counter(cx, rec, l, queue, w, h):
    """leaf l goes up by one when the cell taken is in the bottom row and stays otherwise"""
    if any(isinstance(x, str) and x.startswith('#') for x in l.path):
        return False
    changed = False
    for b in rec.backs:
        v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
        takes = [e for e in b.events() if e[0] == 'pop' and (e[1], e[2]) == queue]
        if not isinstance(v, Poly) or len(takes) != 1:
            return False
        low = ge(takes[0][4] + w - w * h)
        f = b.facts
        if f.proves(eq(v - l.h - 1)) and f.proves(low):
            changed = True
        elif not (f.proves(eq(v - l.h)) and f.proves(neg(low))):
            return False
    return changed


def solution(d, g, deep):
    r = Report('C10', 'proof', ENG,
               'Search tree of create_maze: a cell gets a parent only when it is adjacent to it through an opened wall, has none yet, and is then queued; '
               'every taken cell has all four neighbours examined; the walk back from the exit cell pushes, for each step, the direction from the parent to the cell, '
               'and stops only at the root, which is cell 0; the exit is the down wall of the bottom-row cell where the walk starts.', TRUST)
    R = run(d)
    if not R.report(r, panics=False):
        return r
    cx, (w, h) = R.cx, R.args[:2]
    segs = segments(R.results)
    # the tree: the sequence of enum elements stored to with a payload
    trees, queues, sols = set(), set(), set()
    for kind, rec, st, ev in segs:
        for e in ev:
            if e[0] == 'store' and e[6][5] is not None and cx.T[e[6][5]]['k'] == 'adt' and cx.T[e[6][5]]['enum'] \
                    and elem_name(cx, e[6]) != 'MazeDirection' and e[5][0] == 'E':
                trees.add((e[1], e[2]))
            if e[0] == 'push' and elem_name(cx, e[5]) == 'MazeDirection' and not (e[2] and isinstance(e[2][-1], tuple)):
                sols.add((e[1], e[2]))
    for kind, rec, st, ev in segs:
        if any(e[0] == 'store' and (e[1], e[2]) in trees for e in ev):
            for e in ev:
                if e[0] == 'push' and elem_name(cx, e[5]) == 'usize':
                    queues.add((e[1], e[2]))
    if len(trees) != 1 or len(queues) != 1 or len(sols) != 1:
        r.undecided(R.fn.short(), 'search tree, queue and solution not recognised (%d, %d, %d)' % (len(trees), len(queues), len(sols)))
        return r
    tree, queue, sol = next(iter(trees)), next(iter(queues)), next(iter(sols))
    search = walk = None
    for rec, up in loops_of(R):
        mods = {(l.key, l.path[:-1]) for l in rec.leaves} | {(l.key, l.path) for l in rec.leaves}
        if queue in mods:
            search = rec
        if sol in mods:
            walk = rec
    tq = seq_in(cx, search.head, *tree) if search else None
    if search is None or walk is None or tq is None:
        r.undecided(R.fn.short(), 'search and walk back not recognised')
        return r
    T_ = cx.T[tq[5]]['variants']
    link = [i for i, v in enumerate(T_) if len(v['fields']) == 1]
    if len(link) != 1:
        r.undecided(R.fn.short(), 'entry of the search tree not recognised')
        return r
    link = link[0]
    at = search.fn.short()
    # -- entry: one root, cell 0, queued; everything else the unvisited value
    s0 = search.entry
    t0, q0 = seq_in(cx, s0, *tree), seq_in(cx, s0, *queue)
    unv = root = None
    if t0 is None or q0 is None:
        r.undecided(at, 'initial search state not recognised')
        return r
    x, _ = read(cx, s0, t0, t0[1])
    i = declare('anycell', 1, MAXLEN)
    s2 = s0.copy()
    s2.assume(ge(t0[2] - t0[1] - i - 1))
    y, _ = read(cx, s2, t0, t0[1] + i)
    if x is not None and x[0] == 'E' and y is not None and y[0] == 'E':
        root, unv = x[2], y[2]
    r.check(root is not None and root != unv and link not in (root, unv), 'cell 0 is the root and nothing else is visited', at, 'entry of cell 0: %s, of the others: %s' % (x, y))
    z, _ = read(cx, s0, q0, q0[1])
    r.check(isinstance(z, Poly) and s0.facts.proves(eq(z)) and s0.facts.proves(eq(q0[2] - q0[1] - 1)), 'the search starts at cell 0', at, 'queue of %s starting with %s' % (pp(q0[2] - q0[1]), z))
    r.check(s0.facts.proves(eq(t0[2] - t0[1] - w * h)), 'one entry per cell', at, 'length %s' % pp(t0[2] - t0[1]))
    if unv is None:
        return r
    # -- the walls during the search
    gridp = None
    for kind, rec, st, ev in segs:
        for e in ev:
            if e[0] == 'store' and elem_name(cx, e[6]) == 'MazeNode':
                q = seq_in(cx, search.head, e[1], e[2])
                if q is not None and q[0] == 'Q' and q[3][0] == 'gen' and elem_name(cx, q) == 'MazeNode':
                    gridp = q
    if gridp is None:
        for k_, v_ in search.head.mem.items():
            if isinstance(v_, tuple) and v_ and v_[0] == 'Q' and elem_name(cx, v_) == 'MazeNode':
                gridp = v_
    if gridp is None:
        r.undecided(at, 'the walls are not where the search can see them')
        return r
    head = tq
    nseg = 0
    for kind, rec, st, ev in segs:
        if rec is None or not in_loop(R, rec, search):
            continue
        if rec is not search:
            continue
        f = st.facts
        takes = [e for e in ev if e[0] == 'pop' and (e[1], e[2]) == queue]
        if len(takes) != 1:
            r.bad('one cell taken per step', at, '%d cells are taken from the queue in one step' % len(takes))
            continue
        nseg += 1
        t = takes[0]
        c = t[4]
        r.check(f.proves(eq(t[3] - t[5][1])), 'first in, first out', at, 'the cell taken is not the oldest one')
        stored = []
        for n, e in enumerate(ev):
            if e[0] == 'store' and (e[1], e[2]) == tree:
                p, v, qb = e[3], e[5], e[6]
                if e[4] != () or v[0] != 'E' or v[2] != link:
                    r.bad('visited cells stay visited', at, 'entry of cell %s is changed to %s' % (pp(p), str(v)[:80]))
                    continue
                old, s3 = read(cx, st, qb, p)
                r.check(old is not None and s3.known(cx.variant_is(old, unv)) is True, 'only unvisited cells get a parent', at, 'cell %s' % pp(p))
                r.check(isinstance(v[3][0], Poly) and f.proves(eq(v[3][0] - c)), 'the parent is the cell taken', at, 'parent %s, taken %s' % (v[3][0], pp(c)))
                good = False
                for k in KINDS:
                    if f.proves(eq(p - NB[k](c, w))) and passage(cx, st, gridp, c, k, w, h) is True:
                        good = True
                r.check(good, 'the parent is next to it through an open wall', at, 'cell %s from %s' % (pp(p), pp(c)))
                nxt = [x for x in ev if x[0] == 'push' and (x[1], x[2]) == queue and f.proves(eq(x[4] - p))]
                r.check(bool(nxt), 'a visited cell is queued', at, 'cell %s is not queued' % pp(p))
                stored.append(p)
            if e[0] == 'push' and (e[1], e[2]) == queue:
                ok = any(x[0] == 'store' and (x[1], x[2]) == tree and f.proves(eq(x[3] - e[4])) for x in ev)
                r.check(ok, 'only newly visited cells are queued', at, 'cell %s is queued without being marked' % pp(e[4]))
                r.check(f.proves(eq(e[3] - e[5][2])), 'first in, first out', at, 'cell %s is not queued last' % pp(e[4]))
        for k in KINDS:
            n = NB[k](c, w)
            if any(f.proves(eq(p - n)) for p in stored):
                continue
            s4 = st.copy()
            s4.assume(ingrid(k, c, w, h))
            ok = s4.facts.infeasible()
            if not ok:
                s4.assume(ge(n))
                old, s5 = read(cx, s4, head, n)
                cell, name = (c if k in ('right', 'down') else n), {'left': 'right', 'up': 'down'}.get(k, k)
                wall, s6 = read(cx, s5, gridp, cell)
                ok = old is not None and wall is not None and s6.facts.proves(
                    disj([wall[2][field(cx, gridp[5], name)], neg(cx.variant_is(old, unv))]))
            r.check(ok, 'all four neighbours examined', at, 'the %s neighbour of cell %s may be open, unvisited and skipped' % (k, pp(c)))
    # -- the exit and the walk back
    cur = None
    for l in walk.leaves:
        if l.kind == 'int' and l.v0 is not None and not any(isinstance(x, str) and x.startswith('#') for x in l.path):
            vals = [loops.leaf(cx, b, b.mem[l.key], l.path) for b in walk.backs]
            tw = seq_in(cx, walk.head, *tree)
            ok = True
            for b, v in zip(walk.backs, vals):
                x, s6 = read(cx, b, tw, l.h) if tw is not None else (None, b)
                pay = cx.walk(s6, x, (('v', link, 0),)) if x is not None and x[0] == 'SE' else None
                ok = ok and isinstance(v, Poly) and isinstance(pay, Poly) and s6.facts.proves(eq(v - pay))
            if ok:
                cur = l
    if cur is None:
        r.undecided(walk.fn.short(), 'the walk back does not follow the parents in a recognised way')
        return r
    nb = 0
    for b in walk.backs:
        f = b.facts
        new = loops.leaf(cx, b, b.mem[cur.key], cur.path)
        ps = [e for e in b.events() if e[0] == 'push' and (e[1], e[2]) == sol]
        if len(ps) != 1:
            r.bad('one direction per step', walk.fn.short(), '%d directions are recorded for one step' % len(ps))
            continue
        d_ = vname(cx, b, ps[0][4])
        nb += 1
        if d_ not in DELTA:
            r.bad('direction known', walk.fn.short(), str(ps[0][4])[:80])
            continue
        k, fn_ = DELTA[d_]
        r.check(f.proves(eq(fn_(new, w) - cur.h)), 'direction leads from parent to cell', walk.fn.short(), '%s is recorded for a step from %s to %s' % (d_, pp(new), pp(cur.h)))
        if k in ('left', 'right'):
            r.check(f.proves(ge(w - 2)), 'sideways only when there is a column beside', walk.fn.short(), '%s is recorded in a maze of width one' % d_)
        r.check(f.proves(eq(ps[0][3] - ps[0][5][2])), 'directions in walking order', walk.fn.short(), 'not appended')
    tw = seq_in(cx, walk.head, *tree)
    for st, v in R.results:
        ev = st.events()
        if not any(e[0] == 'loop' and e[1] is walk for e in ev):
            continue
        f = st.facts
        x, s7 = read(cx, st, tw, cur.h)
        r.check(x is not None and s7.known(cx.variant_is(x, link)) is False, 'the walk ends only at the root', walk.fn.short(), 'it may stop at a cell with a parent')
        start = cur.v0
        ex = [e for e in ev if e[0] == 'store' and elem_name(cx, e[6]) == 'MazeNode']
        fi = field(cx, gridp[5], 'down')
        ok = len(ex) == 1 and ex[0][4] == (fi,) and st.known(ex[0][5]) is False and f.proves(eq(ex[0][3] - start))
        r.check(ok, 'the exit is below the cell where the solution ends', walk.fn.short(), 'opened: %s, walk starts at %s' % ([pp(e[3]) for e in ex], pp(start)))
        if isinstance(start, Poly):
            r.check(f.proves(ge(start + w - w * h)) and f.proves(ge(w * h - 1 - start)), 'the solution ends in the bottom row', walk.fn.short(), 'cell %s' % pp(start))
            takes = [e for e in ev if e[0] == 'pop' and (e[1], e[2]) == queue]
            r.check(any(f.proves(eq(e[4] - start)) for e in takes), 'the exit cell was reached', walk.fn.short(), 'cell %s was not taken from the queue' % pp(start))
            # the last of the bottom cells: a counter of the bottom cells taken so far
            count = [l for l in search.leaves if l.kind == 'int' and l.v0 is not None and bottom_counter(cx, search, l, queue, w, h)]
            if count:
                r.check(any(f.proves(eq(l.h - l.v0 - w + 1)) for l in count), 'the exit is the last bottom cell to be reached', walk.fn.short(),
                        'the search may end before every bottom cell was reached')
            else:
                r.undecided(walk.fn.short(), 'how the search finds the last bottom cell is not recognised')
        qs = [x for x in v[2]] if v[0] == 'S' else []
        names = [content(q) for q in qs if isinstance(q, tuple) and q[0] == 'Q']
        sq, gq = seq_in(cx, walk.head, *sol), gridp
        r.check(sq is not None and content(sq) in names and content(gq) in names, 'the result is the grid and the walk', walk.fn.short(), 'returned %s' % names)
        s0w = seq_in(cx, walk.entry, *sol)
        r.check(s0w is not None and walk.entry.facts.proves(eq(s0w[2] - s0w[1])), 'the solution starts empty', walk.fn.short(), '')
    if not nseg or not nb:
        r.undecided(R.fn.short(), 'no search step recognised')
    r.note('steps', ['%d search paths, %d walk-back paths' % (nseg, nb)])
    return r


def passage(cx, st, q, c, k, w, h):
    """is the wall between c and its neighbour known open (True) / closed or absent (False) / unknown"""
    cell = c if k in ('right', 'down') else NB[k](c, w)
    name = {'right': 'right', 'left': 'right', 'down': 'down', 'up': 'down'}[k]
    if st.facts.proves(neg(ingrid(k, c, w, h))):
        return False
    s = st.copy()
    if k in ('left', 'up'):
        s.assume(ge(cell))
    fi = field(cx, q[5], name)
    v, s2 = read(cx, s, q, cell)
    if v is None or v[0] != 'S' or not is_bool(v[2][fi]):
        return None
    b = v[2][fi]
    if s2.facts.proves(b):
        return False
    if s2.facts.proves(neg(b)) and s2.facts.proves(ingrid(k, c, w, h)):
        return True
    if k in ('left', 'up') and s2.facts.proves(disj([b, neg(ingrid(k, c, w, h))])):
        return False
    return None


def no_panic(d, g, deep):
    r = Report('C17', 'proof', ENG,
               'Every index, slice, division, subtraction, addition, multiplication, unwrap/expect, assertion and explicit panic reachable from create_maze, '
               'print_maze and print_maze_solution is proven not to fire.',
               TRUST + ['width * height < 2^31 in create_maze; sides of the image given to print_maze_solution < 2^31',
                        'the search queue of create_maze is not empty before the whole bottom row was reached (follows from C08, C09 and C10)'])
    run(d).report(r)
    Run(d, 'print_maze').report(r)

    def small(cx, st, a):
        im = a[0]
        return [ge(const(MAXLEN - 1) - im[1]), ge(const(MAXLEN - 1) - im[2])] if im[0] == 'IMG' else []
    Run(d, 'print_maze_solution', assume=small).report(r)
    return r
