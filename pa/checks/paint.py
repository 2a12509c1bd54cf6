"""Pictures: what is painted is what the specification says, and all of it is painted.

A specification is a list of clauses.  A clause is a family of points: parameters with ranges, the point they stand for, the
condition under which it is painted, and the colour.
Soundness: every painting event of every stretch of execution lies in some clause, by the facts of its path.
Completeness: for every clause the loops of each successful execution run through all parameters, and every iteration for which
the condition may hold paints the point."""
from .common import *
from ..interp import Fork
from .. import models

I32 = (-2**31, 2**31 - 1)


class Clause:
    """kind: put | text
    params: list of alternatives, each a list of (name, lo, hi) and a function env -> (x, y) or (x, y, text)
    cond: env -> formula (a state and env are given)
    pred: for put: (cx, st, cell, x, y) -> formula; cell is a candidate of `cells`"""

    def __init__(self, name, colour, alts, pred=None, cells=None, cond=None, kind='put', text=None):
        self.name, self.colour, self.alts, self.pred, self.cells, self.cond, self.kind, self.text = name, colour, alts, pred, cells, cond, kind, text


def rgb(v):
    """the channels of a pixel value, or None"""
    try:
        q = v[2][0]
        if q[0] == 'Q' and q[3][0] == 'arr' and not q[4]:
            return tuple(x.const for x in q[3][1])
        if q[0] == 'Q' and q[3][0] == 'fill' and not q[4]:
            return (q[3][1].const,) * (q[2] - q[1]).const
    except (TypeError, IndexError, AttributeError):
        pass
    return None


class Picture:
    def __init__(self, R, r, where):
        self.R, self.r, self.where, self.cx = R, r, where, R.cx
        self.loops = {}
        self.lost = False
        for st, v in R.results:
            for l in all_loops(st):
                self.loops[id(l)] = l
        self.cnt = {id(l): counters(self.cx, l) for l in self.loops.values()}
        self.down = {id(l): falling(self.cx, l) for l in self.loops.values()}
        self.counters = [c for cs in self.cnt.values() for c in cs]
        self.wild = set()      # symbols of loop values that are no counters
        for l in self.loops.values():
            good = {id(c) for c in self.cnt[id(l)]} | {id(c) for c in self.down[id(l)]}
            for x in l.leaves:
                if x.kind == 'int' and id(x) not in good:
                    self.wild |= set(x.h.syms())
        self.wild -= {s for c in self.counters for s in c.h.syms()}
        while True:
            more = {s for c in self.counters if isinstance(c.v0, Poly) and c.v0.syms() & self.wild for s in c.h.syms()} - self.wild
            if not more:
                break
            self.wild |= more

    def strange(self, *ps):
        """some of the polynomials depend on a loop value that is no counter"""
        import re
        names = set()
        for p in ps:
            if isinstance(p, Poly):
                names |= set(p.syms())
        return any(w in n for n in names for w in self.wild)

    def strange_reads(self, st):
        """an element is read at an index that depends on a loop value that is no counter"""
        for f in st.facts.items():
            for n in lin.fsyms(f):
                if '[' in n and any(w in n for w in self.wild):
                    return True
        return False

    def candidates(self, st, n=None):
        """cells a stretch of execution may be working on: numbers of completed iterations"""
        ks = []
        syms = set()
        for f in st.facts.items():
            syms |= set(lin.fsyms(f))
        for c in self.counters:
            if set(c.h.syms()) & syms:
                k = c.h - c.v0 if isinstance(c.v0, Poly) else c.h
                if k not in ks:
                    ks.append(k)
                if c.h not in ks:
                    ks.append(c.h)
        for cs in self.down.values():
            for c in cs:
                if set(c.h.syms()) & syms and c.h - 1 not in ks:
                    ks.append(c.h - 1)
        return ks

    # ------------------------------------------------------------------------------------------ soundness
    def sound(self, image, clauses, background=None):
        cx, r = self.cx, self.r
        n = 0
        for kind, rec, st, ev in segments(self.R.results):
            for e in ev:
                if e[0] not in ('put', 'rect', 'text'):
                    continue
                n += 1
                if e[0] == 'text':
                    self.sound_text(st, e, [c for c in clauses if c.kind == 'text'])
                    continue
                s = st
                if e[0] == 'put':
                    x, y, px = e[2], e[3], e[4]
                else:
                    s = st.copy()
                    rx, ry, rw, rh = e[2][2]
                    x = declare(cx.fresh(s, 'px'), -2**33, 2**33)
                    y = declare(cx.fresh(s, 'py'), -2**33, 2**33)
                    for f in (ge(x - rx), ge(rx + rw - 1 - x), ge(y - ry), ge(ry + rh - 1 - y)):
                        s.assume(f)
                    px = e[3]
                col = rgb(px)
                if col is None:
                    r.undecided(self.where, 'a pixel is painted in an unknown colour')
                    continue
                hit = None
                cells = self.candidates(s)
                for c in clauses:
                    if c.kind != 'put' or c.colour != col:
                        continue
                    if self.lies(s, c, cells, x, y):
                        hit = c
                        break
                if hit:
                    r.ok('painted where it should be', self.where, '%s at (%s, %s)' % (hit.name, pp(x), pp(y)))
                elif self.strange(x, y) or self.strange_reads(s):
                    self.lost = True
                    r.undecided(self.where, 'painted at (%s, %s), which no counter describes' % (pp(x), pp(y)))
                else:
                    r.bad('painted where it should be', self.where, 'colour %s at (%s, %s)' % (col, pp(x), pp(y)))
        return n

    def lies(self, s, c, cells, x, y):
        cx = self.cx
        if not c.cells:
            return s.facts.proves(c.pred(cx, s, None, x, y))
        syms = set(x.syms()) | set(y.syms())
        for cell in c.cells(cx, s, cells):
            t = s.copy()
            f = c.pred(cx, t, cell, x, y)
            if f is not None and t.facts.proves(f):
                return True
        return False

    def sound_text(self, st, e, clauses):
        r, cx = self.r, self.cx
        col = rgb(e[5])
        cells = self.candidates(st)
        for c in clauses:
            if c.colour != col:
                continue
            for cell in c.cells(cx, st, cells):
                t = st.copy()
                p = c.text(cx, t, cell)
                if p is None:
                    continue
                x, y, s, f = p
                if self.at(t, e[2], x) and self.at(t, e[3], y) and t.facts.proves(f) and same_text(cx, t, e[4], s):
                    r.ok('text is what it should be, where it should be', self.where, '%s at (%s, %s)' % (c.name, pp(e[2]), pp(e[3])))
                    return
        if self.opaque(st, e[4]):
            self.lost = True
            r.undecided(self.where, 'where the text drawn at (%s, %s) comes from is not recognised' % (pp(e[2]), pp(e[3])))
        elif self.strange(*[v for v in (e[2], e[3]) if isinstance(v, Poly)]) or self.strange_reads(st):
            self.lost = True
            r.undecided(self.where, 'text at (%s, %s), which no counter describes' % (pp(e[2]), pp(e[3])))
        else:
            r.bad('text is what it should be, where it should be', self.where, 'text %s at (%s, %s)' % (str(e[4])[:80], pp(e[2]), pp(e[3])))

    def opaque(self, st, t):
        if t[0] != 'STR' or t[1][0] in ('s', 'derived'):
            return True
        if t[1][0] == 'join':
            b = built(self.cx, st, t[1][1])
            return b is None or any(self.opaque(x, e[4]) for x, e in b[1])
        return False

    def at(self, st, got, want):
        """got equals want, converted to i32"""
        if st.facts.proves(eq(got - want)):
            return True
        for v in self.other_names(st, want):
            w = self.cx.wrap(st.copy(), v, I32, 'w')
            if isinstance(w, Poly) and st.facts.proves(eq(got - w)):
                return True
        return False

    def other_names(self, st, p):
        """the same number in terms of other counters with the same value"""
        yield p
        for c in self.counters:
            for s in set(c.h.syms()) & set(p.syms()):
                for d in self.counters:
                    if d is not c and st.facts.proves(eq(d.h - c.h)):
                        yield p.subst({str(s): d.h})

    # ------------------------------------------------------------------------------------------ completeness
    def complete(self, st, image, clauses):
        r = self.r
        for c in clauses:
            ok = False
            self.blocked = False
            for params, pos in c.alts:
                if self.cover(st, st.events(), list(params), {}, c, pos, image, 0):
                    ok = True
                    break
            if ok:
                r.ok('all of it is painted', self.where, c.name)
            elif self.blocked or self.lost:
                r.undecided(self.where, 'what the loops paint is not recognised: %s' % c.name)
            else:
                r.bad('all of it is painted', self.where, '%s: some may be missing' % c.name)

    def paints(self, l, seen=None):
        for b in l.backs:
            for e in b.events():
                if e[0] in ('put', 'rect', 'text') or e[0] == 'loop' and self.paints(e[1]):
                    return True
        return False

    def cover(self, st, ev, params, env, c, pos, image, depth):
        """some event in ev paints, for all values of the parameters, the point they stand for"""
        cx = self.cx
        if depth > 6:
            return False
        # at a leaf
        for e in ev:
            if e[0] in ('put', 'rect', 'text') and self.leaf(st, e, params, env, c, pos, image):
                return True
        if not params:
            return False
        for e in ev:
            if e[0] != 'loop' or not self.paints(e[1]):
                continue
            l = e[1]
            if not self.cnt[id(l)] and not self.down[id(l)]:
                self.blocked = True
            for i, (name, lo, hi) in enumerate(params):
                lo, hi = bounds(env, lo, hi)
                if lo is None or hi is None:
                    continue
                for k, dirn in self.offsets(st, l, lo, hi):
                    rest = params[:i] + params[i + 1:]
                    env2 = dict(env)
                    env2[name] = k
                    if self.every(l, env2, rest, c, pos, image, depth, k, lo, hi):
                        return True
        # a parameter with few values
        for i, (name, lo, hi) in enumerate(params):
            lo, hi = bounds(env, lo, hi)
            if lo is None or hi is None:
                continue
            if lo.const is not None and hi.const is not None and hi.const - lo.const <= 12:
                rest = params[:i] + params[i + 1:]
                if any(self.cover(st, ev, rest, dict(env, **{name: lo}), c, pos, image, depth + 1) for _ in (0,)) and \
                   all(self.cover(st, ev, rest, dict(env, **{name: const(v)}), c, pos, image, depth + 1) for v in range(lo.const + 1, hi.const)):
                    return True
                break
        return False

    def offsets(self, st, l, lo, hi):
        """values of a parameter during an iteration of l, such that the iterations run through lo..hi"""
        for c in self.cnt[id(l)]:
            if not isinstance(c.v0, Poly):
                continue
            for k in {lo - c.v0, const(0)}:
                p = c.h + k
                if l.entry.facts.proves(ge(lo - c.v0 - k)) and st.facts.proves(ge(p - hi)):
                    yield p, 1
        for c in self.down[id(l)]:
            if not isinstance(c.v0, Poly):
                continue
            for k in {hi - c.v0, const(0)}:
                # the element of an iteration is the value after the step
                p = c.h - 1 + k
                if l.entry.facts.proves(ge(c.v0 + k - hi)) and st.facts.proves(ge(lo - c.h - k)):
                    yield p, -1

    def every(self, l, env, rest, c, pos, image, depth, p, lo, hi):
        for b in l.backs:
            s = b.copy()
            try:
                s.assume(ge(p - lo))
                s.assume(ge(hi - 1 - p))
                if s.facts.dead or s.facts.proves(F):
                    continue
                if not self.missing_ok(s, env, rest, c):
                    if not self.cover(s, b.events(), rest, env, c, pos, image, depth + 1):
                        return False
            except Dead:
                continue
        return bool(l.backs)

    def missing_ok(self, s, env, rest, c):
        """the condition of the clause is known not to hold here"""
        if c.cond is None:
            return False
        try:
            f = c.cond(self.cx, s, env)
        except KeyError:
            return False
        if f is None:
            return False
        return any(s.facts.proves(neg(x)) for x in (f if isinstance(f, list) else [f]))

    def leaf(self, st, e, params, env, c, pos, image):
        cx = self.cx
        if e[1] != image or (e[0] == 'text') != (c.kind == 'text'):
            return False
        if params and e[0] == 'put':
            return False
        if rgb(e[-1] if e[0] != 'rect' else e[3]) != c.colour:
            return False
        s = st.copy()
        env = dict(env)
        for name, lo, hi in params:
            if e[0] != 'rect':
                return False
            lo, hi = bounds(env, lo, hi)
            if lo is None or hi is None:
                return False
            p = declare(cx.fresh(s, 'pt'), -2**33, 2**33)
            s.assume(ge(p - lo))
            s.assume(ge(hi - 1 - p))
            env[name] = p
        try:
            want = pos(cx, s, env)
        except KeyError:
            return False
        if want is None:
            return False
        if e[0] == 'put':
            return s.facts.proves(eq(e[2] - want[0])) and s.facts.proves(eq(e[3] - want[1]))
        if e[0] == 'rect':
            x, y, w, h = e[2][2]
            return all(s.facts.proves(f) for f in (ge(want[0] - x), ge(x + w - 1 - want[0]), ge(want[1] - y), ge(y + h - 1 - want[1])))
        return self.at(s, e[2], want[0]) and self.at(s, e[3], want[1]) and same_text(cx, s, e[4], want[2])


def bounds(env, *bs):
    out = []
    for b in bs:
        try:
            out.append(b(env) if callable(b) else b)
        except KeyError:
            out.append(None)
    return out


def same_text(cx, st, got, want):
    """want: a text, or a list of texts and tests"""
    return any(w(got) if callable(w) else got == w for w in (want if isinstance(want, list) else [want]))


def falling(cx, rec):
    """integer leaves that every iteration decreases by exactly one"""
    out = []
    for l in rec.leaves:
        if l.kind != 'int' or any(isinstance(x, str) and x.startswith('#') for x in l.path):
            continue
        ok = bool(rec.backs)
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
            ok = ok and isinstance(v, Poly) and b.facts.proves(eq(v - l.h + 1))
        if ok:
            out.append(l)
    return out
