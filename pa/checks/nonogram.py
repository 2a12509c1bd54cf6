"""Nonograms: parsing of rules, solving, printing."""
from .common import *
from ..report import Report
from .. import models

ENG = 'abstract interpretation of MIR with inferred loop invariants'


# ---------------------------------------------------------------------------------------------- parsing
def pieces(s, sep):
    """(text expression, separator) -> number of its pieces"""
    return declare('pieces(%r,%s)' % (s, ord(sep)), 1, MAXLEN - 1)


def piece(s, sep, i):
    return ('piece', s, repr(const(ord(sep))), i)


def number(cx, s):
    """(the value of a text as a usize, formula: it is one)"""
    n = 'parse(%r:usize)' % (s,)
    return sym(n + '.Ok.0'), eq(declare(n + '.#', 0, 1))


def parsing(d, g, deep):
    r = Report('C13', 'proof', ENG + '; every path classified by what it returns',
               'Every path of parse_nonogram_rules: Ok only when every piece between ";" was examined, all its pieces between "," are numbers and their sum plus their count minus one is at most the bound, '
               'entry i,j being number j of piece i; InvalidRule only with a piece that is no number; InvalidRuleDimension only when the numbers seen so far exceed the bound.', TRUST)
    R = Run(d, 'parse_nonogram_rules', events={'push', 'store'}, opts={'ret_cap': 200})
    if not R.report(r, panics=False):
        return r
    cx = R.cx
    s, bound = R.args
    s = models.deref(cx, St(), s)[1] if s[0] != 'STR' else s[1]
    n = pieces(s, ';')
    cx.every_loop = [rec for st, v in R.results for rec in all_loops(st)]
    cx.outer_counters = {c.h for rec in cx.every_loop for c in counters(cx, rec)}
    where = R.fn.short()
    oks = errs = 0
    for st, v in R.results:
        f = st.facts
        if v[0] != 'E':
            r.undecided(where, 'result of unknown shape')
            continue
        if v[2] == 0:
            oks += 1
            q = v[3][0]
            b = built(cx, st, q) if q[0] == 'Q' else None
            if b is None:
                r.undecided(where, 'how the result is filled is not recognised')
                continue
            rec, pushes = b
            cs = [c for c in counters(cx, rec) if c.v0 == const(0)]
            r.check(f.proves(eq(q[2] - q[1] - n)), 'one rule per piece', where, 'Ok is returned with %s rules' % pp(q[2] - q[1]))
            for x, e in pushes:
                c = [c for c in cs if x.facts.proves(eq(e[3] - c.h))]
                if not c:
                    r.undecided(where, 'the index of a rule is not recognised')
                    continue
                rule_ok(cx, r, where, x, e[4], s, c, bound)
        else:
            errs += 1
            e = v[3][0]
            name = vname(cx, st, e)
            if name == 'InvalidRule':
                x = e[3][0]
                x = models.deref(cx, st, x) if x[0] in ('R', 'B') else x
                t = x[1] if x[0] == 'STR' else None
                ok = t is not None and is_piece(t, s) and f.proves(neg(number(cx, t)[1]))
                r.check(ok, 'InvalidRule names a piece that is no number', where, 'reports %s' % (str(t)[:120],))
            elif name == 'InvalidRuleDimension':
                ok, seen = False, False
                for rec, c, l in sums(cx, st):
                    t, x = summed(cx, rec, l, c, s)
                    if t is None:
                        continue
                    seen = True
                    m = pieces(t, ',')
                    done = conj([ge(c.h - m), ge(l.h - l.v0 + m - 2 - bound)])
                    early = conj([ge(m - 1 - c.h), ge(m - 1 - l.v0), ge(l.h + x - bound - 1)])
                    ok = ok or f.proves(done) or f.proves(early)
                if seen:
                    r.check(ok, 'InvalidRuleDimension only for a rule that exceeds the bound', where, 'returned on a path where the numbers may fit')
                else:
                    r.undecided(where, 'no sum of the numbers of a rule is recognised')
            else:
                r.bad('error kind', where, 'returns %s' % name)
    if not oks or not errs:
        r.undecided(where, 'no Ok or no Err path')
    return r


def is_piece(t, s):
    return t[0] == 'piece' and t[2] == '44' and t[1][0] == 'piece' and t[1][2] == '59' and t[1][1] == s


def hidden(l):
    return any(isinstance(p, str) and p.startswith('#') for p in l.path)


def sums(cx, st):
    """(loop, counter, integer that the loop changes otherwise)"""
    for rec in all_loops(st):
        cs = counters(cx, rec)
        for c in cs:
            for l in rec.leaves:
                if l.kind == 'int' and l not in cs and not hidden(l) and c.v0 == const(0):
                    yield rec, c, l


def number_lists(cx, s):
    """sequences whose entry k is number k of a rule, for all k: (text of the rule, sequence)"""
    for rec in cx.every_loop:
        for l in rec.leaves:
            if l.kind != 'content' or l.key not in rec.head.mem:
                continue
            q = loops.leaf(cx, rec.head, rec.head.mem[l.key], l.path[:-1]) if len(l.path) > 1 else rec.head.mem[l.key]
            b = built(cx, cx.every_loop, q) if q is not None and q[0] == 'Q' and q[3][0] == 'gen' else None
            if b is None or not b[1]:
                continue
            for t in texts(cx, s):
                for k in counters(cx, rec):
                    x, isnum = number(cx, piece(t, ',', k.h))
                    if k.v0 == const(0) and all(y.facts.proves(eq(e[3] - k.h)) and isinstance(e[4], Poly) and y.facts.proves(eq(e[4] - x)) and
                                                y.facts.proves(isnum) for y, e in b[1]):
                        yield t, q


def summed(cx, rec, l, c, s):
    """leaf l adds up the numbers of a rule, in step with counter c: (text of the rule, number that comes next)"""
    got = None
    for b in rec.backs:
        v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
        if not isinstance(v, Poly):
            return None, None
        found = None
        for t in texts(cx, s):
            x, isnum = number(cx, piece(t, ',', c.h))
            if b.facts.proves(eq(v - l.h - x)) and b.facts.proves(isnum):
                found = t, x
        if found is None:
            for t, q in number_lists(cx, s):
                x, s2 = read(cx, b, q, c.h)
                if isinstance(x, Poly) and b.facts.proves(eq(v - l.h - x)):
                    found = t, x
        if found is None or got is not None and found != got:
            return None, None
        got = found
    return got if got else (None, None)


def texts(cx, s):
    """candidates for the rule a state works on: piece i of s for every counter i in sight"""
    return [piece(s, ';', i) for i in cx.outer_counters]


def rule_ok(cx, r, where, st, q, s, cs, bound):
    """the rule q that is stored at index c is piece c of s, and fits"""
    b = built(cx, st, q) if q[0] == 'Q' else None
    if b is None:
        r.undecided(where, 'how a rule is filled is not recognised')
        return
    rec, pushes = b
    f = st.facts
    good, fit, other = False, False, False
    for c in cs:
        t = piece(s, ';', c.h)
        m = pieces(t, ',')
        for k in counters(cx, rec):
            x, isnum = number(cx, piece(t, ',', k.h))
            if k.v0 == const(0) and pushes and f.proves(ge(k.h - m)) and f.proves(eq(q[2] - q[1] - m)) and \
               all(y.facts.proves(eq(e[3] - k.h)) and isinstance(e[4], Poly) and y.facts.proves(eq(e[4] - x)) and y.facts.proves(isnum) for y, e in pushes):
                good = True
        for rec2, k, l in sums(cx, st):
            other = True
            if f.proves(ge(k.h - m)) and summed(cx, rec2, l, k, s)[0] == t and f.proves(ge(bound + 1 - l.h + l.v0 - m)):
                fit = True
    r.check(good, 'rule i holds the numbers of piece i', where, 'the numbers stored are %s' % ', '.join(pp(e[4]) if isinstance(e[4], Poly) else '?' for _, e in pushes))
    if fit or other:
        r.check(fit, 'a rule fits the bound', where, 'a rule is accepted although its sum plus gaps may exceed the bound')
    else:
        r.undecided(where, 'no sum of the numbers of a rule is recognised')
