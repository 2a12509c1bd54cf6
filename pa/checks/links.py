"""The dancing-links matrix: addresses are integers, the heap is one sequence of nodes indexed by address.

What a function does to the heap is read off every path as a tree: calls, stores and frees in order, and loops that walk a
ring of links, with what they do to each node of the ring.  The tree is matched against the one the property asks for."""
from .common import *
from ..report import Report
from .. import models

ENG = 'abstract interpretation of MIR over integer addresses; every path\'s stores, frees and calls matched against a specification tree'
LTRUST = TRUST + ['the links of a matrix form closed rings (each check shows that its functions keep them so)',
                  'a row of the matrix has at most one node in a column']
MOD = 'puzzle_utils::structures::dancing_links::'
OPP = {'left': 'right', 'right': 'left', 'up': 'down', 'down': 'up'}
HORIZ, VERT = ('left', 'right'), ('up', 'down')
EVENTS = {'store', 'push', 'deref', 'free', 'alloc', 'copy', 'swap', 'truncate'}


def heap_type(d):
    P = program(d)
    ts = [k for k, x in P.T.items() if x['k'] == 'adt' and x.get('local') and x['def'].endswith('dancing_links::node::Node')]
    return ts[0] if len(ts) == 1 else None


def fresh_heap(cx, st, hint='heap'):
    hty = cx.opts['heap']
    st.mem[('H',)] = ('Q', const(0), const(U64), ('gen', cx.fresh(st, hint), hty, (), None), (), hty)


def run(d, name, hooks=None, args=None):
    hty = heap_type(d)

    def mk(cx, fn, st):
        st.mem[('H',)] = ('Q', const(0), const(U64), ('gen', 'heap', hty, (), None), (), hty)
        if args:
            return args(cx, fn, st)
        vs = [cx.of_type(fn.locals[i + 1], 'a%d' % i) for i in range(fn.argc)]
        for v in vs:                # a matrix always has a root
            m = cx.base_value(st, v[1]) if isinstance(v, tuple) and v[0] == 'R' and v[1] in cx.gty else v
            if isinstance(m, tuple) and m[0] == 'S' and m[1] is not None:
                for w, f in zip(m[2], cx.T[m[1]]['variants'][0]['fields']):
                    if cx.T[f[1]]['k'] == 'ptr' and isinstance(w, Poly):
                        st.assume(ne(w))
        return vs
    R = Run(d, name, hooks=hooks, events=EVENTS, args=mk, opts={'heap': hty, 'links': tuple(OPP)})
    if not R.error:
        R.fields = [f[0] for f in R.cx.T[hty]['variants'][0]['fields']]
        R.cx.node_fields = R.fields
    return R


# ---------------------------------------------------------------------------------------------- terms
def same(st, a, b):
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return False
    c = (a - b).const
    return c == 0 if c is not None else st.facts.proves(eq(a - b))


def load(cx, p):
    """(address, field) when p is a value read from the heap"""
    s = p.single() if isinstance(p, Poly) else None
    if s and '.' in s:
        a, f = s.rsplit('.', 1)
        x = cx.loads.get(a)
        if x:
            return x[1], f
    return None


def loads_of(cx, f):
    for a, (n, p) in list(cx.loads.items()):
        if (a + '.' + f) in lin.SYM:
            yield p, sym(a + '.' + f)


def term_is(cx, st, p, t, env):
    """is the address or number p the one the term t describes?  t: name | (field, t) | ('+', t, n) | number"""
    if not isinstance(p, Poly):
        return False
    if isinstance(t, int):
        return same(st, p, const(t))
    if isinstance(t, str):
        return t in env and same(st, p, env[t])
    if t[0] == '+':
        return term_is(cx, st, p - t[2], t[1], env)
    l = load(cx, p)
    if l and l[1] == t[0] and term_is(cx, st, l[0], t[1], env):
        return True
    if (p.single() is None and p.const is None) or l and (p.single() or '').count('[') > 8:
        return False
    for a, v in loads_of(cx, t[0]):
        if v is not p and (v - p).const != 0 and same(st, p, v) and term_is(cx, st, a, t[1], env):
            return True
    return False


def known_term(cx, p, env):
    """is p made of values the specification speaks about (and so known not to be something else by another name)?"""
    if not isinstance(p, Poly):
        return False
    if p.const is not None:
        return True
    for m, c in p.t:
        if len(m) > 1:
            return False
        for s in m:
            l = load(cx, sym(s))
            if l:
                if not known_term(cx, l[0], env):
                    return False
            elif not any(isinstance(v, Poly) and v.single() == s for v in env.values()):
                return False
    return True


def self_loop(cx, st, x, dirs):
    """the path says that following one of these links from x leads back to x: x is alone in that ring"""
    for f in dirs:
        for a, v in loads_of(cx, f):
            if same(st, a, x) and same(st, v, x):
                return True
    return False


def alone(cx, st, x, f):
    return self_loop(cx, st, x, (f, OPP[f]))


# ---------------------------------------------------------------------------------------------- rings
class Ring:
    """a loop over the nodes of a ring: leaf (the node of an iteration), direction, start, whether the start is visited"""

    def __init__(self, rec, leaf, f, start, incl):
        self.rec, self.leaf, self.f, self.start, self.incl = rec, leaf, f, start, incl

    def complete(self, cx, st):
        return same(st, self.leaf.h, const(0)) or same(st, self.leaf.h, self.start)

    def __repr__(self):
        return '%s ring of %s%s' % (self.f, pp(self.start), '' if self.incl else ' without its start')


def ring(cx, rec):
    for l in rec.leaves:
        if l.kind != 'int' or not isinstance(l.v0, Poly) or not rec.backs:
            continue
        if any(isinstance(e, str) and e.startswith('#') for e in l.path):
            continue
        f, closing, ok = None, [], True
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
            if not isinstance(v, Poly):
                ok = False
                break
            ld = load(cx, v)
            if ld and same(b, ld[0], l.h):
                if f not in (None, ld[1]):
                    ok = False
                    break
                f = ld[1]
            elif v.const == 0:
                closing.append(b)
            else:
                ok = False
                break
        if not ok or f is not None and f not in OPP:
            continue
        l0 = load(cx, l.v0)
        starts = []
        if l0 and l0[1] in OPP and f in (None, l0[1]):
            starts.append((l0[0], False, l0[1]))
        for g in [f] if f else list(OPP):
            starts.append((l.v0, True, g))
        if not closing:
            if f is None:
                continue
            s = starts[0]
            return Ring(rec, l, f, s[0], s[1])
        for s, incl, g in starts:
            if all(any(same(b, a, l.h) and same(b, v, s) for a, v in loads_of(cx, g)) for b in closing):
                return Ring(rec, l, g, s, incl)
    return None


# ---------------------------------------------------------------------------------------------- trees
def items(cx, st, kinds):
    """what a stretch of execution does, in order: ('call', tag, p..) | ('w', p, field, value) | ('free', p) | ('rec', b) |
    ('sw', base, path, p, value) | ('push', base, path, value, index) | ('loop', rec)"""
    out = []
    for e in st.events():
        k = e[0]
        if k == 'loop':
            if any(items(cx, b, kinds) for b in e[1].backs):
                out.append(('loop', e[1]))
        elif k == 'store' and e[1] == ('H',):
            if 'w' in kinds:
                if e[4]:
                    out.append(('w', e[3], cx.node_fields[e[4][0]], e[5]))
                else:
                    for i, f in enumerate(cx.node_fields):
                        out.append(('w', e[3], f, e[5][2][i] if isinstance(e[5], tuple) and e[5][0] == 'S' else e[5]))
        elif k == 'store':
            if 'sw' in kinds:
                out.append(('sw', e[1], e[2], e[3], e[5]))
        elif k == 'push':
            if 'push' in kinds:
                out.append(('push', e[1], e[2], e[4], e[3]))
        elif k in kinds:
            out.append(e)
    return out


def show_item(it):
    if it[0] == 'loop':
        return 'a loop in %s' % it[1].fn.short()
    if it[0] == 'w':
        return '%s.%s = %s' % (pp(it[1]), it[2], pp(it[3]) if isinstance(it[3], Poly) else it[3])
    return ' '.join(pp(x) if isinstance(x, Poly) else str(x)[:60] for x in it)


class Mismatch(Exception):
    def __init__(self, text, sure=True):
        self.text, self.sure = text, sure


def match_item(cx, st, it, sp, env, kinds, depth):
    """does the item do what the specification item says?  Raises Mismatch when a loop is the right walk doing the wrong thing"""
    if it[0] == 'loop':
        if sp[0] != 'ring':
            return False
        R = ring(cx, it[1])
        if R is None:
            return False
        _, f, start, incl, body = sp
        if R.f != f or not term_is(cx, st, R.start, start, env):
            return False
        if R.incl != incl and not R.incl:
            return False
        if not R.complete(cx, st):
            raise Mismatch('the walk along the %r may end before the ring is closed' % R)
        x = 'x%d' % depth
        for b in it[1].backs:
            if self_loop(cx, b, R.leaf.h, HORIZ if R.f in HORIZ else VERT) and not incl and not same(b, R.leaf.h, R.start):
                continue        # a node of a ring of several is not alone in it
            if speaks_of(body(x), ('header', x)) and any(same(b, a, R.leaf.h) and same(b, v, const(0)) for a, v in loads_of(cx, 'header')):
                continue        # a node of a row has a header
            e2 = dict(env)
            e2[x] = R.leaf.h
            its = items(cx, b, kinds)
            if R.incl and not incl:
                if same(b, R.leaf.h, R.start):
                    if its:
                        raise Mismatch('the start of the %r is treated like the others: %s' % (R, show_item(its[0])))
                    continue
                if not b.facts.proves(ne(R.leaf.h - R.start)):
                    raise Mismatch('the start of the %r is treated like the others' % R)
            match(cx, b, its, body(x), e2, kinds, depth + 1)
        return True
    if it[0] != sp[0]:
        return False
    if it[0] == 'w':
        return it[2] == sp[2] and term_is(cx, st, it[1], sp[1], env) and term_is(cx, st, it[3], sp[3], env)
    if it[0] == 'call':
        return it[1] == sp[1] and len(it) == len(sp) and all(term_is(cx, st, p, t, env) for p, t in zip(it[2:], sp[2:]))
    if it[0] == 'free':
        return term_is(cx, st, it[1], sp[1], env)
    if it[0] == 'sw':
        return it[1] == sp[1] and tuple(it[2]) == tuple(sp[2]) and term_is(cx, st, it[3], sp[3], env) and term_is(cx, st, it[4], sp[4], env)
    return False


def match(cx, st, its, spec, env, kinds, depth=0):
    """the items are the specification items, in any order; a ring of one node may be left out"""
    left = list(spec)
    why = None
    for it in its:
        for sp in left:
            if match_item(cx, st, it, sp, env, kinds, depth):
                left.remove(sp)
                break
        else:
            sure = True
            if it[0] == 'loop':
                R = ring(cx, it[1])
                sure = R is not None and known_term(cx, R.start, env)
                text = 'not asked for here: a walk along the %r' % R if R else 'not recognised as a walk along a ring: %s' % show_item(it)
            else:
                ps = [x for x in it if isinstance(x, Poly)]
                sure = all(known_term(cx, p, env) for p in ps)
                text = 'not asked for here: %s' % show_item(it)
            why = why or Mismatch(text, sure)
            if not sure:
                raise why
    if why:
        raise why
    for sp in left:
        if sp[0] == 'ring' and not sp[3] and resolve_alone(cx, st, sp, env):
            continue
        raise Mismatch('left out: %s' % show_spec(sp))


def speaks_of(spec, t):
    return any(x == t or isinstance(x, (tuple, list)) and speaks_of(x, t) for x in spec)


def resolve_alone(cx, st, sp, env):
    """the path says that the start of a ring is its only node"""
    _, f, start, incl, body = sp
    for g in (f, OPP[f]):
        for a, v in loads_of(cx, g):
            if term_is(cx, st, a, start, env) and same(st, v, a):
                return True
    return False


def tname(t):
    if isinstance(t, tuple):
        return '%s%+d' % (tname(t[1]), t[2]) if t[0] == '+' else '%s.%s' % (tname(t[1]), t[0])
    return str(t)


def show_spec(sp):
    if sp[0] == 'ring':
        return 'the walk along the %s ring of %s' % (sp[1], tname(sp[2]))
    if sp[0] == 'w':
        return '%s.%s = %s' % (tname(sp[1]), sp[2], tname(sp[3]))
    return ' '.join(tname(x) for x in sp)


def verdict(r, kind, where, tries):
    """tries: [function that raises Mismatch]; one of them has to succeed"""
    bad = []
    for f in tries:
        try:
            f()
            r.ok(kind, where, 'matches the specification')
            return True
        except Mismatch as e:
            bad.append(e)
    if any(not e.sure for e in bad):
        r.undecided(where, '%s: %s' % (kind, next(e.text for e in bad if not e.sure)))
        return False
    bad.sort(key=lambda e: 'not asked for here: a walk' in e.text)      # not the one that walks another way
    r.bad(kind, where, bad[0].text)
    return False


# ---------------------------------------------------------------------------------------------- C04: cover and uncover
def top_env(cx, st, a):
    """the header of the column a node belongs to, on this path"""
    for p, v in loads_of(cx, 'header'):
        if same(st, p, a):
            if same(st, v, const(0)):
                return {'c': a, 'a': a}
            if st.facts.proves(ne(v)):
                return {'c': v, 'a': a}
    return None


def cover_spec(v, h):
    return [('w', ('left', 'c'), 'right', ('right', 'c')), ('w', ('right', 'c'), 'left', ('left', 'c')),
            ('ring', v, 'c', False, lambda x: [
                ('ring', h, x, False, lambda y: [
                    ('w', ('up', y), 'down', ('down', y)), ('w', ('down', y), 'up', ('up', y)),
                    ('w', ('header', y), 'row', ('+', ('row', ('header', y)), -1))])])]


def uncover_spec(v, h):
    return [('w', ('left', 'c'), 'right', 'c'), ('w', ('right', 'c'), 'left', 'c'),
            ('ring', v, 'c', False, lambda x: [
                ('ring', h, x, False, lambda y: [
                    ('w', ('up', y), 'down', y), ('w', ('down', y), 'up', y),
                    ('w', ('header', y), 'row', ('+', ('row', ('header', y)), 1))])])]


def judged(r, R, what, spec, name):
    """every path of R against spec(v, h) for one choice of directions; returns the choices that fit"""
    fits = []
    bad = {}
    choices = [(v, h) for v in ('down', 'up') for h in ('right', 'left')]
    for v, h in choices:
        try:
            n = 0
            for st, val in R.results:
                env = top_env(R.cx, st, R.args[0])
                if env is None:
                    raise Mismatch('a path does not tell whether it was given a header or a node of a row', False)
                match(R.cx, st, items(R.cx, st, {'w', 'call', 'free'}), spec(v, h), env, {'w', 'call', 'free'})
                n += 1
            fits.append((v, h))
        except Mismatch as e:
            bad[(v, h)] = e
    if fits:
        r.ok(what, name, '%d paths; every node of every row of the column, along %s' % (len(R.results), fits))
        return fits
    es = list(bad.values())
    if any(not e.sure for e in es):
        r.undecided(name, '%s: %s' % (what, next(e.text for e in es if not e.sure)))
    else:
        # the choice that got furthest is the one that does not merely walk the other way
        es.sort(key=lambda e: 'not asked for here: a walk' in e.text)
        r.bad(what, name, es[0].text)
    return []


def call_hook(tag):
    def f(cx, st, c):
        p = c.args[0] if isinstance(c.args[0], Poly) else const(-1)
        st.event('call', tag, p)
        if st.known(ne(p)) is False and not st.facts.dead:
            cx.nulls.setdefault(tag, repr(p))
        st.assume(ne(p))        # all of them dereference it
        if p.const == 0 or st.facts.dead:
            raise Dead()
        if tag in ('cover', 'uncover', 'free'):
            fresh_heap(cx, st)
        return models.UNIT(c)
    return f


def sol_path(cx, base, t=None):
    """path of the vector of chosen rows in the matrix behind base"""
    t = cx.gty.get(base) if t is None else t
    if t is None or cx.T[t]['k'] != 'adt':
        return None
    for i, f in enumerate(cx.T[t]['variants'][0]['fields']):
        if cx.T[f[1]]['s'].replace('std::vec::', '') == 'Vec<usize>':
            return i
    return None


def vec_in(cx, st, base, i):
    try:
        v = cx.walk(st.copy(), cx.base_value(st.copy(), base), (i,))
    except Exception:
        return None
    return v if isinstance(v, tuple) and v[0] == 'Q' else None


def root_path(cx, base):
    t = cx.gty.get(base)
    for i, f in enumerate(cx.T[t]['variants'][0]['fields']):
        if cx.T[f[1]]['k'] == 'ptr':
            return i
    return None


def helper_hook(cx, st, c):
    """the search below: gives up and leaves everything as it was, or succeeds"""
    found = st.decide(('b', cx.fresh(st, 'found')))
    a = c.args[0]
    base, path = a[1], a[2]
    st.event('rec', found, base, path)
    fresh_heap(cx, st)
    if found:
        m = cx.read(st, base, path)
        i = sol_path(cx, base, m[1])
        t = cx.T[m[1]]['variants'][0]['fields'][i][1]
        cx.write(st, base, path + (i,), cx.of_type(t, cx.fresh(st, 'chosen')))
        return T
    return F


def hooks():
    H = {}
    for f, tag in (('cover_column', 'cover'), ('uncover_column', 'uncover'), ('free_chain', 'free')):
        H[('fn', MOD + 'node::Node::' + f)] = call_hook(tag)
    H[('fn', MOD + 'DancingMatrix::solve_helper')] = helper_hook
    return H


KC = {'call', 'rec', 'w', 'free'}


def ring_calls(cx, st, it):
    """(ring, tag) when a loop makes one call per node of a ring, on that node (and none on an excluded start)"""
    R = ring(cx, it[1])
    if R is None:
        return None
    tag = None
    incl = R.incl
    for b in it[1].backs:
        its = items(cx, b, KC)
        if R.incl and not its and same(b, R.leaf.h, R.start):
            incl = False
            continue
        if len(its) != 1 or its[0][0] != 'call' or tag not in (None, its[0][1]):
            if any(i[0] != 'call' for i in its):
                return None
            raise Mismatch('an iteration of the walk along the %r makes the calls %s' % (R, [i[1] for i in its]))
        tag = its[0][1]
        if not same(b, its[0][2], R.leaf.h):
            raise Mismatch('the walk along the %r calls %s on another node: %s' % (R, tag, pp(its[0][2])))
    if not R.complete(cx, st):
        raise Mismatch('the walk along the %r (%s) may end before the ring is closed' % (R, tag))
    if incl != R.incl and any(items(cx, b, KC) and not b.facts.proves(ne(R.leaf.h - R.start)) for b in it[1].backs):
        raise Mismatch('the %r: its start is sometimes passed over' % R)
    R2 = Ring(R.rec, R.leaf, R.f, R.start, incl)
    return R2, tag


def steps(cx, st):
    """the items of a path with the loops that call cover/uncover/free per node resolved:
    ('call', tag, p) | ('all', tag, ring) | ('rec', found) | ('loop', rec)"""
    out = []
    for it in items(cx, st, KC):
        if it[0] == 'loop':
            rc = ring_calls(cx, st, it) if not any(x[0] in ('rec', 'loop') for b in it[1].backs for x in items(cx, b, KC)) else None
            out.append(('all', rc[1], rc[0]) if rc else it)
        elif it[0] in ('w', 'free'):
            raise Mismatch('a store to the matrix outside cover and uncover: %s' % show_item(it), False)
        else:
            out.append(it)
    return out


def undo(cx, st, ss):
    """cancels uncover against the cover it undoes; what is left"""
    stack = []
    for s in ss:
        if s[0] == 'rec':
            continue
        if s[0] == 'call' and s[1] == 'uncover':
            # an empty ring's cover may be missing its uncover and the other way round; they do not block
            j = len(stack) - 1
            while j >= 0 and stack[j][0] == 'all' and alone(cx, st, stack[j][2].start, stack[j][2].f):
                j -= 1
            if j >= 0 and stack[j][0] == 'call' and stack[j][1] == 'cover' and same(st, stack[j][2], s[2]):
                del stack[j:]
                continue
        if s[0] == 'all' and s[1] == 'uncover':
            if stack and stack[-1][0] == 'all' and stack[-1][1] == 'cover' and same(st, stack[-1][2].start, s[2].start) \
                    and stack[-1][2].f == OPP[s[2].f] and stack[-1][2].incl == s[2].incl:
                stack.pop()
                continue
            if alone(cx, st, s[2].start, s[2].f) and not s[2].incl:
                continue
        stack.append(s)
    return [s for s in stack if not (s[0] == 'all' and not s[2].incl and alone(cx, st, s[2].start, s[2].f))]


def show_step(s):
    if s[0] == 'all':
        return '%s of the %r' % (s[1], s[2])
    if s[0] == 'call':
        return '%s of %s' % (s[1], pp(s[2]))
    return show_item(s)


def helper_run(d, r):
    R = run(d, 'DancingMatrix::solve_helper', hooks=hooks())
    if not R.report(r, panics=False):
        return None
    if R.cx.havoced:
        return None
    return R


def restoring(d, g, deep):
    r = Report('C04', 'proof', ENG,
               'Every path of cover_column unlinks the header of the node\'s column and, for every other node of every row of the '
               'column, links its neighbours above and below past it and counts its column down; every path of uncover_column '
               'walks the same nodes, from either end, and puts exactly those links and counts back; every path of solve_helper that reports '
               'failure, and every round of its loop over rows, undoes its cover calls in reverse order and takes back the row it pushed.', LTRUST)
    C = run(d, 'Node::cover_column')
    U = run(d, 'Node::uncover_column')
    if C.report(r, panics=False) and U.report(r, panics=False):
        fc = judged(r, C, 'cover', cover_spec, 'Node::cover_column')
        fu = judged(r, U, 'uncover', uncover_spec, 'Node::uncover_column')
        if fc and fu:
            # nodes unlinked one after the other find their neighbours again in reverse order and in the same order
            # (DESIGN.md), and a row has one node per column: any direction undoes any other
            r.ok('undoing order', 'Node::uncover_column', 'cover walks %s, uncover walks %s' % (fc, fu))
    R = helper_run(d, r)
    if R is None:
        return r
    cx = R.cx
    name = 'DancingMatrix::solve_helper'
    seen = set()
    loops_seen = []

    def visit_loop(rec):
        if id(rec) in seen:
            return
        seen.add(id(rec))
        inner = [x for b in rec.backs for x in items(cx, b, KC)]
        if not any(x[0] in ('rec', 'loop') for x in inner):
            return
        loops_seen.append(rec)
        for b in rec.backs:
            one(b, 'a round of the loop over rows', rec)

    def one(st, what, rec=None):
        try:
            ss = steps(cx, st)
        except Mismatch as e:
            (r.bad if e.sure else r.undecided)(*(('calls', name, e.text) if e.sure else (name, e.text)))
            return
        for s in ss:
            if s[0] == 'loop':
                visit_loop(s[1])
        rest = undo(cx, st, [s for s in ss if s[0] != 'loop'])
        r.check(not rest, 'undone', name, '%s that reports no solution leaves behind: %s'
                % (what, '; '.join(show_step(s) for s in rest) if rest else 'nothing'))

    fails = 0
    for st, v in R.results:
        if st.known(v) is False or v == F:
            fails += 1
            one(st, 'a path')
        elif v != T:
            r.undecided(name, 'a path whose answer is not fixed')
    r.floor('paths that report no solution', fails, 1)
    r.floor('loops over rows', len(loops_seen), 1)
    taken_back(r, R, loops_seen, name)
    return r


def taken_back(r, R, loops_seen, name):
    """the list of chosen rows is what it was after a round, and after a path, that found nothing"""
    cx = R.cx
    # the rows chosen so far
    base = R.args[0][1]
    i = sol_path(cx, base)
    if i is None:
        r.undecided(name, 'the vector of chosen rows was not found')
        return
    for rec in loops_seen:
        for l in rec.leaves:
            if l.key == base and l.path and l.path[0] == i:
                for b in rec.backs:
                    v = loops.leaf(cx, b, b.mem[l.key], l.path)
                    if l.kind == 'int':
                        r.check(same(b, v, l.h), 'rows taken back', name, 'after a round that found nothing the list of chosen rows is %s long, before it %s' % (pp(v), pp(l.h)))
                    else:
                        r.check(isinstance(v, tuple) and v[0] == 'Q' and all(b.facts.proves(ge(p - v[2])) for p, _, _ in v[4]),
                                'rows taken back', name, 'a round that found nothing overwrites rows chosen before')
    for st, v in R.results:
        if v == F:
            q = vec_in(cx, st, base, i)
            ok = q is not None and same(st, q[2] - q[1], sym('a0.%s.len' % cx.T[cx.gty[base]]['variants'][0]['fields'][i][0]))
            if q is not None and not ok:
                # through the loop: its head value is the entry value
                ok = any(l.key == base and l.path[:1] == (i,) and l.kind == 'int' and same(st, q[2], l.h) and
                         all(same(b, loops.leaf(cx, b, b.mem[l.key], l.path), l.h) for b in rec.backs)
                         for rec in loops_seen for l in rec.leaves)
            r.check(ok, 'rows taken back', name, 'a path that reports no solution ends with the list of chosen rows %s long' % (pp(q[2]) if q else '?'))


# ---------------------------------------------------------------------------------------------- C05: what the search answers
def chosen_from(cx, rec_list, c):
    """(ring, rec) when c is the element some walk along a ring settled on"""
    s = c.single()
    for rec in rec_list:
        for l in rec.leaves:
            if l.kind == 'enum' and s and s.startswith(getattr(l.h, 'name', l.name) if not isinstance(l.h, tuple) else str(l.h[1])):
                yield rec, l


def top_recs(st):
    return [e[1] for e in st.events() if e[0] == 'loop']


def searching(d, g, deep):
    r = Report('C05', 'proof', ENG,
               'solve_helper reports success only on a path where the root is alone in its ring or where the search below the row '
               'it just pushed reported success; that row is a node of the chosen column, the pushed number is that node\'s row '
               'number, and all other columns of the row are covered at that point; it reports failure only after a complete walk '
               'along the chosen column in which the search below every row failed; the chosen column is a column of the root\'s '
               'ring; solve answers Ok with the chosen rows exactly when solve_helper succeeds.', LTRUST)
    R = helper_run(d, r)
    name = 'DancingMatrix::solve_helper'
    if R is not None:
        cx = R.cx
        base = R.args[0][1]
        si, ri = sol_path(cx, base), root_path(cx, base)
        if si is None or ri is None:
            r.undecided(name, 'the root or the list of chosen rows was not found')
        else:
            search(r, R, cx, base, si, ri, name)
            rows = []
            for st, v in R.results:
                for x in all_loops(st):
                    if x not in rows and any(i[0] == 'rec' for b in x.backs for i in items(cx, b, KC)):
                        rows.append(x)
            taken_back(r, R, rows, name)
    solve_answer(d, r)
    return r


def sel_tree(cx, st, ss):
    """the cover of the column chosen, the walk along it, and what is before and after"""
    pre, rec, post = [], None, []
    for s in ss:
        if s[0] == 'loop':
            if rec is not None:
                raise Mismatch('more than one loop over rows', False)
            rec = s[1]
        elif rec is None:
            pre.append(s)
        else:
            post.append(s)
    return pre, rec, post


def round_ok(cx, st, ss, col, x, R, pushes, want):
    """the steps of one round up to the search below: cover the row's other columns, push its number, search"""
    i = next((k for k, s in enumerate(ss) if s[0] == 'rec'), None)
    if i is None:
        raise Mismatch('a row of the chosen column is passed over without a search below it')
    if ss[i][1] is not want:
        raise Mismatch('the search below a row %s, and the row is treated as if it had not' % ('succeeded' if ss[i][1] else 'failed'))
    if any(s[0] == 'rec' for s in ss[i + 1:]):
        raise Mismatch('two searches below one row')
    cov = undo(cx, st, ss[:i])
    cov = [s for s in cov]
    for s in cov:
        if s[0] != 'all' or s[1] != 'cover' or s[2].incl or s[2].f not in HORIZ:
            raise Mismatch('before the search below a row: %s (expected: the other columns of the row are covered)' % show_step(s))
        if not same(st, s[2].start, x):
            raise Mismatch('the columns covered are those of another row: %s' % show_step(s))
    if len(cov) > 1:
        raise Mismatch('the columns of a row are covered twice')
    if not cov and not any(alone(cx, st, x, f) for f in ('left',)):
        raise Mismatch('the other columns of a row are not covered before the search below it')
    if len(pushes) != 1:
        raise Mismatch('%d rows are pushed for one row tried' % len(pushes))
    if not term_is(cx, st, pushes[0], ('row', 'x'), {'x': x}):
        raise Mismatch('the number pushed is not the row number of the node tried: %s' % pp(pushes[0]))


def pushes_in(cx, st, base, si):
    """values pushed to the list of chosen rows before the search below (straight-line part)"""
    out = []
    for e in st.events():
        if e[0] == 'rec':
            break
        if e[0] == 'push' and e[1] == base and tuple(e[2]) == (si,):
            out.append(e[4])
    return out


def column_ok(cx, st, c, root, name):
    """c is a column of the root's ring other than the root"""
    ld = load(cx, c)
    if ld and ld[1] in HORIZ and same(st, ld[0], root):
        return
    for rec in all_loops(st):
        for l in rec.leaves:
            vals = None
            if l.kind == 'enum':
                h = loops.leaf(cx, rec.head, rec.head.mem[l.key], l.path) if hasattr(rec, 'head') and rec.head else l.h
                vals = h
            if isinstance(vals, tuple) and vals[0] == 'SE' and c.single() and c.single().startswith(str(vals[1]) + '.'):
                R = ring(cx, rec)
                if R is None:
                    raise Mismatch('the loop that chooses a column is not recognised as a walk along a ring', False)
                if R.f not in HORIZ or not same(st, R.start, root):
                    raise Mismatch('the column is chosen from the %r, not from the columns left' % R)
                if R.incl:
                    raise Mismatch('the root itself may be chosen as a column')
                for b in rec.backs:
                    v = loops.leaf(cx, b, b.mem[l.key], l.path)
                    if v == vals:
                        continue
                    if v[0] == 'E' and v[2] == 1 and isinstance(v[3][0], Poly):
                        p = v[3][0]
                        if same(b, p, R.leaf.h) or p == c:
                            continue
                    raise Mismatch('the column chosen is not one the walk came across', False)
                return
            if l.kind == 'int' and isinstance(l.h, Poly) and same(st, c, l.h):
                R = ring(cx, rec)
                if R and R.f in HORIZ and same(st, R.start, root):
                    ok = True
                    for b in rec.backs:
                        v = loops.leaf(cx, b, b.mem[l.key], l.path)
                        ok = ok and (same(b, v, l.h) or same(b, v, R.leaf.h))
                    l0 = load(cx, l.v0)
                    if ok and l0 and l0[1] in HORIZ and same(st, l0[0], root):
                        return
    raise Mismatch('where the chosen column %s comes from is not recognised' % pp(c), False)


def search(r, R, cx, base, si, ri, name):
    root = loops.leaf(cx, R.results[0][0], cx.base_value(R.results[0][0], base), (ri,)) if R.results else None
    if not isinstance(root, Poly):
        r.undecided(name, 'the root is not an address')
        return
    npos = nneg = nrounds = 0
    for st, v in R.results:
        try:
            ss = steps(cx, st)
            pre, rec, post = sel_tree(cx, st, ss)
            if v == T and not any(s[0] == 'rec' for s in ss):
                if rec is not None or pre or post:
                    raise Mismatch('success without a successful search below')
                if not any(same(st, a, root) and same(st, x, root) for f in HORIZ for a, x in loads_of(cx, f)):
                    raise Mismatch('success while columns may be left: nothing on the path says that the root is alone in its ring')
                r.ok('success', name, 'no column is left')
                npos += 1
                continue
            cov = [s for s in pre if s[0] == 'call' and s[1] == 'cover']
            if v == F and not cov and rec is None and not any(s[0] == 'rec' for s in ss):
                # no search at all: the column chosen has to be empty
                if not any(same(st, a, x) for f in VERT for a, x in loads_of(cx, f)):
                    raise Mismatch('failure without trying a row')
                r.ok('failure', name, 'the chosen column is empty')
                nneg += 1
                continue
            if not cov:
                raise Mismatch('no column is covered before rows are tried')
            col = cov[0][2]
            column_ok(cx, st, col, root, name)
            if v == F:
                if rec is None:
                    if not alone(cx, st, col, 'down'):
                        raise Mismatch('failure without trying the rows of the chosen column')
                else:
                    W = ring(cx, rec)
                    if W is None:
                        raise Mismatch('the loop over rows is not recognised as a walk along a ring', False)
                    if W.f not in VERT or not same(st, W.start, col):
                        raise Mismatch('the rows tried are those of the %r, not those of the chosen column' % W)
                    if W.incl:
                        raise Mismatch('the header of the chosen column is tried as a row')
                    if not W.complete(cx, st):
                        raise Mismatch('failure although rows of the chosen column may be left untried')
                    if any(s[0] == 'rec' for s in post):
                        raise Mismatch('failure after a search below outside the walk', False)
                    for b in rec.backs:
                        round_ok(cx, b, steps(cx, b), col, W.leaf.h, W, pushes_in(cx, b, base, si), False)
                        nrounds += 1
                r.ok('failure', name, 'every row of the chosen column was tried')
                nneg += 1
                continue
            if v != T:
                raise Mismatch('a path whose answer is not fixed', False)
            if rec is None:
                raise Mismatch('rows are tried outside a loop', False)
            W = ring(cx, rec)
            if W is None or W.f not in VERT or not same(st, W.start, col) or W.incl:
                raise Mismatch('the rows tried are not those of the chosen column (%r)' % W, W is not None)
            k = next((i for i, s in enumerate(post) if s[0] == 'rec'), None)
            if k is None:
                raise Mismatch('success without a successful search below')
            round_ok(cx, st, [s for s in post if not (s[0] == 'call' and s[1] == 'free') and not (s[0] == 'all' and s[1] == 'free')],
                     col, W.leaf.h, W, pushes_after(cx, st, rec, base, si), True)
            q = vec_in(cx, st, base, si)
            if q is None or q[4] or not str(content(q) or '').startswith('chosen') or not same(st, q[2], st_len(cx, q)):
                raise Mismatch('the list of chosen rows is changed after the search below succeeded')
            r.ok('success', name, 'the search below the row just pushed succeeded')
            npos += 1
        except Mismatch as e:
            if e.sure:
                r.bad('success' if v == T else 'failure', name, e.text)
            else:
                r.undecided(name, e.text)
    r.floor('paths that report a solution', npos, 1)
    r.floor('paths that report none', nneg, 1)


def st_len(cx, q):
    return cx.len_sym(content(q) + '.len')


def pushes_after(cx, st, rec, base, si):
    out, on = [], False
    for e in st.events():
        if e[0] == 'loop' and e[1] is rec:
            on = True
        elif e[0] == 'rec':
            break
        elif on and e[0] == 'push' and e[1] == base and tuple(e[2]) == (si,):
            out.append(e[4])
    return out


def solve_answer(d, r):
    H = {('fn', MOD + 'DancingMatrix::solve_helper'): helper_hook}
    R = run(d, 'DancingMatrix::solve', hooks=H)
    name = 'DancingMatrix::solve'
    if not R.report(r, panics=False):
        return
    cx = R.cx
    n = 0
    for st, v in R.results:
        recs = [e for e in st.events() if e[0] == 'rec']
        if len(recs) != 1:
            r.check(False, 'answer', name, 'a path asks the search %d times' % len(recs)) if recs == [] else r.undecided(name, 'several searches')
            continue
        found = recs[0][1]
        if not (isinstance(v, tuple) and v[0] == 'E'):
            r.undecided(name, 'the answer is not a known variant')
            continue
        if found:
            q = v[3][0] if v[2] == 0 else None
            ok = v[2] == 0 and isinstance(q, tuple) and q[0] == 'Q' and str(content(q) or '').startswith('chosen') and not q[4] \
                and same(st, q[2] - q[1], st_len(cx, q))
            r.check(ok, 'answer', name, 'the search succeeded: the answer has to be Ok with the chosen rows')
        else:
            e = v[3][0] if v[2] == 1 else None
            r.check(v[2] == 1 and vname(cx, st, e) == 'NoSolution', 'answer', name, 'the search failed: the answer has to be NoSolution')
        n += 1
    r.floor('paths of solve', n, 2)


# ---------------------------------------------------------------------------------------------- C27: building the matrix
def unknown_iter(cx, fn, t, name):
    """an iterator of type t over unknown data"""
    x = cx.T[t]
    if x['k'] == 'adt' and x['def'] == 'std::slice::Iter':
        e = x['args'][0]
        b = ('G', name + '.data')
        q = ('Q', const(0), cx.len_sym(name + '.len'), ('gen', name + '.data', e, (), None), (), e)
        cx.unknown_data[b] = q
        return ('I', 'seq', (('R', b, (), None, None), const(0), q[2]))
    if x['k'] == 'adt' and x['def'] == 'std::iter::Map':
        f = cx.of_type(x['args'][1], name + '.f')
        return ('I', 'map', (unknown_iter(cx, fn, x['args'][0], name), f))
    raise Unsupported('iterator %s' % x['s'])


def build_args(cx, fn, st):
    cx.unknown_data = {}
    vs = [unknown_iter(cx, fn, fn.locals[i + 1], 'a%d' % i) for i in range(fn.argc)]
    st.mem.update(cx.unknown_data)
    return vs


def final_links(cx, st, q0=None):
    """{(address, field): value}: what a stretch leaves in the nodes it wrote, last write first"""
    out = []
    for it in items(cx, st, {'w'}):
        if it[0] == 'loop':
            continue
        key = next((k for k in out if k[1] == it[2] and same(st, k[0], it[1])), None)
        if key:
            out.remove(key)
        out.append((it[1], it[2], it[3]))
    return out


def links_are(cx, st, got, want, env, where, r, kind):
    """got: [(address, field, value)]; want: [(term, field, term)]"""
    left = list(got)
    for t, f, v in want:
        hit = next((g for g in left if g[1] == f and term_is(cx, st, g[0], t, env)), None)
        if hit is None:
            raise Mismatch('%s.%s is not set to %s' % (tname(t), f, tname(v)))
        left.remove(hit)
        if not term_is(cx, st, hit[2], v, env):
            raise Mismatch('%s.%s is set to %s, not to %s' % (tname(t), f, pp(hit[2]) if isinstance(hit[2], Poly) else hit[2], tname(v)),
                           known_term(cx, hit[2], env))
    for g in left:
        raise Mismatch('also set: %s.%s' % (pp(g[0]), g[1]))


def joined(fwd, back, prev):
    """the links that put n between prev and what followed it"""
    if prev is None:
        return [('n', back, 'n'), ('n', fwd, 'n')]
    return [('n', back, prev), ('n', fwd, (fwd, prev)), ((fwd, prev), back, 'n'), (prev, fwd, 'n')]


def walks_all(cx, rec, st, q):
    """the loop is left only when the counter of an iterator over q has reached its end: the counter"""
    for l in counters(cx, rec):
        if l.v0.const == 0 and st.facts.proves(ge(l.h - q[2])):
            return l
    return None


def elem_at(cx, st, b, *ix):
    """value of an element of the (nested) unknown data"""
    v = cx.unknown_data[b]
    for i in ix:
        if not (isinstance(v, tuple) and v[0] == 'Q'):
            return None
        v, st = read(cx, st, v, i)
    return v


def building(r, d):
    R = run(d, 'DancingMatrix::new', args=build_args)
    name = 'DancingMatrix::new'
    if not R.report(r, panics=False):
        return
    cx = R.cx
    r.check(not cx.unchecked, 'allocation', name, 'an address from the allocator is used without having been compared with null in %s' % sorted(cx.unchecked))
    if len(cx.unknown_data) != 1:
        r.undecided(name, 'what the matrix is built from is not recognised')
        return
    data = next(iter(cx.unknown_data))
    in_bounds(r, R, name)
    n = 0
    for st, v in R.results:
        try:
            built_matrix(cx, st, v, data, r, name)
            n += 1
        except Mismatch as e:
            (r.bad if e.sure else r.undecided)(*(('building', name, e.text) if e.sure else (name, e.text)))
    r.floor('paths of new', n + len(r.viol) + len(r.open), 1)


def in_bounds(r, R, name):
    """every access to the table of rows is inside it, except by the number in a node (which building takes care of)"""
    for (kind, site, sp), (ok, text) in sorted(R.cx.obl[0].items()):
        if kind == 'index' and not (not ok and '].row' in text):
            r.check(ok, kind, '%s (from %s)' % (site, name), text)
    for site, p in sorted(R.cx.nulls.items()):
        r.bad('null', site, 'from %s: %s is dereferenced on a path on which it is null' % (name, p[-80:]))


def built_matrix(cx, st, v, data, r, name):
    KN = {'w', 'sw', 'alloc', 'free', 'push'}
    its = items(cx, st, KN)
    recs = [i[1] for i in its if i[0] == 'loop']
    news = [i[1] for i in its if i[0] == 'alloc']
    if len(recs) > 1 or len(news) != 1:
        raise Mismatch('%d loops and %d nodes at the top level' % (len(recs), len(news)), False)
    if not (isinstance(v, tuple) and v[0] == 'S'):
        raise Mismatch('the result is not a matrix value', False)
    env = {'n': news[0]}
    roots = [x for x in v[2] if isinstance(x, Poly)]
    if not any(same(st, x, news[0]) for x in roots):
        raise Mismatch('the root of the matrix is not the node made for it')
    got = [g for g in final_links(cx, st) if g[1] != 'row']
    links_are(cx, st, got, joined('right', 'left', None) + joined('down', 'up', None) + [('n', 'header', 0)], env, name, r, 'root')
    r.ok('building', name, 'the root is alone and has no header')
    if not recs:
        raise Mismatch('no loop over the constraints', False)
    rec = recs[0]
    outer = walks_all(cx, rec, st, cx.unknown_data[data])
    if outer is None:
        raise Mismatch('the walk over the constraints may end early')
    prev = [l for l in rec.leaves if l.kind == 'int' and isinstance(l.v0, Poly) and same(rec.entry, l.v0, news[0])]
    for b in rec.backs:
        column(cx, b, rec, outer, prev, news[0], data, r, name)


def column(cx, b, rec, outer, prev, root, data, r, name):
    KN = {'w', 'sw', 'alloc', 'free', 'push'}
    its = items(cx, b, KN)
    news = [i[1] for i in its if i[0] == 'alloc']
    inner = [i[1] for i in its if i[0] == 'loop']
    if len(news) != 1 or len(inner) > 1:
        raise Mismatch('%d headers are made for one constraint' % len(news), False)
    env = {'n': news[0]}
    tail_ = [l for l in prev if same(b, loops.leaf(cx, b, b.mem[l.key], l.path), news[0])]
    at = None
    if tail_:
        env['prev'] = tail_[0].h
        at = 'prev'
    else:
        env['prev'] = root          # always right behind the root
        at = 'prev'
        r.check(False, 'building', name, 'the columns are not in the order of the constraints')
    got = final_links(cx, b)
    cnt = [g for g in got if g[1] == 'row']
    links_are(cx, b, [g for g in got if g[1] != 'row'], joined('right', 'left', at) + joined('down', 'up', None) + [('n', 'header', 0)], env, name, r, 'header')
    r.ok('building', name, 'a header is linked in behind the one before')
    item = elem_at(cx, b, data, outer.h)
    if not (isinstance(item, tuple) and item[0] == 'Q'):
        raise Mismatch('the constraints are not sequences', False)
    r.check(len(cnt) == 1 and same(b, cnt[0][2], item[2] - item[1]), 'building', name,
            'the count of a column is the number of its candidates')
    if not inner:
        raise Mismatch('the candidates of a constraint are not walked through')
    rec2 = inner[0]
    ic = walks_all(cx, rec2, b, item)
    if ic is None:
        raise Mismatch('the walk over the candidates of a constraint may end early')
    above = [l for l in rec2.leaves if l.kind == 'int' and isinstance(l.v0, Poly) and same(rec2.entry, l.v0, news[0])]
    for c in rec2.backs:
        node(cx, c, rec, rec2, outer, ic, above, news[0], data, r, name)


def node(cx, c, rec, rec2, outer, ic, above, head, data, r, name):
    KN = {'w', 'sw', 'alloc', 'free', 'push'}
    its = items(cx, c, KN)
    news = [i[1] for i in its if i[0] == 'alloc']
    if len(news) != 1:
        raise Mismatch('%d nodes are made for one candidate' % len(news), bool(its) and not any(i[0] == 'loop' for i in its))
    n = news[0]
    index = elem_at(cx, c, data, outer.h, ic.h)
    if not isinstance(index, Poly):
        raise Mismatch('the candidates are not numbers', False)
    carried = [l for l in above if same(c, loops.leaf(cx, c, c.mem[l.key], l.path), n)]
    env = {'n': n, 'head': head, 'index': index}
    env['above'] = carried[0].h if carried else head        # below the last one, or always right below the header
    r.check(bool(carried), 'building', name, 'the nodes of a column are not in the order of its candidates')
    # the row so far
    stores = [i for i in its if i[0] == 'sw']
    rows = {(i[1], tuple(i[2])) for i in stores}
    if len(stores) != 1:
        raise Mismatch('%d entries of the table of rows are set for one candidate' % len(stores), not stores)
    key, path = rows.pop()
    _, _, _, at, val = stores[0]
    if not same(c, at, index) or not same(c, val, n):
        raise Mismatch('the table of rows gets %s at %s, not the new node at the number of its row' % (pp(val) if isinstance(val, Poly) else val, pp(at)))
    q0 = None
    for l in rec2.leaves:
        if l.key == key and l.kind == 'content':
            q0 = rec2.head.mem[key] if not path else loops.leaf(cx, rec2.head, rec2.head.mem[key], path)
    if not (isinstance(q0, tuple) and q0[0] == 'Q'):
        raise Mismatch('the table of rows is not recognised', False)
    q1 = c.mem[key] if not path else loops.leaf(cx, c, c.mem[key], path)
    if not kept(c, q0, q1, index):
        raise Mismatch('other entries of the table of rows may change', False)
    at = None
    if c.facts.proves(ge(q0[2] - index - 1)):
        p, c2 = read(cx, c, q0, index)
        if not isinstance(p, Poly):
            raise Mismatch('the table of rows holds something else than addresses', False)
        if same(c, p, const(0)):
            at = None
        elif c.facts.proves(ne(p)):
            env['left'] = p
            at = 'left'
        else:
            raise Mismatch('a node is linked into its row without a look at whether the row has nodes')
        size = q0[2] - q0[1]
    elif not c.facts.proves(ge(index - q0[2])):
        raise Mismatch('a path does not tell whether the row is new', False)
    else:
        size = index + 1
    r.check(c.facts.proves(eq(q1[2] - q1[1] - size)), 'building', name, 'the table of rows ends with the largest row number so far')
    e0 = rec.entry.mem.get(key) if key in rec.entry.mem else None
    if e0 is not None:
        e0 = e0 if not path else loops.leaf(cx, rec.entry, e0, path)
        r.check(isinstance(e0, tuple) and e0[0] == 'Q' and rec.entry.facts.proves(eq(e0[2] - e0[1])), 'building', name, 'the table of rows is empty at first')
    want = joined('right', 'left', at) + joined('down', 'up', 'above') + [('n', 'header', 'head'), ('n', 'row', 'index')]
    links_are(cx, c, final_links(cx, c), want, env, name, r, 'node')
    r.ok('building', name, 'a node is linked in behind the last one of its column and %s' % ('the last one of its row' if at else 'as the first one of its row'))


def kept(st, q0, q1, index):
    """q1 is q0, possibly lengthened with nulls, with at most the entry at index changed"""
    if not (isinstance(q1, tuple) and q1[0] == 'Q') or any(not same(st, w[0], index) for w in q1[4]):
        return False
    b = q1[3]
    if b == q0[3]:
        return st.facts.proves(eq(q1[2] - q0[2])) or True
    while b[0] == 'ext':
        if not (isinstance(b[2], Poly) and b[2].const == 0) or any(not same(st, w[0], index) for w in b[1][4]):
            return False
        b = b[1][3]
    return b == q0[3]


# ---------------------------------------------------------------------------------------------- choosing a row in advance
def add_run(d):
    return run(d, 'DancingMatrix::add_solution', hooks=hooks())


def rows_path(cx, base, t=None):
    t = cx.gty.get(base) if t is None else t
    for i, f in enumerate(cx.T[t]['variants'][0]['fields']):
        if cx.T[f[1]]['s'].replace('std::vec::', '').startswith('Vec<*mut'):
            return i
    return None


def adding(r, d):
    R = add_run(d)
    name = 'DancingMatrix::add_solution'
    if not R.report(r, panics=False):
        return
    cx = R.cx
    base = R.args[0][1]
    si, wi = sol_path(cx, base), rows_path(cx, base)
    if si is None or wi is None:
        r.undecided(name, 'the table of rows or the list of chosen rows was not found')
        return
    from ..interp import St
    rows = vec_in(cx, St(), base, wi)
    want = R.args[1]
    in_bounds(r, R, name)
    n = 0
    for st, v in R.results:
        if not (isinstance(v, tuple) and v[0] == 'E'):
            r.undecided(name, 'the answer is not a known variant')
            continue
        n += 1
        inside = st.known(ge(rows[2] - want - 1))
        if v[2] == 1:
            e = vname(cx, st, v[3][0])
            changed = [x for x in items(cx, st, {'w', 'sw', 'call', 'push', 'free'})]
            if changed:
                r.bad('refusal', name, 'a refusal changes the matrix: %s' % show_item(changed[0]))
            if e == 'IndexError':
                r.check(inside is False, 'refusal', name, 'IndexError for a row that is in the table')
            elif e == 'InvalidRow':
                p, _ = read(cx, st, rows, want) if inside else (None, None)
                r.check(inside is True and same(st, p, const(0)), 'refusal', name, 'InvalidRow for a row that can still be chosen')
            else:
                r.bad('refusal', name, 'a refusal with %s' % e)
            continue
        if inside is not True:
            r.bad('acceptance', name, 'a row outside the table is accepted')
            continue
        row, _ = read(cx, st, rows, want)
        if not isinstance(row, Poly) or not st.facts.proves(ne(row)):
            r.bad('acceptance', name, 'a row that can no longer be chosen is accepted')
            continue
        ps = [e for e in st.events() if e[0] == 'push' and e[1] == base and tuple(e[2]) == (si,)]
        q = vec_in(cx, st, base, si)
        r.check(len(ps) == 1 and same(st, ps[0][4], want), 'acceptance', name, 'the accepted row is added once to the chosen rows')
        env = {'row': row}
        its = items(cx, st, {'w', 'sw', 'call', 'free'})
        nulls = [i for i in its if i[0] == 'sw' or i[0] == 'loop' and any(x[0] in ('sw', 'loop') for b in i[1].backs for x in items(cx, b, {'sw'}))]
        key, path = base, (wi,)

        def spec(h, v, xskip):
            return [('ring', h, 'row', True, lambda x: [
                ('ring', v, ('header', x), xskip, lambda y: [('sw', key, path, ('row', y), 0)])])]
        verdict(r, 'excluded rows', name, [lambda h=h, v=v, s=s: match(cx, st, nulls, spec(h, v, s), env, {'sw'})
                                           for h in HORIZ for v in ('down', 'up') for s in (False,)])
        try:
            ss = steps(cx, st_without(cx, st, nulls))
        except Mismatch as e:
            (r.bad if e.sure else r.undecided)(*(('covered columns', name, e.text) if e.sure else (name, e.text)))
            continue
        cov, free = balance(cx, st, [s for s in ss if s[0] in ('call', 'all')])
        bad = [s for s in cov if not (same(st, s[2], row) if s[0] == 'call' else same(st, s[2].start, row) and s[2].f in HORIZ)]
        r.check(not bad and (any(s[0] == 'call' for s in cov)) and (any(s[0] == 'all' for s in cov) or alone(cx, st, row, 'right')),
                'covered columns', name, 'every column of the chosen row is covered, and no other: %s' % '; '.join(map(show_step, cov)))
    r.floor('paths of add_solution', n, 3)


class st_without:
    """a state whose events leave out some loops"""
    def __new__(cls, cx, st, drop):
        ids = {id(i[1]) for i in drop if i[0] == 'loop'}
        s = st.copy()
        evs = [e for e in st.events() if not (e[0] == 'loop' and id(e[1]) in ids)]
        t = None
        for e in evs:
            t = (t, e)
        s.trace = t
        return s


def balance(cx, st, ss):
    """(covers not undone, frees), with a walk that includes its start split in two"""
    def split(xs):
        out = []
        for s in xs:
            if s[0] == 'all' and s[2].incl:
                out.append(('call', s[1], s[2].start))
                R = s[2]
                out.append(('all', s[1], Ring(R.rec, R.leaf, R.f, R.start, False)))
            else:
                out.append(s)
        return out
    rest = undo(cx, st, [s for s in ss if s[1] != 'free'])
    return split(rest), split([s for s in ss if s[1] == 'free'])


def matrix(d, g, deep):
    r = Report('C27', 'proof', ENG,
               'DancingMatrix::new makes one header per constraint, linked in behind the one before, and one node per candidate of '
               'it, linked both ways below the last node of the column and behind the last node of its row, with that header and '
               'that row number, and remembers it as the last node of its row; add_solution refuses with IndexError exactly the '
               'rows outside the table and with InvalidRow exactly those that can no longer be chosen, and otherwise notes the row, '
               'strikes every row of every column of it from the table, and covers exactly these columns.', LTRUST)
    building(r, d)
    adding(r, d)
    return r


# ---------------------------------------------------------------------------------------------- C06: memory
def after_free(cx, st, what, r, name):
    """nothing freed is used or freed again on a stretch of execution"""
    freed = []
    chains = []                 # columns freed as a whole
    walks = []                  # walks along rings seen so far
    n = 0

    def gone(p):
        return any(same(st, p, x) for x in freed) or any(w.f in VERT and same(st, w.start, c) and same(st, p, w.leaf.h) for c in chains for w in walks)
    for e in st.events():
        if e[0] == 'deref' and (freed or chains):
            n += 1
            if gone(e[1]):
                r.bad('use after free', name, '%s: %s is read or written after it was freed' % (what, pp(e[1])))
        elif e[0] == 'free' or e[0] == 'call' and e[1] == 'free':
            p = e[1] if e[0] == 'free' else e[2]
            n += 1
            if gone(p):
                r.bad('use after free', name, '%s: %s is freed twice' % (what, pp(p)))
            freed.append(p)
            if e[0] == 'call':
                chains.append(p)
        elif e[0] == 'loop':
            R = ring(cx, e[1])
            if R:
                walks.append(R)
                frees = [b for b in e[1].backs if any(x[0] == 'free' and same(b, x[1], R.leaf.h) or x[0] == 'call' and x[1] == 'free' and same(b, x[2], R.leaf.h)
                                                      for x in items(cx, b, {'free', 'call'}) if x[0] != 'loop')]
                if frees and R.incl:
                    freed.append(R.start)
    return n


def stretches(cx, results):
    out, seen = [], set()

    def visit(st, what):
        out.append((st, what))
        for e in st.events():
            if e[0] == 'loop' and id(e[1]) not in seen:
                seen.add(id(e[1]))
                for b in e[1].backs:
                    visit(b, 'a round of a loop')
    for st, v in results:
        visit(st, 'a path')
    return out


def memory(d, g, deep):
    r = Report('C06', 'proof', ENG,
               'Every address the allocator returns is compared with null before it is used; free_chain frees its header and every '
               'node of every row of the column exactly once, dropping a matrix every header and every node of every column; on '
               'every path of the search and of add_solution exactly the columns that stay covered are freed; on no path is an '
               'address freed twice or used after it was freed.', LTRUST)
    P = program(d)
    # who allocates and who frees
    callers = {}
    for f in P.fns.values():
        if not f.local or not f.has_body:
            continue
        for t in f.terms() if hasattr(f, 'terms') else []:
            pass
    B = run(d, 'DancingMatrix::new', args=build_args)
    if B.report(r, panics=False):
        n = len(B.cx.allocs)
        r.check(not B.cx.unchecked, 'null', 'DancingMatrix::new', 'an address from the allocator is used unchecked in %s' % sorted(B.cx.unchecked))
        r.floor('allocations', n, 1)
    F = run(d, 'Node::free_chain')
    if F.report(r, panics=False):
        judged(r, F, 'freed', lambda v, h: [('free', 'c'), ('ring', v, 'c', False, lambda x: [
            ('free', x), ('ring', h, x, False, lambda y: [('free', y)])])], 'Node::free_chain')
        for st, what in stretches(F.cx, F.results):
            if after_free(F.cx, st, what, r, 'Node::free_chain'):
                r.ok('use after free', 'Node::free_chain', what)
    D = run(d, 'DancingMatrix as std::ops::Drop>::drop')
    if D.report(r, panics=False):
        cx = D.cx
        base = D.args[0][1]
        ri = root_path(cx, base)
        for st, v in D.results:
            root = loops.leaf(cx, st, cx.base_value(st, base), (ri,))
            env = {'root': root}
            its = items(cx, st, {'w', 'free', 'call', 'sw'})

            def spec(v, h, outer, inner):
                def body(x):
                    return [('ring', v, x, True, lambda y: [('free', y)])] if inner else \
                        [('free', x), ('ring', v, x, False, lambda y: [('free', y)])]
                return [('ring', h, 'root', True, body)] if outer else \
                    [('ring', h, 'root', False, body), ('free', 'root')]
            verdict(r, 'freed', 'DancingMatrix::drop', [lambda v=v, h=h, o=o, i=i: match(cx, st, its, spec(v, h, o, i), env, {'w', 'free', 'call', 'sw'})
                                                        for o in (True, False) for i in (True, False) for v in VERT for h in HORIZ])
        for st, what in stretches(cx, D.results):
            if after_free(cx, st, what, r, 'DancingMatrix::drop'):
                r.ok('use after free', 'DancingMatrix::drop', what)
    for fn, R in (('solve_helper', run(d, 'DancingMatrix::solve_helper', hooks=hooks())), ('add_solution', add_run(d))):
        name = 'DancingMatrix::' + fn
        if not R.report(r, panics=False):
            continue
        cx = R.cx
        k = 0
        for st, v in R.results:
            nulls = [i for i in items(cx, st, {'sw'}) if i[0] == 'loop']
            try:
                # loops that only write the table of rows do not matter here
                ss = steps(cx, st)
            except Mismatch as e:
                (r.bad if e.sure else r.undecided)(*(('freed columns', name, e.text) if e.sure else (name, e.text)))
                continue
            cov, free = balance(cx, st, [s for s in ss if s[0] in ('call', 'all')])
            left = list(free)
            why = None
            first = next((s for s in ss if s[0] in ('call', 'all') and s[1] == 'cover'), None)
            for s in ss:
                if s[0] == 'all' and s[1] == 'free' and s[2].incl and first and (
                        same(st, first[2], s[2].start) if first[0] == 'call' else first[2].incl and same(st, first[2].start, s[2].start)):
                    why = 'the column that was covered first still holds the whole row and is freed while walking along it: %s' % show_step(s)
            for c in cov:
                hit = next((f for f in left if f[0] == c[0] and (same(st, f[2], c[2]) if c[0] == 'call' else same(st, f[2].start, c[2].start) and (f[2].f in HORIZ) == (c[2].f in HORIZ))), None)
                if hit:
                    left.remove(hit)
                elif not (c[0] == 'all' and alone(cx, st, c[2].start, c[2].f)):
                    why = why or 'stays covered and is not freed: %s' % show_step(c)
            for f in left:
                if not (f[0] == 'all' and alone(cx, st, f[2].start, f[2].f)):
                    why = why or 'freed and not covered: %s' % show_step(f)
            r.check(why is None, 'freed columns', name, why or 'the columns freed are those that stay covered')
            k += 1
        r.floor('paths of ' + fn, k, 2)
        for st, what in stretches(cx, R.results):
            if after_free(cx, st, what, r, name):
                r.ok('use after free', name, what)
    return r
