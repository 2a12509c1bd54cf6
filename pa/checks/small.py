"""Union-find, random choice, PNG conversion."""
from .common import *
from ..report import Report
from .. import models

ENG = 'abstract interpretation of MIR'


# ---------------------------------------------------------------------------------------------- union-find
def flag(cx, st, q, i, name):
    """field of element i of q: (value, state)"""
    v, s = read(cx, st, q, i)
    k = field(cx, q[5], name)
    if v is None or k is None:
        return None, st
    v = cx.walk(s, v, (k,))
    return v, s


def is_root(cx, st, q, i):
    v, s = flag(cx, st, q, i, 'root')
    return None if v is None else s.known(v)


def find_contract(cx, st, i, base, path):
    """find of i < length: returns a root below the length; flags of elements stay, parents may change"""
    st = st.copy()
    q = cx.read(st, base, path)
    n = cx.fresh(st, 'set')
    nq = ('Q', q[1], q[2], ('gen', n, q[5], (), None), (), q[5])
    r = declare(cx.fresh(st, 'root'), 0, U64)
    st.assume(ge(q[2] - q[1] - 1 - r))
    seen = list(cx.indices) + [e[2] for e in st.events() if e[0] == 'find'] + [i]
    k = field(cx, q[5], 'root')
    for j in seen + [r]:
        if j is r:
            known = True
        else:
            known = is_root(cx, st, q, j)
        v, s = read(cx, st, nq, j)
        if v is None or known is None:
            continue
        w = cx.walk(s, v, (k,))
        st.assume(w if known else neg(w))
        if not known:
            st.assume(ne(r - j))
    # an element that is a root is its own root
    v, s = read(cx, st, q, i)
    root_i = cx.walk(s, v, (k,)) if v is not None else None
    if root_i is not None:
        st.assume(imp(root_i, eq(r - i)))
    cx.write(st, base, path, nq)
    cx.emit(st, 'find', i, r, q, nq)
    return st, r


def elements_place(cx, st, ref_):
    v = ref_
    while isinstance(v, tuple) and v[0] == 'R':
        at, v = v, cx.read(st, v[1], v[2])
    if not (isinstance(v, tuple) and v[0] == 'S'):
        raise Unsupported('disjoint set of unknown shape')
    for i, f in enumerate(v[2]):
        if isinstance(f, tuple) and f[0] == 'Q':
            return at[1], at[2] + (i,)
    raise Unsupported('disjoint set without a vector')


def h_find(cx, st, c):
    base, path = elements_place(cx, st, c.args[0])
    q = cx.read(st, base, path)
    i = models.poly(c.args[1])
    if not st.decide(ge(q[2] - q[1] - 1 - i)):
        return models.none(c.dty)
    s, r = find_contract(cx, st, i, base, path)
    return models.Multi([(s, models.some(r, c.dty))])


def h_rec(cx, st, fn, args, call):
    ints = [a for a in args if isinstance(a, Poly)]
    refs = [a for a in args if isinstance(a, tuple) and a[0] == 'R']
    if len(ints) != 1 or len(refs) != 1:
        raise Unsupported('recursion of unknown shape in ' + fn.short())
    base, path = elements_place(cx, st, refs[0])
    s, r = find_contract(cx, st, ints[0], base, path)
    return [(s, r)]


def ds_run(d, name, hooks):
    h = {'recursion': h_rec}
    for k in program(d).fns.values():
        for m, f in hooks:
            if k.short().endswith(m):
                h[('fn', k.name)] = f

    def setup(cx):
        cx.indices = [sym('a1'), sym('a2')]
    return Run(d, name, h, {'find', 'store', 'push', 'pop'}, setup=setup)


def same(cx, st, x, r, q):
    """formula-free test: r is the root of the set of x"""
    f = st.facts
    if f.proves(eq(x - r)) and is_root(cx, st, q, x) is True:
        return True
    for e in st.events():
        if e[0] == 'find' and f.proves(eq(e[2] - r)):
            if f.proves(eq(e[1] - x)):
                return True
            v, s = flag(cx, st, e[3], x, 'value')
            if v is not None and s.facts.proves(eq(v - e[1])) and is_root(cx, st, e[3], x) is False:
                return True
    return False


def stores(cx, st):
    return [e for e in st.events() if e[0] == 'store' and elem_name(cx, e[6]) == 'Element']


def final(cx, st, R):
    base, path = elements_place(cx, st, R.args[0])
    return cx.read(st, base, path)


def union_find(d, g, deep):
    r = Report('C22', 'proof', ENG + ', recursion by contract',
               'find: None exactly for an index beyond the end, otherwise a root reached by following parents from the index; it changes parents only, and only to the root of the same set. '
               'common_set: whether the two roots are equal. union: links the root of the smaller set below the root of the other and adds up their sizes, and changes nothing when the roots are equal. '
               'add and with_size create singletons.', TRUST)
    # find
    R = ds_run(d, 'DisjointSet::find', [])
    # that parents lie in the set is part of the contract of the recursion; without one it would have to be an invariant of the loop
    looped = R.fn is not None and any(loops_in(st) for st, _ in R.results)
    if R.report(r, kinds=set() if looped else {'index'}):
        cx = R.cx
        at = R.fn.short()
        idx = R.args[1]
        q0 = cx.base_value(St(), R.args[0][1]) if R.args[0][0] == 'R' else None
        for st, v in R.results:
            f = st.facts
            if loops_in(st):
                r.undecided(at, 'find as a loop is not handled')
                continue
            q = final(cx, st, R)
            n = q[2] - q[1]
            if v[0] != 'E':
                r.undecided(at, 'result of unknown shape')
            elif v[2] == 0:
                r.check(f.proves(ge(idx - n)), 'None only beyond the end', at, 'None for an index that may be in range')
                r.check(not stores(cx, st), 'None changes nothing', at, 'an element is changed')
            else:
                x = v[3][0]
                r.check(f.proves(ge(n - 1 - idx)), 'Some only in range', at, 'Some for an index beyond the end')
                r.check(f.proves(ge(n - 1 - x)) and is_root(cx, st, q, x) is True, 'the result is a root', at, 'returns %s' % pp(x))
                r.check(same(cx, st, idx, x, q), 'the root of the index asked for', at, 'returns %s' % pp(x))
                for e in stores(cx, st):
                    compression(cx, r, at, st, e)
    # common_set
    R = ds_run(d, 'DisjointSet::common_set', [('DisjointSet::find', h_find)])
    if R.report(r, kinds={'index'}):
        cx = R.cx
        at = R.fn.short()
        for st, v in R.results:
            pair_rules(cx, r, at, st, v, R)
            if v[0] == 'E' and v[2] == 1 and roots(cx, st, R):
                a, b, q = roots(cx, st, R)
                x = v[3][0]
                k = st.known(x)
                same_ = st.known(eq(a - b))
                ok = x in (eq(a - b), eq(b - a)) or k is not None and k == same_
                r.check(ok, 'common_set compares the roots', at, 'returns %s' % show(x))
            for e in stores(cx, st):
                compression(cx, r, at, st, e)
    # union
    R = ds_run(d, 'DisjointSet::union', [('DisjointSet::find', h_find)])
    if R.report(r, kinds={'index'}):
        cx = R.cx
        at = R.fn.short()
        for st, v in R.results:
            pair_rules(cx, r, at, st, v, R)
            if v[0] != 'E' or v[2] == 0:
                for e in stores(cx, st):
                    compression(cx, r, at, st, e)
                continue
            ab = roots(cx, st, R)
            if ab is None:
                continue
            a, b, q = ab
            if st.known(eq(a - b)) is True:
                for e in stores(cx, st):
                    compression(cx, r, at, st, e)
                continue
            linked(cx, r, at, st, a, b, q, final(cx, st, R))
    # creation
    for name in ('DisjointSet::with_size', 'DisjointSet::add', 'DisjointSet::new'):
        R = ds_run(d, name, [])
        if R.fn is None:
            continue
        if not R.report(r, panics=False):
            continue
        cx, at = R.cx, R.fn.short()
        for st, v in R.results:
            if name.endswith('add'):
                ps = [e for e in st.events() if e[0] in ('push', 'store')]
                r.check(len(ps) == 1 and ps[0][0] == 'push' and single(cx, st, ps[0][4]), 'add appends a singleton', at, str(ps)[:150])
            else:
                q = next((x for x in v[2] if isinstance(x, tuple) and x[0] == 'Q'), None) if v[0] == 'S' else None
                if q is None:
                    r.undecided(at, 'result of unknown shape')
                    continue
                want = R.args[0] if R.args else const(0)
                r.check(st.facts.proves(eq(q[2] - q[1] - want)), 'as many sets as asked for', at, 'length %s' % pp(q[2] - q[1]))
                if not st.facts.proves(eq(q[2] - q[1])):
                    i = declare('any', 0, MAXLEN)
                    s = st.copy()
                    s.assume(ge(q[2] - q[1] - 1 - i))
                    x, s = read(cx, s, q, q[1] + i)
                    r.check(x is not None and single(cx, s, x), 'every set is a singleton', at, str(x)[:100])
    return r


def single(cx, st, v):
    if v[0] != 'S':
        return False
    k, s = field(cx, v[1], 'root'), field(cx, v[1], 'value')
    return st.known(v[2][k]) is True and st.facts.proves(eq(v[2][s] - 1))


def loops_in(st):
    return [e for e in st.events() if e[0] == 'loop']


def compression(cx, r, at, st, e):
    """a store that moves an element directly below the root of its own set"""
    k = field(cx, e[6][5], 'value')
    x, v = e[3], e[5]
    if e[4] == () and isinstance(v, tuple) and v[0] == 'S':
        ok = st.known(v[2][field(cx, e[6][5], 'root')]) is False
        v = v[2][k]
    else:
        ok = e[4] == (k,)
    ok = ok and is_root(cx, st, e[6], x) is False and isinstance(v, Poly) and same(cx, st, x, v, e[6])
    r.check(ok, 'parents change only to the root of the same set', at, 'element %s is given %s' % (pp(x), pp(v) if isinstance(v, Poly) else str(v)[:60]))


def roots(cx, st, R):
    """the roots of the two arguments and the elements after they were found"""
    a = b = None
    fs = [e for e in st.events() if e[0] == 'find']
    for e in fs:
        if a is None and st.facts.proves(eq(e[1] - R.args[1])):
            a = e
        elif b is None and st.facts.proves(eq(e[1] - R.args[2])):
            b = e
    if a is None or b is None:
        return None
    return a[2], b[2], fs[-1][4]


def pair_rules(cx, r, at, st, v, R):
    f = st.facts
    q = final(cx, st, R)
    n = q[2] - q[1]
    if v[0] != 'E':
        r.undecided(at, 'result of unknown shape')
    elif v[2] == 0:
        bad = disj([ge(R.args[1] - n), ge(R.args[2] - n)])
        r.check(f.proves(bad), 'None only for an index beyond the end', at, 'None although both indices may be in range')
    else:
        r.check(f.proves(ge(n - 1 - R.args[1])) and f.proves(ge(n - 1 - R.args[2])), 'Some only when both are in range', at, 'Some for an index beyond the end')
        if roots(cx, st, R) is None and not f.proves(eq(R.args[1] - R.args[2])):
            r.undecided(at, 'the two roots are not looked up in a recognised way')


def linked(cx, r, at, st, a, b, q, q2):
    """after union of the different roots a and b: one is below the other, which has both sizes; nothing else changed"""
    f = st.facts
    kv, kr = field(cx, q[5], 'value'), field(cx, q[5], 'root')
    va, s = flag(cx, st, q, a, 'value')
    vb, s = flag(cx, s, q, b, 'value')
    if va is None or vb is None:
        r.undecided(at, 'elements cannot be read')
        return
    for e in stores(cx, st):
        if not (f.proves(eq(e[3] - a)) or f.proves(eq(e[3] - b))):
            compression(cx, r, at, st, e)
    ok = False
    for top, low, vl, vt in ((a, b, vb, va), (b, a, va, vb)):
        rt, s1 = flag(cx, st, q2, top, 'root')
        wt, s1 = flag(cx, s1, q2, top, 'value')
        rl, s1 = flag(cx, s1, q2, low, 'root')
        wl, s1 = flag(cx, s1, q2, low, 'value')
        if None in (rt, wt, rl, wl):
            continue
        if s1.known(rt) is True and s1.known(rl) is False:
            ok = True
            r.check(s1.facts.proves(eq(wt - va - vb)), 'the size of a union is the sum of the sizes', at, 'size %s' % pp(wt))
            r.check(s1.facts.proves(eq(wl - top)), 'the smaller root is put below the larger', at, 'parent %s' % pp(wl))
            r.check(f.proves(ge(vt - vl)), 'the smaller set goes below the larger', at, 'sizes %s below %s' % (pp(vl), pp(vt)))
    r.check(ok, 'exactly one of two different roots stays a root', at, 'roots %s and %s' % (pp(a), pp(b)))


# ---------------------------------------------------------------------------------------------- random choice
def random_choice(d, g, deep):
    r = Report('C24', 'proof', ENG,
               'Every path of choose_random: None only for an empty vector, which is left alone; otherwise one index is drawn, from exactly 0..length, the element there is removed and returned, '
               'and no other element is added or removed.', TRUST + ['the random generator draws uniformly'])
    R = Run(d, 'util::choose_random', events={'rnd', 'push', 'pop', 'store', 'swap_remove', 'remove', 'sort'})
    if not R.report(r):
        return r
    cx, at = R.cx, R.fn.short()
    a = R.args[0]
    q0 = cx.read(St(), a[1], a[2])
    n = q0[2] - q0[1]
    some_ = none_ = 0
    for st, v in R.results:
        f = st.facts
        ev = [e for e in st.events() if e[0] != 'mark']
        q = cx.read(st, a[1], a[2])
        ch = [e for e in ev if e[0] in ('push', 'pop', 'store', 'swap_remove', 'remove', 'sort')]
        if v[0] != 'E':
            r.undecided(at, 'result of unknown shape')
        elif v[2] == 0:
            none_ += 1
            r.check(f.proves(eq(n)), 'None only when empty', at, 'None for a vector that may have elements')
            r.check(not ch, 'None changes nothing', at, 'the vector is changed')
        else:
            some_ += 1
            rnd = [e for e in ev if e[0] == 'rnd']
            r.check(f.proves(ge(n - 1)), 'Some only when not empty', at, 'Some for an empty vector')
            if any(e[0] == 'loop' for e in ev) or any(e[0] == 'sort' for e in ch):
                r.undecided(at, 'the choice is made in a way that is not recognised')
                continue
            if len(rnd) == 1:
                k, lo, hi = rnd[0][1:4]
                r.check(f.proves(eq(lo)) and f.proves(eq(hi - n)), 'every index can be drawn', at, 'drawn from %s..%s' % (pp(lo), pp(hi)))
            else:
                r.bad('one draw', at, '%d draws' % len(rnd))
                continue
            x, s2 = read(cx, st, q0, k)
            rm = [e for e in ch if e[0] in ('swap_remove', 'remove', 'pop')]
            if len(rm) != 1 and ch and rm:
                r.undecided(at, 'the element is removed in a way that is not recognised')
                continue
            r.check(len(rm) == 1, 'one element is removed', at, '%d removals' % len(rm))
            last, _ = read(cx, st, q0, n - 1)
            same = [x] + ([last] if f.proves(eq(n - 1 - k)) else []) + ([read(cx, st, q0, q0[1])[0]] if f.proves(eq(k)) else [])
            r.check(v[3][0] in same, 'the element at the drawn index is returned', at, 'returns %s' % str(v[3][0])[:100])
            if len(ch) == 1 and rm and rm[0][0] != 'pop':
                r.check(f.proves(eq(rm[0][3] - k)), 'the drawn element is removed', at, 'element %s is removed, %s was drawn' % (pp(rm[0][3]), pp(k)))
            elif rm and rm[0][0] == 'pop' and not f.proves(eq(n - 1 - k)):
                # the last element has to take the place of the one drawn
                now, _ = read(cx, st, q, k)
                if now is not None and now == last:
                    r.ok('the drawn element is removed', at, 'the last element takes its place')
                elif len(ch) == 1 and q[3] == q0[3] and q[4] == q0[4]:
                    r.bad('the drawn element is removed', at, 'the last element is removed, %s was drawn' % pp(k))
                else:
                    r.undecided(at, 'the element is removed in a way that is not recognised')
            elif len(ch) > 1 and not (v[3][0] == (rm[0][4] if len(rm[0]) > 4 else None)):
                r.undecided(at, 'the element is removed in a way that is not recognised')
            r.check(f.proves(eq(q[2] - q[1] - n + 1)), 'one element fewer', at, 'length %s' % pp(q[2] - q[1]))
    if not some_ or not none_:
        r.bad('both outcomes', at, 'no path that returns %s' % ('Some' if not some_ else 'None'))
    return r


# ---------------------------------------------------------------------------------------------- PNG
def png(d, g, deep):
    r = Report('C23', 'proof', ENG,
               'Every path of image_to_png_bytes encodes the given image once, as PNG, into an initially empty vector; an error of the encoder is returned as it is, and Ok carries '
               'the bytes written and nothing else.', TRUST + ['the PNG encoder of the image crate is lossless'])
    R = Run(d, 'image_to_png_bytes', events={'write_to', 'push', 'pop', 'store', 'put', 'rect', 'text', 'sort', 'swap_remove', 'remove'})
    if not R.report(r):
        return r
    cx, at = R.cx, R.fn.short()
    oks = errs = 0
    for st, v in R.results:
        ev = [e for e in st.events() if e[0] != 'mark']
        ws = [e for e in ev if e[0] == 'write_to']
        if v[0] != 'E':
            r.undecided(at, 'result of unknown shape')
            continue
        if len(ws) != 1 and any(e[0] == 'loop' for e in ev):
            r.undecided(at, 'encoding in a loop')
            continue
        if len(ws) != 1:
            r.bad('encoded once', at, 'write_to is called %d times' % len(ws))
            continue
        w = ws[0]
        if w[5] is None:
            r.undecided(at, 'where the bytes are written is not recognised')
            continue
        r.check(vname(cx, st, w[3]) == 'Png', 'encoded as PNG', at, 'format %s' % (w[3],))
        r.check(w[1] == 'a0', 'the given image is encoded', at, 'image %s' % (w[1],))
        okf = cx.variant_is(w[4], 0)
        if v[2] == 0:
            oks += 1
            q = v[3][0]
            r.check(st.facts.proves(okf), 'Ok only when encoding succeeded', at, 'Ok although encoding may have failed')
            r.check(q == w[6], 'Ok carries the bytes written', at, str(q)[:120])
            r.check(st.facts.proves(eq(w[5][2] - w[5][1])) and st.facts.proves(eq(w[7])), 'written from the start of an empty vector', at, str(w[5])[:100])
        else:
            errs += 1
            r.check(st.facts.proves(neg(okf)), 'Err only when encoding failed', at, 'Err although encoding may have succeeded')
            x = v[3][0]
            r.check(x[0] == 'SE' and x[1] == w[4][1] + '.Err.0', 'the error of the encoder is returned', at, str(x)[:100])
    if not oks or not errs:
        r.bad('both outcomes', at, 'success or failure of the encoder is not passed on')
    return r
