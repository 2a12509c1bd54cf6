"""Relational numeric domain: conjunctions of polynomial (in)equalities over named symbols.

Entailment is decided by linear arithmetic over monomials (exact simplex), with integer tightening, the
defining axioms of quotients/remainders and products with non-negative factors."""
import ctypes, hashlib, math, os, subprocess, tempfile
from array import array

_lib = None


def lib():
    global _lib
    if _lib is None:
        from .build import WORK
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lp.c')
        h = hashlib.sha1(open(here, 'rb').read()).hexdigest()[:12]
        so = os.path.join(WORK, 'lp-%s.so' % h)
        if not os.path.exists(so):
            os.makedirs(WORK, exist_ok=True)
            tmp = so + '.%d' % os.getpid()
            subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, here])
            os.rename(tmp, so)
        _lib = ctypes.CDLL(so)
        _lib.lp_empty.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    return _lib


_polys = {}


class Poly:
    """hash-consed: equal polynomials are the same object"""
    __slots__ = ('t', '_syms', '_mons', '_deg', '_cs', '_row')

    def __new__(cls, d):
        t = tuple(sorted((m, c) for m, c in d.items() if c))
        r = _polys.get(t)
        if r is None:
            r = object.__new__(cls)
            r.t = t
            r._syms = r._mons = r._deg = r._cs = r._row = None
            _polys[t] = r
        return r

    def __add__(self, o):
        if isinstance(o, int):
            o = const(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        if isinstance(o, int):
            o = const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({m: c * o for m, c in self.t})
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return Poly(d)

    __rmul__ = __mul__

    @property
    def const(self):
        """int value if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def c0(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def syms(self):
        if self._syms is None:
            self._syms = frozenset(s for m, _ in self.t for s in m)
        return self._syms

    def subst(self, env):
        if not any(s in env for s in self.syms()):
            return self
        r = ZERO
        for m, c in self.t:
            p = const(c)
            for s in m:
                p = p * (env[s] if s in env else sym(s))
            r = r + p
        return r

    def coef(self, m):
        for k, c in self.t:
            if k == m:
                return c
        return 0

    def mons(self):
        """the non-linear monomials"""
        if self._mons is None:
            self._mons = frozenset(m for m, _ in self.t if len(m) > 1)
        return self._mons

    def degree(self):
        if self._deg is None:
            self._deg = max((len(m) for m, _ in self.t), default=0)
        return self._deg

    def single(self):
        """the symbol if self is exactly one symbol"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t:
            n = '*'.join(m)
            if not m:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + n)
            elif c == -1:
                out.append('-' + n)
            else:
                out.append('%+d*%s' % (c, n))
        s = ''.join(out)
        return s[1:] if s[0] == '+' else s


def const(n):
    return Poly({(): int(n)})


_symc = {}


def sym(s):
    r = _symc.get(s)
    if r is None:
        r = _symc[s] = Poly({(s,): 1})
    return r


ZERO, ONE = const(0), const(1)

# name -> (lo, hi, axioms, implied-by-name); global, content addressed by name
SYM = {}


class Sy:
    __slots__ = ('lo', 'hi', 'ax')

    def __init__(self, lo, hi, ax=()):
        self.lo, self.hi, self.ax = lo, hi, tuple(ax)


def declare(name, lo, hi, ax=()):
    y = SYM.get(name)
    if y is None:
        SYM[name] = Sy(lo, hi, ax)
    elif (y.lo, y.hi) != (lo, hi):
        # the same name for something of another range: a symbol of its own
        return declare('%s|%s:%s' % (name, lo, hi), lo, hi, ax)
    return sym(name)


def tighten(p):
    """normalises p >= 0 over the integers"""
    g = 0
    for m, c in p.t:
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.t if m != ()}
        d[()] = p.c0() // g
        return Poly(d)
    return p


# ---- formulas -------------------------------------------------------------------------------------------
T, F = ('T',), ('F',)


def ge(p):
    c = p.const
    if c is not None:
        return T if c >= 0 else F
    return ('ge', tighten(p))


def eq(p):
    c = p.const
    if c is not None:
        return T if c == 0 else F
    if p.t[0][1] < 0:
        p = -p
    return ('eq', p)


def ne(p):
    c = p.const
    if c is not None:
        return T if c != 0 else F
    if p.t[0][1] < 0:
        p = -p
    return ('ne', p)


def lt(a, b):
    return ge(b - a - 1)


def le(a, b):
    return ge(b - a)


def neg(f):
    k = f[0]
    if k == 'T':
        return F
    if k == 'F':
        return T
    if k == 'ge':
        return ge(-f[1] - 1)
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return ('eq', f[1])
    if k == 'b':
        return ('nb', f[1])
    if k == 'nb':
        return ('b', f[1])
    if k == 'and':
        return disj([neg(g) for g in f[1]])
    if k == 'or':
        return conj([neg(g) for g in f[1]])
    raise ValueError(f)


def conj(fs):
    out = []
    for f in fs:
        if f == F:
            return F
        if f == T:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def disj(fs):
    out = []
    for f in fs:
        if f == T:
            return T
        if f == F:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def imp(a, b):
    return disj([neg(a), b])


def fsyms(f):
    if f[0] in ('ge', 'eq', 'ne'):
        return f[1].syms()
    if f[0] in ('b', 'nb'):
        return frozenset([f[1]])
    if f[0] in ('and', 'or'):
        return frozenset().union(*[fsyms(g) for g in f[1]])
    return frozenset()


def fsubst(f, env):
    k = f[0]
    if k == 'ge':
        return ge(f[1].subst(env))
    if k == 'eq':
        return eq(f[1].subst(env))
    if k == 'ne':
        return ne(f[1].subst(env))
    if k == 'b' or k == 'nb':
        v = env.get(f[1])
        if v is None:
            return f
        return v if k == 'b' else neg(v)
    if k == 'and':
        return conj([fsubst(g, env) for g in f[1]])
    if k == 'or':
        return disj([fsubst(g, env) for g in f[1]])
    return f


# ---- facts ----------------------------------------------------------------------------------------------

STATS = {'lp': 0, 'queries': 0, 'cache': 0}
_cache = {}
_lpcache = {}
LIM = 1 << 100


def _halves(v):
    v &= (1 << 128) - 1
    hi, lo = v >> 64, v & ((1 << 64) - 1)
    return (hi - (1 << 64) if hi >> 63 else hi, lo - (1 << 64) if lo >> 63 else lo)


def _row(p):
    r = p._row
    if r is None:
        if all(-LIM < c < LIM for _, c in p.t):
            r = (_halves(p.c0()), [(m,) + _halves(c) for m, c in p.t if m])
        else:
            r = False
        p._row = r
    return r


def lp_empty(ges, eqs):
    """ges, eqs: lists of Poly (>= 0 / == 0); monomials are independent variables"""
    key = (frozenset(ges), frozenset(eqs))
    r = _lpcache.get(key)
    if r is not None:
        return r
    STATS['lp'] += 1
    # rows that do not fit the solver's integers are dropped (fewer constraints: sound)
    rg = [r for r in map(_row, ges) if r is not False]
    re_ = [r for r in map(_row, eqs) if r is not False]
    mons = {}
    rows = rg + re_
    for _, r in rows:
        for m, _h, _l in r:
            if m not in mons:
                mons[m] = len(mons)
    n = len(mons)
    m_ = len(rows)
    buf = array('q', bytes(m_ * (n + 1) * 16))
    w = 2 * (n + 1)
    o = 0
    for (h, l), r in rows:
        for m, mh, ml in r:
            k = o + 2 * mons[m]
            buf[k] = mh
            buf[k + 1] = ml
        buf[o + w - 2] = h
        buf[o + w - 1] = l
        o += w
    eqf = (ctypes.c_int * max(1, m_))(*([0] * len(rg) + [1] * len(re_)))
    r = lib().lp_empty(m_, n, buf.buffer_info()[0], eqf, 400)
    r = (r == 1)
    if len(_lpcache) > 400000:
        _lpcache.clear()
    _lpcache[key] = r
    return r


class Facts:
    """Immutable set of facts."""
    __slots__ = ('ge', 'eq', 'ne', 'bools', 'ors', '_h', 'dead')

    def __init__(self, ge=(), eq=(), ne=(), bools=frozenset(), ors=(), dead=False):
        self.ge, self.eq, self.ne, self.bools, self.ors, self.dead = ge, eq, ne, bools, ors, dead
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.ge), frozenset(self.eq), frozenset(self.ne), self.bools, frozenset(self.ors))
        return self._h

    def items(self):
        return ([('ge', p) for p in self.ge] + [('eq', p) for p in self.eq] + [('ne', p) for p in self.ne]
                + [('b', b) if v else ('nb', b) for b, v in sorted(self.bools)] + list(self.ors))

    def add(self, f):
        """adds an atom / conjunction / (lazily) a disjunction without checking feasibility"""
        k = f[0]
        if k == 'T':
            return self
        if k == 'F':
            return Facts(self.ge, self.eq, self.ne, self.bools, self.ors, True)
        if k == 'and':
            r = self
            for g in f[1]:
                r = r.add(g)
            return r
        if k == 'ge':
            if f[1] in self.ge:
                return self
            return Facts(self.ge + (f[1],), self.eq, self.ne, self.bools, self.ors, self.dead)
        if k == 'eq':
            if f[1] in self.eq:
                return self
            return Facts(self.ge, self.eq + (f[1],), self.ne, self.bools, self.ors, self.dead)
        if k == 'ne':
            if f[1] in self.ne:
                return self
            return Facts(self.ge, self.eq, self.ne + (f[1],), self.bools, self.ors, self.dead)
        if k in ('b', 'nb'):
            v = (f[1], k == 'b')
            if (f[1], k != 'b') in self.bools:
                return Facts(self.ge, self.eq, self.ne, self.bools, self.ors, True)
            return Facts(self.ge, self.eq, self.ne, self.bools | {v}, self.ors, self.dead)
        if k == 'or':
            if f in self.ors:
                return self
            return Facts(self.ge, self.eq, self.ne, self.bools, self.ors + (f,), self.dead)
        raise ValueError(f)

    def meet(self, o):
        """facts common to both"""
        return Facts(tuple(x for x in self.ge if x in o.ge), tuple(x for x in self.eq if x in o.eq),
                     tuple(x for x in self.ne if x in o.ne), self.bools & o.bools,
                     tuple(x for x in self.ors if x in o.ors))

    # -- queries
    def infeasible(self):
        if self.dead:
            return True
        return self.proves(F)

    def proves(self, f):
        """True only if every integer valuation of the facts satisfies f"""
        if self.dead:
            return True
        k = f[0]
        if k == 'T':
            return True
        if k == 'and':
            return all(self.proves(g) for g in f[1])
        if k in ('b', 'nb') and (f[1], k == 'b') in self.bools:
            return True
        if k in ('ge', 'eq', 'ne') and f[1] in getattr(self, k):
            return True
        if k == 'or' and f in self.ors:
            return True
        STATS['queries'] += 1
        key = (f, self.key())
        r = _cache.get(key)
        if r is not None:
            STATS['cache'] += 1
            return r
        if k == 'eq':
            r = self.proves(ge(f[1])) and self.proves(ge(-f[1]))
        elif k == 'or':
            g = self
            for x in f[1]:
                g = g.add(neg(x))
            r = g._refute(fsyms(f), 2)
        else:
            r = self.add(neg(f))._refute(fsyms(f), 2)
        if len(_cache) > 1000000:
            _cache.clear()
        _cache[key] = r
        return r

    def _refute(self, seed, splits):
        if self.dead:
            return True
        rel = self._relevant(seed)
        if rel.dead:
            return True
        if rel._lp():
            return True
        if splits <= 0:
            return False
        # disequalities: one side may already be excluded
        for p in rel.ne:
            a, b = rel.add(ge(p - 1)), rel.add(ge(-p - 1))
            base = Facts(rel.ge, rel.eq, tuple(q for q in rel.ne if q != p), rel.bools, rel.ors)
            a, b = base.add(ge(p - 1)), base.add(ge(-p - 1))
            la, lb = a._lp(), b._lp()
            if la and lb:
                return True
            if la or lb:
                return (b if la else a)._refute(seed, splits)
        # disjunctions: unit propagation, then splitting
        if rel.ors:
            live = []
            for o in rel.ors:
                base = Facts(rel.ge, rel.eq, rel.ne, rel.bools, tuple(q for q in rel.ors if q != o))
                alts = [base.add(d) for d in o[1]]
                alts = [x for x in alts if not x.dead and not x._relevant(seed)._lp()]
                if not alts:
                    return True
                if len(alts) == 1:
                    return alts[0]._refute(set(seed) | fsyms(o) if seed else seed, splits)
                live.append((alts, fsyms(o)))
            live.sort(key=lambda x: len(x[0]))
            for alts, ss in live[:2]:
                if all(x._refute(set(seed) | ss if seed else seed, splits - 1) for x in alts):
                    return True
        # order of the co-factors of products sharing a factor
        mons = {m for p in rel.ge + rel.eq for m, _ in p.t if len(m) == 2}
        if mons:
            pairs = []
            by = {}
            for m in mons:
                for i in (0, 1):
                    by.setdefault(m[i], set()).add(m[1 - i])
            for b, xs in by.items():
                if len(xs) > 1:
                    xs = sorted(xs)
                    for i in range(len(xs)):
                        for j in range(i + 1, len(xs)):
                            pairs.append((sym(xs[i]), sym(xs[j])))
            cur = rel
            open_ = []
            for x, y in list(dict.fromkeys(pairs))[:12]:
                lo, mid, hi = cur.add(ge(y - x - 1)), cur.add(eq(x - y)), cur.add(ge(x - y - 1))
                l0, l1, l2 = lo._lp(), mid._lp(), hi._lp()
                if l0 and l1 and l2:
                    return True
                if l0 and l1:
                    cur = hi
                elif l1 and l2:
                    cur = lo
                elif l0 and l2:
                    cur = mid
                elif l0:
                    cur = cur.add(ge(x - y))
                elif l2:
                    cur = cur.add(ge(y - x))
            if cur is not rel:
                if cur._lp():
                    return True
                if splits > 1:
                    return cur._refute(seed, splits - 1)
        for p in rel.ne[:3]:
            base = Facts(rel.ge, rel.eq, tuple(q for q in rel.ne if q != p), rel.bools, rel.ors)
            if base.add(ge(p - 1))._refute(seed, splits - 1) and base.add(ge(-p - 1))._refute(seed, splits - 1):
                return True
        return False

    def _relevant(self, seed):
        """facts connected to the seed symbols, plus the axioms of the symbols met"""
        dead = self.dead
        # equalities between a symbol and a constant / symbol are common: no special treatment
        pool = [('ge', p, p._cs or _csyms(p)) for p in self.ge] + [('eq', p, p._cs or _csyms(p)) for p in self.eq] + \
               [('ne', p, p._cs or _csyms(p)) for p in self.ne] + [('or', o, _ocl(o)) for o in self.ors]
        for p in list(self.ge) + list(self.eq):
            if p.const is not None:
                if p in self.ge and p.const < 0 or p in self.eq and p.const != 0:
                    dead = True
        known = set(_closure(frozenset(seed)))
        if not seed:
            for _, _, ss in pool:
                known |= ss
        chosen = []
        rest = pool
        while True:
            nxt, hit = [], False
            for it in rest:
                ss = it[2]
                if not ss or not known.isdisjoint(ss):
                    chosen.append(it)
                    if not ss <= known:
                        known |= ss
                        hit = True
                else:
                    nxt.append(it)
            rest = nxt
            if not hit:
                break
        ges = tuple(p for k, p, _ in chosen if k == 'ge')
        eqs = tuple(p for k, p, _ in chosen if k == 'eq')
        nes = tuple(p for k, p, _ in chosen if k == 'ne')
        bm = dict(self.bools)
        ags, aes = [], []
        todo = [o for k, o, _ in chosen if k == 'or']
        while True:
            # simplify by the boolean literals, until nothing changes
            ors, learnt = [], False
            for o in todo:
                fs, sat = [], False
                for d in o[1]:
                    if d[0] in ('b', 'nb') and d[1] in bm:
                        if bm[d[1]] == (d[0] == 'b'):
                            sat = True
                            break
                        continue
                    if d[0] == 'and' and any(x[0] in ('b', 'nb') and bm.get(x[1], x[0] == 'b') != (x[0] == 'b') for x in d[1]):
                        continue
                    fs.append(d)
                if sat:
                    continue
                g = disj(fs) if len(fs) < len(o[1]) else o
                if g == F:
                    dead = True
                elif g[0] == 'or':
                    ors.append(g)
                else:
                    r = Facts(ges, eqs, nes, frozenset(), ()).add(g)
                    ges, eqs, nes = r.ge, r.eq, r.ne
                    dead = dead or r.dead
                    for n, v in r.bools:
                        if bm.get(n, v) != v:
                            dead = True
                        bm[n] = v
                        learnt = True
                    ors.extend(x for x in r.ors if x not in ors)
            todo = ors
            if not learnt or dead:
                break
        for s in known:
            y = SYM.get(s)
            if y is None:
                continue
            for kind, p in y.ax:
                if kind == 'ge':
                    ags.append(p)
                elif kind == 'eq':
                    aes.append(p)
        return Facts(ges + tuple(p for p in ags if p not in ges), eqs + tuple(p for p in aes if p not in eqs), nes,
                     frozenset(bm.items()), tuple(ors), dead)

    def _lp(self):
        """infeasibility of the (in)equalities, ignoring ne / ors"""
        if self.dead:
            return True
        key = (frozenset(self.ge), frozenset(self.eq))
        r = _lpc.get(key)
        if r is None:
            if len(_lpc) > 300000:
                _lpc.clear()
            r = _lpc[key] = self._lp0()
        return r

    def _lp0(self):
        ges = [p for p in self.ge if p.t]
        eqs = [p for p in self.eq if p.t]
        syms = set()
        big = 0
        mons = set()
        for p in ges + eqs:
            syms |= p.syms()
            c = abs(p.c0())
            if c > big:
                big = c
            mons |= p.mons()
        if not mons and not ges and not eqs:
            return False
        have = set(self.ge)
        ranges, wide = [], []
        for s in syms:
            y = SYM.get(s)
            if y is None:
                continue
            rl, rh = _ranges(s, y)
            if rl is not None and rl not in have:
                ranges.append(rl)
            if rh is not None:
                if y.hi <= 1 << 12:
                    if rh not in have:
                        ranges.append(rh)
                elif big > 1 << 12:
                    wide.append(rh)
        base = ges + ranges
        if lp_empty(base, eqs):
            return True
        if wide and lp_empty(base + wide, eqs):
            return True
        if not mons:
            return False
        # products of a fact with a non-negative symbol, when they stay inside the monomials in use
        nonneg = {s for s in syms if SYM.get(s) and SYM[s].lo is not None and SYM[s].lo >= 0}
        factors = {s for m in mons for s in m}
        part = {}
        for m in mons:
            if len(m) == 2:
                part.setdefault(m[0], set()).add(m[1])
                part.setdefault(m[1], set()).add(m[0])
        three = any(len(m) > 2 for m in mons)
        extra, extra_eq = [], []
        for m in mons:
            if all(s in nonneg for s in m):
                extra.append(Poly({m: 1}))
        for src, dst, signed in ((base, extra, True), (eqs, extra_eq, False)):
            for p in src:
                d = p.degree()
                if d == 1:
                    ss = p.syms()
                    for s in factors:
                        if (s in nonneg or not signed) and ss <= part.get(s, _none):
                            dst.append(_mul(p, sym(s)))
                elif d == 2 and three:
                    for s in factors:
                        if s in nonneg or not signed:
                            if all(tuple(sorted(m + (s,))) in mons for m, _ in p.t if m):
                                dst.append(_mul(p, sym(s)))
        if (extra or extra_eq) and lp_empty(base + extra, eqs + extra_eq):
            return True

        def prods(A, B):
            out = {}
            for i, p in enumerate(A):
                ok = None
                for s in p.syms():
                    ok = part.get(s, _none) if ok is None else ok & part.get(s, _none)
                    if not ok:
                        break
                if not ok:
                    continue
                for q in (A[i:] if B is None else A[i:] + B):
                    if q.syms() <= ok:
                        out[_mul(p, q)] = 1
                        if len(out) >= 120:
                            return list(out)
            return list(out)
        # products of two linear facts
        lin = [p for p in base if p.degree() == 1 and len(p.t) <= 4 and not p.syms().isdisjoint(factors)]
        extra2 = prods(lin, None)
        if extra2 and lp_empty(base + extra + extra2, eqs + extra_eq):
            return True
        # products of the ranges themselves
        wide = [p for p in wide if not p.syms().isdisjoint(factors) and p.c0() < 1 << 34]
        if wide:
            extra3 = prods(wide, ranges)
            if extra3 and lp_empty(base + wide + extra + extra3, eqs + extra_eq):
                return True
        # symbols equal to a factor: take their place
        env = _merge(ges, eqs, factors)
        if env:
            return Facts(tuple(dict.fromkeys(q for q in (p.subst(env) for p in ges) if q.t or q.c0() < 0)),
                         tuple(dict.fromkeys(q for q in (p.subst(env) for p in eqs) if q.t or q.c0() != 0)))._lp()
        return False


def _merge(ges, eqs, factors):
    """{symbol: equal symbol}, for classes that contain a factor of a product and another symbol"""
    up = {}

    def find(x):
        while up.get(x, x) != x:
            x = up[x]
        return x

    def pair(p):
        if len(p.t) != 2:
            return None
        (m, a), (n, b) = p.t
        return (m[0], n[0]) if len(m) == len(n) == 1 and a == -b and abs(a) == 1 else None
    have = set(ges)
    for p in eqs + [p for p in ges if len(p.t) == 2 and -p in have]:
        xy = pair(p)
        if xy:
            a, b = find(xy[0]), find(xy[1])
            if a != b:
                if b in factors and (a not in factors or b < a):
                    a, b = b, a
                up[b] = a
    return {x: sym(find(x)) for x in up if find(x) in factors}


_lpc = {}
_none = frozenset()
_rc = {}
_mc = {}


def _ranges(s, y):
    r = _rc.get(s)
    if r is None:
        r = _rc[s] = (None if y.lo is None else sym(s) - y.lo, None if y.hi is None else y.hi - sym(s))
    return r


def _mul(p, q):
    k = (p, q)
    r = _mc.get(k)
    if r is None:
        if len(_mc) > 300000:
            _mc.clear()
        r = _mc[k] = p * q
    return r


_closed = {}


def _closure(ss):
    """the symbols ss and every symbol their axioms mention"""
    out = None
    for s in ss:
        c = _closed.get(s)
        if c is None:
            seen = {s}
            st = [s]
            while st:
                y = SYM.get(st.pop())
                if y is not None:
                    for _, p in y.ax:
                        for z in p.syms():
                            if z not in seen:
                                seen.add(z)
                                st.append(z)
            c = _closed[s] = frozenset(seen)
        if len(c) > 1:
            out = (out or set(ss)) | c
    return ss if out is None else frozenset(out)


_oc = {}


def _ocl(o):
    r = _oc.get(o)
    if r is None:
        if len(_oc) > 200000:
            _oc.clear()
        r = _oc[o] = _closure(fsyms(o))
    return r


def _csyms(p):
    r = p._cs
    if r is None:
        r = p._cs = _closure(p.syms())
    return r


def divmod_syms(a, b, st=None):
    """quotient and remainder of non-negative a by positive b (both Poly); content addressed"""
    ca, cb = a.const, b.const
    if ca is not None and cb is not None:
        return const(ca // cb), const(ca % cb)
    k = '(%r)/(%r)' % (a, b)
    q, r = 'q' + k, 'r' + k
    if q not in SYM:
        hi = None
        pq, pr = sym(q), sym(r)
        ax = [('eq', pq * b + pr - a), ('ge', b - pr - 1)]
        declare(q, 0, (1 << 64) - 1, ax)
        declare(r, 0, (1 << 64) - 1, ax)
    return sym(q), sym(r)
