"""Loop analysis: exact unrolling of short loops, otherwise generalisation of what the loop changes plus inferred
inductive invariants (candidates that hold at entry and are preserved by every iteration; greatest such subset)."""
from . import lin
from .lin import Poly, const, sym, declare, ge, eq, ne, neg, conj, disj, imp, T, F, fsubst, fsyms
from .interp import LoopRec, root_trace, Unsupported, is_bool, MAXLEN, U64, St

UNROLL = 6


# ------------------------------------------------------------------------------------------------ element invariants
class Lt:
    """every integer reached by `path` from an element is < bound (and >= low)"""
    __slots__ = ('path', 'bound', 'strict')

    def __init__(self, path, bound, strict=True):
        self.path, self.bound, self.strict = path, bound, strict

    def key(self):
        return ('lt', self.path, self.bound, self.strict)

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'element%s %s %r' % (''.join('.%s' % (e,) for e in self.path), '<' if self.strict else '<=', self.bound)

    positional = False

    def _f(self, x):
        return ge(self.bound - x - (1 if self.strict else 0))

    def refine(self, cx, st, v, p):
        return self._ref(cx, st, v, self.path)

    def _ref(self, cx, st, v, path):
        if not path:
            if isinstance(v, Poly):
                st.assume(self._f(v))
            return v
        e = path[0]
        if e == '*':
            if isinstance(v, tuple) and v[0] == 'Q' and v[3][0] == 'gen':
                inv = Lt(path[1:], self.bound, self.strict)
                b = v[3]
                if inv not in b[3]:
                    return ('Q', v[1], v[2], (b[0], b[1], b[2], b[3] + (inv,), b[4]), v[4], v[5])
            return v
        if isinstance(e, tuple) and v[0] == 'SE':
            if len(path) == 1:
                x = cx.walk(st, v, (e,))
                if isinstance(x, Poly):
                    st.assume(imp(cx.variant_is(v, e[1]), self._f(x)))
                return v
            return v if st.known(cx.variant_is(v, e[1])) is not True else v
        if isinstance(e, tuple) and v[0] == 'E':
            if v[2] != e[1]:
                return v
            fs = list(v[3])
            fs[e[2]] = self._ref(cx, st, fs[e[2]], path[1:])
            return (v[0], v[1], v[2], tuple(fs))
        if isinstance(e, int) and v[0] == 'S':
            fs = list(v[2])
            fs[e] = self._ref(cx, st, fs[e], path[1:])
            return (v[0], v[1], tuple(fs))
        return v

    def holds(self, cx, st, v, p):
        return self._chk(cx, st, v, self.path)

    def _chk(self, cx, st, v, path):
        if not path:
            return isinstance(v, Poly) and st.facts.proves(self._f(v))
        e = path[0]
        if e == '*':
            return isinstance(v, tuple) and v[0] == 'Q' and seq_holds(cx, st, v, Lt(path[1:], self.bound, self.strict))
        if isinstance(e, tuple):
            if v[0] == 'E':
                return v[2] != e[1] or self._chk(cx, st, v[3][e[2]], path[1:])
            if v[0] == 'SE':
                x = cx.walk(st, v, (e,))
                s = st.copy()
                s.assume(cx.variant_is(v, e[1]))
                return s.facts.infeasible() or self._chk(cx, s, x, path[1:])
            return False
        if isinstance(e, int) and v[0] == 'S':
            return self._chk(cx, st, v[2][e], path[1:])
        return False


def seq_holds(cx, st, q, inv):
    """every element of the sequence satisfies inv"""
    s = st.copy()
    if s.facts.proves(ge(q[1] - q[2])):
        return True
    b = q[3]
    if b[0] == 'fill':
        if not (inv.holds(cx, s, b[1], None) if not inv.positional else base_pos(cx, s, q, inv)):
            return False
    elif b[0] == 'arr':
        for i, v in enumerate(b[1]):
            if any(w[0] == const(i) and w[1] == () for w in q[4]):
                continue
            if not inv.holds(cx, s, v, const(i)):
                return False
    elif b[0] == 'gen':
        if inv not in b[3] and not base_pos(cx, s, q, inv):
            return False
    elif b[0] == 'ext':
        if not seq_holds(cx, s, b[1], inv) or not inv.holds(cx, s, b[2], None):
            return False
    else:
        return False
    for idx, wp, val in q[4]:
        v = val
        if wp != ():
            rs = cx.forking(s, lambda x: cx.seq_read(x, q, idx))
            for x, v in rs:
                if not inv.holds(cx, x, v, idx):
                    return False
            continue
        if not inv.holds(cx, s, v, idx):
            return False
    return True


def base_pos(cx, st, q, inv):
    """the base (ignoring writes) satisfies inv at an arbitrary position"""
    s = st.copy()
    i = declare(cx.fresh(s, 'any'), 0, MAXLEN)
    s.assume(ge(i - q[1]))
    s.assume(ge(q[2] - 1 - i))
    for x, v in cx.forking(s, lambda x: cx.elem_base(x, q, i)):
        if not inv.holds(cx, x, v, i):
            return False
    return True


def kept_invs(cx, st, q):
    b = q[3]
    if b[0] != 'gen':
        return ()
    return tuple(inv for inv in b[3] if not inv.positional and seq_holds(cx, st, q, inv))


# ------------------------------------------------------------------------------------------------ differences
def diff(cx, a, b, path, out):
    """leaves at which a (loop head) and b (after an iteration) differ: out[path] = kind"""
    if a == b:
        return
    if isinstance(a, Poly) and isinstance(b, Poly):
        out[path] = 'int'
        return
    if is_bool(a) and is_bool(b):
        out[path] = 'bool'
        return
    ka = a[0] if isinstance(a, tuple) else None
    kb = b[0] if isinstance(b, tuple) else None
    if ka in ('S', 'I') and ka == kb and len(a[2]) == len(b[2]) and (ka == 'S' or a[1] == b[1]):
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            diff(cx, x, y, path + (i,), out)
        return
    if ka == 'E' and kb == 'E' and a[2] == b[2] and len(a[3]) == len(b[3]):
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            diff(cx, x, y, path + (('v', a[2], i),), out)
        return
    if ka in ('E', 'SE') and kb in ('E', 'SE'):
        out[path] = 'enum'
        return
    if ka == 'Q' and kb == 'Q':
        if a[1] != b[1]:
            out[path + ('#off',)] = 'int'
        if a[2] != b[2]:
            out[path + ('#end',)] = 'int'
        if a[3] != b[3] or a[4] != b[4]:
            out[path + ('#content',)] = 'content'
        return
    if ka == 'B' and kb == 'B':
        diff(cx, a[1], b[1], path + ('box',), out)
        return
    if ka == 'R' and kb == 'R' and a[1] == b[1] and len(a[2]) == len(b[2]) and (a[4] is None) == (b[4] is None):
        ok = True
        for x, y in zip(a[2], b[2]):
            if x != y and not (isinstance(x, tuple) and x[0] == 'i' and isinstance(y, tuple) and y[0] == 'i'):
                ok = False
        if ok:
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                if x != y:
                    out[path + ('#ix%d' % i,)] = 'int'
            if a[3] != b[3]:
                out[path + ('#roff',)] = 'int'
            if a[4] != b[4]:
                out[path + ('#rlen',)] = 'int'
            return
    if ka == 'STR' and kb == 'STR':
        out[path] = 'str'
        return
    if ka == 'IMG' and kb == 'IMG':
        out[path] = 'opaque'
        return
    out[path] = 'opaque'


def leaf(cx, st, v, path):
    """value of a leaf; None when the shape does not have it"""
    for n, e in enumerate(path):
        if isinstance(e, str) and e.startswith('#'):
            if e == '#off':
                return v[1] if v[0] == 'Q' else None
            if e == '#end':
                return v[2] if v[0] == 'Q' else None
            if e == '#content':
                return v if v[0] == 'Q' else None
            if v[0] != 'R':
                return None
            if e == '#roff':
                return v[3]
            if e == '#rlen':
                return v[4]
            return v[2][int(e[3:])][1] if len(v[2]) > int(e[3:]) else None
        k = v[0] if isinstance(v, tuple) else None
        if k in ('S', 'I') and isinstance(e, int):
            v = v[2][e]
        elif k == 'E' and isinstance(e, tuple):
            if v[2] != e[1]:
                return None
            v = v[3][e[2]]
        elif k == 'B':
            v = v[1]
        else:
            return None
    return v


def put(cx, st, v, path, new):
    e = path[0]
    if isinstance(e, str) and e.startswith('#'):
        if e == '#off':
            return ('Q', new, v[2], v[3], v[4], v[5])
        if e == '#end':
            return ('Q', v[1], new, v[3], v[4], v[5])
        if e == '#content':
            return ('Q', v[1], v[2], new, (), v[5])
        if e == '#roff':
            return ('R', v[1], v[2], new, v[4])
        if e == '#rlen':
            return ('R', v[1], v[2], v[3], new)
        i = int(e[3:])
        p = list(v[2])
        p[i] = ('i', new)
        return ('R', v[1], tuple(p), v[3], v[4])
    rest = path[1:]
    k = v[0]
    if k in ('S', 'I'):
        fs = list(v[2])
        fs[e] = new if not rest else put(cx, st, fs[e], rest, new)
        return (k, v[1], tuple(fs))
    if k == 'E':
        fs = list(v[3])
        fs[e[2]] = new if not rest else put(cx, st, fs[e[2]], rest, new)
        return ('E', v[1], v[2], tuple(fs))
    if k == 'B':
        return ('B', new if not rest else put(cx, st, v[1], rest, new))
    raise Unsupported('loop leaf')


def leaf_range(cx, key, path, v0):
    """range of an integer leaf"""
    last = path[-1] if path else None
    if last in ('#end', '#off'):
        return (None, None)
    if isinstance(last, str) and last.startswith('#'):
        return (0, MAXLEN)
    t = None
    if key[0] == 'L' and key[1] < len(cx.stack):
        fn = cx.stack[key[1]]
        if not getattr(fn, 'synth', False) and key[2] < len(fn.locals):
            t = fn.locals[key[2]]
    if key[0] in ('G',):
        t = cx.gty.get(key)
    v = v0
    for e in path:
        t2 = None
        if isinstance(v, tuple) and v[0] == 'S' and v[1] is not None:
            x = cx.T[v[1]]
            if x['k'] == 'tuple':
                t2 = x['elems'][e]
            elif x['k'] == 'adt' and not x['enum'] and not x['union']:
                t2 = x['variants'][0]['fields'][e][1] if e < len(x['variants'][0]['fields']) else None
            elif x['k'] == 'closure' and x.get('upvars'):
                t2 = cx.T[x['upvars']]['elems'][e]
            v = v[2][e]
        elif isinstance(v, tuple) and v[0] == 'E' and v[1] is not None and isinstance(e, tuple):
            t2 = cx.T[v[1]]['variants'][e[1]]['fields'][e[2]][1]
            v = v[3][e[2]]
        elif isinstance(v, tuple) and v[0] in ('I',):
            v = v[2][e]
            if isinstance(v, Poly):
                return (0, U64)
        elif isinstance(v, tuple) and v[0] == 'E':
            v = v[3][e[2]]
        elif isinstance(v, tuple) and v[0] == 'S':
            v = v[2][e]
        elif isinstance(v, tuple) and v[0] == 'B':
            v = v[1]
        t = t2
    if t is not None:
        r = cx.prog.int_range(t)
        if r is not None:
            return r
    return (None, None)


class Leaf:
    __slots__ = ('key', 'path', 'kind', 'name', 'v0', 'h', 'ty')

    def __init__(self, key, path, kind, name, v0, h, ty=None):
        self.key, self.path, self.kind, self.name, self.v0, self.h, self.ty = key, path, kind, name, v0, h, ty


def label(cx, fr, key, path):
    if key[0] == 'L':
        n = '%d:%d' % (key[1], key[2])
        if key[1] < len(cx.stack):
            fn = cx.stack[key[1]]
            n = getattr(fn, 'names', {}).get(key[2], n) if not getattr(fn, 'synth', False) else n
            n = '%s%d.%d' % (n, key[1], key[2])
    else:
        n = '.'.join(str(x) for x in key)
    return n + ''.join('.%s' % (e if not isinstance(e, tuple) else '%s_%s' % (e[1], e[2])) for e in path)


def generalise(cx, fr, hdr, S0, mod):
    H = S0.copy()
    H.cnt = S0.cnt + 1
    fn = fr.fn
    pre = '%s@%s~%d/' % (fn.short().split('::')[-1], hdr, H.cnt)
    leaves = []
    for key, path in sorted(mod, key=lambda kp: (str(kp[0]), str(kp[1]))):
        kind = mod[(key, path)]
        root = H.mem[key]
        v0 = leaf(cx, H, S0.mem[key], path)
        if v0 is None:
            raise Unsupported('loop state changes shape at %s' % label(cx, fr, key, path))
        name = pre + label(cx, fr, key, path)
        ty = None
        if kind == 'int':
            lo, hi = leaf_range(cx, key, path, S0.mem[key])
            h = declare(name, lo, hi)
            name = h.single()
        elif kind == 'bool':
            h = ('b', name)
        elif kind == 'enum':
            ty = v0[1] if v0[0] == 'E' else v0[2]
            if ty is None:
                raise Unsupported('enum of unknown type changes in a loop')
            h = ('SE', name, ty)
        elif kind == 'content':
            ty = v0[5]
            tm = cx.ref_template(v0) if ty is not None and cx.T[ty]['k'] == 'ref' else None
            h = ('gen', name, ty, (), tm)
        elif kind == 'str':
            h = ('STR', ('s', name))
        else:
            t = None
            if key[0] == 'L' and not path and key[1] < len(cx.stack):
                f2 = cx.stack[key[1]]
                if not getattr(f2, 'synth', False):
                    t = f2.locals[key[2]]
            h = cx.of_type(t, name, H) if t is not None else ('O', ('loop', name))
        if not path:
            H.mem[key] = h
        else:
            H.mem[key] = put(cx, H, root, path, h)
        leaves.append(Leaf(key, path, kind, name, v0, h, ty))
    return H, leaves


def back_env(cx, st, leaves):
    """symbol of each leaf -> its value in st (None: shape lost)"""
    env = {}
    for l in leaves:
        if l.kind not in ('int', 'bool', 'enum'):
            continue
        v = leaf(cx, st, st.mem[l.key], l.path) if l.key in st.mem else None
        if v is None:
            return None
        if l.kind == 'int':
            if not isinstance(v, Poly):
                return None
            env[l.name] = v
        elif l.kind == 'bool':
            env[l.name] = v
        else:
            vs = cx.T[l.ty]['variants']
            if v[0] == 'E':
                env[cx.discr_sym(l.name, l.ty).single()] = const(v[2])
                for i, x in enumerate(v[3]):
                    if isinstance(x, Poly):
                        env['%s.%s.%d' % (l.name, vs[v[2]]['name'], i)] = x
            elif v[0] == 'SE':
                if v[1] != l.name:
                    env[cx.discr_sym(l.name, l.ty).single()] = cx.discr_sym(v[1], v[2])
                    for vi, vv in enumerate(vs):
                        for i, (_, ft) in enumerate(vv['fields']):
                            if cx.prog.int_range(ft):
                                y = cx.of_type(ft, '%s.%s.%d' % (v[1], vv['name'], i))
                                if isinstance(y, Poly):
                                    env['%s.%s.%d' % (l.name, vv['name'], i)] = y
            else:
                return None
    return env


# ------------------------------------------------------------------------------------------------ candidates
def seq_lengths(cx, S0):
    """sizes of the sequences in memory and integer parameters: bounds worth trying"""
    out = []

    def visit(v, depth):
        if isinstance(v, Poly) or not isinstance(v, tuple) or depth > 4:
            return
        if v[0] == 'Q':
            out.append(v[2] - v[1])
        elif v[0] in ('S', 'I'):
            for x in v[2]:
                visit(x, depth + 1)
        elif v[0] == 'E':
            for x in v[3]:
                visit(x, depth + 1)
        elif v[0] == 'R' and v[4] is not None:
            out.append(v[4])
        elif v[0] == 'IMG':
            out.extend([v[1], v[2]])
    for k in sorted(S0.mem, key=str):
        visit(S0.mem[k], 0)
    seen, res = set(), []
    for p in out:
        if p not in seen and p.const != 0:
            seen.add(p)
            res.append(p)
    return res


def int_args(cx, S0):
    """integer values of the locals of the running functions that stay fixed"""
    res = []
    for k in sorted(S0.mem, key=str):
        v = S0.mem[k]
        if isinstance(v, Poly) and v.const is None and v not in res:
            res.append(v)
    return res[:12]


def candidates(cx, fr, hdr, S0, H, leaves, backs):
    ints = [l for l in leaves if l.kind == 'int']
    envs = []
    for b in backs:
        e = back_env(cx, b, leaves)
        if e is not None:
            envs.append((e, b))
    cands = []
    add = cands.append
    delta = {}
    for l in ints:
        x = sym(l.name)
        ds = [e.get(l.name) - x for e, _ in envs if e.get(l.name) is not None]
        cs = [d.const for d in ds]
        delta[l.name] = cs
        add(ge(x - l.v0))
        add(ge(l.v0 - x))
        if l.path and l.path[-1] in ('#end', '#off') or not (lin.SYM[l.name].lo == 0):
            add(ge(x))
    env0 = {}
    for l in leaves:
        if l.kind == 'int':
            env0[l.name] = l.v0
    constd = [l for l in ints if delta[l.name] and all(c is not None for c in delta[l.name])]
    # linear relations of leaves that move in step
    for i, a in enumerate(constd):
        for b in constd[i + 1:]:
            da, db = delta[a.name], delta[b.name]
            xa, xb = sym(a.name) - a.v0, sym(b.name) - b.v0
            ja = next((k for k in range(len(da)) if da[k] or db[k]), None)
            if ja is None:
                continue
            p, q = da[ja], db[ja]
            if all(x * q == y * p for x, y in zip(da, db)) and (p or q):
                add(eq(xa * q - xb * p))
            else:
                if all(x <= y for x, y in zip(da, db)):
                    add(ge(xb - xa))
                if all(y <= x for x, y in zip(da, db)):
                    add(ge(xa - xb))
                if all(-x <= y for x, y in zip(da, db)):
                    add(ge(xb + xa))
                if all(y <= -x for x, y in zip(da, db)):
                    add(ge(-xb - xa))
    # steps by a loop-invariant amount (step_by): relation to a counter
    for a in ints:
        if a in constd:
            continue
        ds = {e.get(a.name) - sym(a.name) for e, _ in envs if e.get(a.name) is not None}
        for d in ds if len(ds) <= 3 else ():
            if d.const is None and not any(s in env0 for s in d.syms()):
                for b in constd:
                    if set(delta[b.name]) == {1}:
                        add(eq(sym(a.name) - a.v0 - (sym(b.name) - b.v0) * d))
        # takes over what a leaf that moves in step was before: it stays one step behind
        vs = {e[a.name] for e, _ in envs if e.get(a.name) is not None}
        if len(vs) == 1:
            v = vs.pop()
            for b in constd:
                if (v - sym(b.name)).const is not None and len(set(delta[b.name])) == 1:
                    add(eq(sym(a.name) - v + delta[b.name][0]))
    # bounds carried by the guards passed in an iteration
    shift = {}
    for l in constd:
        cs = set(delta[l.name])
        if len(cs) == 1:
            shift[l.name] = sym(l.name) - cs.pop()
    names = {l.name for l in ints}
    seen = set()
    for e, b in envs:
        for f in b.facts.items():
            if f in seen:
                continue
            seen.add(f)
            if f[0] not in ('ge', 'eq', 'ne') or not (f[1].syms() & names):
                continue
            if f in S0.facts.items():
                continue
            if f[0] == 'ge':
                add(f)
                add(fsubst(f, shift))
                add(fsubst(ge(f[1] + 1), shift))
            elif f[0] == 'ne':
                p = f[1]
                add(ge(p))
                add(ge(-p))
    # iterators: lo <= hi; sequences: off <= end
    for l in leaves:
        if l.kind != 'int':
            continue
        x = sym(l.name)
        if l.path and l.path[-1] in ('#end', '#off'):
            q = leaf(cx, H, H.mem[l.key], l.path[:-1]) if len(l.path) > 1 else H.mem[l.key]
            add(ge(q[2] - q[1]))
        if l.path and isinstance(l.path[-1], int):
            it = leaf(cx, H, H.mem[l.key], l.path[:-1]) if len(l.path) > 1 else H.mem[l.key]
            if it[0] == 'I' and it[1] in ('seq', 'vals', 'chars', 'bytes'):
                add(ge(it[2][2] - it[2][1]))
            if it[0] == 'I' and it[1] == 'split':
                add(ge(it[2][3] - it[2][2]))
            if it[0] == 'I' and it[1] == 'rangeinc':
                add(ge(it[2][1] - it[2][0]))
            if it[0] == 'S' and len(it[2]) == 2 and all(isinstance(z, Poly) for z in it[2]):
                add(ge(it[2][1] - it[2][0]))
    pool = seq_lengths(cx, S0)
    for l in ints:
        x = sym(l.name)
        for p in pool[:10]:
            if not (p.syms() & names):
                add(ge(p - x - 1))
                add(ge(p - x))
    # pairs of leaves: order
    for i, a in enumerate(ints):
        for b in ints[i + 1:]:
            if (sym(a.name) - sym(b.name)) is None:
                continue
            add(ge(sym(a.name) - sym(b.name)))
            add(ge(sym(b.name) - sym(a.name)))
    if 'heap' in cx.opts:
        for a in ints:
            add(ge(sym(a.name) - 1))        # an address that is never null
    # booleans and enums
    for l in leaves:
        if l.kind == 'bool':
            add(('b', l.name))
            add(('nb', l.name))
        if l.kind == 'enum':
            vs = cx.T[l.ty]['variants']
            d = cx.discr_sym(l.name, l.ty)
            if 'heap' in cx.opts and isinstance(l.v0, tuple) and l.v0[0] == 'E':
                for a in ints:
                    if isinstance(a.v0, Poly):
                        add(disj([ne(d - l.v0[2]), eq(sym(a.name) - a.v0)]))
            for i, v in enumerate(vs):
                add(ne(d - i))
                for j, (_, ft) in enumerate(v['fields']):
                    if cx.prog.int_range(ft) and cx.T[ft]['k'] == 'int':
                        y = cx.of_type(ft, '%s.%s.%d' % (l.name, v['name'], j))
                        for p in pool[:10]:
                            if not (p.syms() & names):
                                add(imp(eq(d - i), ge(p - y - 1)))
                        for a in ints:
                            add(imp(eq(d - i), ge(sym(a.name) - y - 1)))
    for f in cx.templates:
        cands.extend(f(cx, fr, hdr, S0, H, leaves) or [])
    out = []
    for c in cands:
        if c != T and c != F and c not in out:
            out.append(c)
    return out


def elem_candidates(cx, S0, l, backs):
    """element invariants for a content leaf"""
    out = []
    ty = l.ty
    if ty is None:
        return out
    bounds = seq_lengths(cx, S0)
    paths = []

    def visit(t, path, depth):
        x = cx.T[t]
        if x['k'] == 'int' and not x['signed']:
            paths.append(path)
        elif depth < 3 and x['k'] == 'adt' and x['def'] in ('std::vec::Vec', 'std::collections::VecDeque'):
            visit(x['args'][0], path + ('*',), depth + 1)
        elif depth < 3 and x['k'] == 'adt' and x['enum']:
            for i, v in enumerate(x['variants']):
                for j, (_, ft) in enumerate(v['fields']):
                    visit(ft, path + (('v', i, j),), depth + 1)
        elif depth < 3 and x['k'] == 'adt' and not x['union'] and x.get('local'):
            for j, (_, ft) in enumerate(x['variants'][0]['fields']):
                visit(ft, path + (j,), depth + 1)
        elif depth < 3 and x['k'] == 'tuple':
            for j, ft in enumerate(x['elems']):
                visit(ft, path + (j,), depth + 1)
    visit(ty, (), 0)
    for p in paths:
        for b in bounds[:10]:
            out.append(Lt(p, b))
    for f in cx.elem_templates.get(cx.T[ty]['s'].split('::')[-1], []):
        out.extend(f(cx, S0, l))
    return out


# ------------------------------------------------------------------------------------------------ the analysis
def splice(entry_trace, rec, st):
    """trace of a state inside a loop -> after the entry trace"""
    evs = []
    t = st.trace
    while t and not (t[1][0] == 'mark'):
        evs.append(t[1])
        t = t[0]
    out = (entry_trace, ('loop', rec)) if rec is not None else entry_trace
    for e in reversed(evs):
        out = (out, e)
    return out


def commit(cx, o):
    cur = cx.obl[-1]
    for k, v in o.items():
        if k not in cur or cur[k][0] and not v[0]:
            cur[k] = v


def analyze(cx, fr, hdr, S0):
    fn = fr.fn
    region = fn.cfg.loops[hdr]
    cx.obl.append({})
    try:
        ex, backs, rets = cx.exec_body(fr, [(hdr, S0)], region, hdr)
    finally:
        o = cx.obl.pop()
    if not backs:
        commit(cx, o)
        return ex, rets
    # unrolling: something that counts down to a small constant
    if should_unroll(cx, S0, backs):
        cx.obl.append(o)
        ok = False
        try:
            allx, allr = list(ex), list(rets)
            cur = backs
            for _ in range(UNROLL):
                cur = cx.join_entries(cur)
                if len(cur) > 40:
                    break
                nb = []
                for s in cur:
                    e2, b2, r2 = cx.exec_body(fr, [(hdr, s)], region, hdr)
                    allx += e2
                    allr += r2
                    nb += b2
                cur = nb
                if not cur:
                    ok = True
                    break
        finally:
            o = cx.obl.pop()
        if ok:
            commit(cx, o)
            return allx, allr
    # shape of what changes
    mod = {}
    refine_from(cx, S0, S0, backs, mod)
    for _ in range(8):
        H, leaves = generalise(cx, fr, hdr, S0, mod)
        H.trace = root_trace((fn.name, hdr))
        cx.obl.append({})
        try:
            _, backs, _ = cx.exec_body(fr, [(hdr, H)], region, hdr)
        finally:
            cx.obl.pop()
        n = len(mod)
        refine_from(cx, S0, H, backs, mod)
        if len(mod) == n:
            break
    else:
        raise Unsupported('the state of the loop in %s does not stabilise' % fn.name)
    # invariants
    cands = candidates(cx, fr, hdr, S0, H, leaves, backs)
    einvs = {i: elem_candidates(cx, S0, l, backs) for i, l in enumerate(leaves) if l.kind == 'content'}
    env0 = back_env(cx, S0, leaves)
    # a symbol that merely mentions what the loop changes (an element at a changing index, a quotient) stands for another
    # value in the next iteration: not expressible by substitution
    lnames = [l.name for l in leaves]
    simple = set(env0 or ()) | set(lnames)
    cands = [c for c in cands if not any(s not in simple and any(n in s for n in lnames) for s in fsyms(c))]
    cands = [c for c in cands if env0 is not None and S0.facts.proves(fsubst(c, env0))]
    for i, l in enumerate(leaves):
        if l.kind == 'content':
            q0 = leaf(cx, S0, S0.mem[l.key], l.path[:-1]) if len(l.path) > 1 else S0.mem[l.key]
            einvs[i] = [v for v in einvs[i] if seq_holds(cx, S0, q0, v)]
    for rnd in range(30):
        H2 = H.copy()
        for c in cands:
            H2.assume(c)
        for i, invs in einvs.items():
            l = leaves[i]
            b = l.h
            H2.mem[l.key] = put(cx, H2, H2.mem[l.key], l.path, (b[0], b[1], b[2], tuple(invs), b[4]))
        cx.obl.append({})
        try:
            ex, backs, rets = cx.exec_body(fr, [(hdr, H2)], region, hdr)
        finally:
            o = cx.obl.pop()
        bad = set()
        badi = {i: set() for i in einvs}
        for b in backs:
            env = back_env(cx, b, leaves)
            if env is None:
                raise Unsupported('the state of the loop in %s changes shape' % fn.name)
            for c in cands:
                if c not in bad and not b.facts.proves(fsubst(c, env)):
                    bad.add(c)
            for i, invs in einvs.items():
                l = leaves[i]
                q = leaf(cx, b, b.mem[l.key], l.path[:-1]) if len(l.path) > 1 else b.mem[l.key]
                for v in invs:
                    if v not in badi[i] and not (q is not None and q[0] == 'Q' and seq_holds(cx, b, q, v)):
                        badi[i].add(v)
        if not bad and not any(badi.values()):
            break
        cands = [c for c in cands if c not in bad]
        einvs = {i: [v for v in invs if v not in badi[i]] for i, invs in einvs.items()}
    else:
        raise Unsupported('invariants of the loop in %s do not stabilise' % fn.name)
    fine = cx.opts.get('final_cap')
    if fine and cx.cap < fine:
        # once more, keeping the paths of one iteration apart
        old, cx.cap = cx.cap, fine
        cx.obl.append({})
        try:
            ex, backs, rets = cx.exec_body(fr, [(hdr, H2)], region, hdr)
        finally:
            o = cx.obl.pop()
            cx.cap = old
    commit(cx, o)
    cx.loops_done += 1
    rec = LoopRec(fn=fn, header=hdr, head=H2, entry=S0, backs=backs, leaves=leaves, cands=cands, depth=fr.d, exits=None)
    out = []
    for b, s in ex:
        s.trace = splice(S0.trace, rec, s)
        out.append((b, s))
    for s in rets:
        s.trace = splice(S0.trace, rec, s)
    h = cx.hooks.get('loop')
    if h:
        h(cx, rec, out, rets)
    return out, rets


def refine_from(cx, S0, H, backs, mod):
    for b in backs:
        for k in b.mem:
            if k[0] in ('G', 'GS') and k not in H.mem and k not in S0.mem:
                # first touched inside the loop: its value before is the unknown one it had all along
                S0.mem[k] = H.mem[k] = cx.base_value(S0, k)
        for k in list(H.mem):
            if k not in b.mem:
                continue
            out = {}
            diff(cx, H.mem[k], b.mem[k], (), out)
            for path, kind in out.items():
                add_leaf(cx, S0, k, path, kind, mod)


def add_leaf(cx, S0, k, path, kind, mod):
    """adds a leaf; a leaf above existing ones replaces them; one below an existing leaf is covered by it"""
    def base(p):
        return tuple(x for x in p if not (isinstance(x, str) and x.startswith('#')))
    for (k2, p2), kd in list(mod.items()):
        if k2 != k:
            continue
        if p2 == path:
            if kd != kind:
                mod[(k2, p2)] = 'opaque' if 'opaque' in (kd, kind) else kind
            return
        b1, b2 = base(path), base(p2)
        special = isinstance(p2[-1] if p2 else None, str) and p2[-1].startswith('#')
        if path[:len(p2)] == p2 and not special:
            return
        if p2[:len(path)] == path:
            del mod[(k2, p2)]
        elif special and p2[-1] == '#content' and b1[:len(b2)] == b2 and len(b1) > len(b2):
            return
    # the leaf must exist in S0, otherwise generalise the smallest enclosing value that does
    v = S0.mem[k]
    for n in range(len(path)):
        e = path[n]
        if isinstance(e, str) and e.startswith('#'):
            break
        if isinstance(e, tuple) and e[0] == 'v' and not (isinstance(v, tuple) and v[0] == 'E' and v[2] == e[1]):
            return add_leaf(cx, S0, k, path[:n], 'enum', mod)
        v = leaf(cx, S0, v, (e,))
        if v is None:
            return add_leaf(cx, S0, k, path[:n], 'opaque', mod)
    mod[(k, path)] = kind


def should_unroll(cx, S0, backs):
    """an iterator that changed has few elements left"""
    found = [False]

    def visit(a, b, depth):
        if found[0] or depth > 6 or a == b or not isinstance(a, tuple) or not isinstance(b, tuple):
            return
        if a[0] == 'I' and b[0] == 'I' and a[1] == b[1]:
            f = a[2]
            rem = None
            if a[1] in ('seq', 'vals', 'chars', 'bytes'):
                rem = f[2] - f[1]
            elif a[1] == 'rangeinc':
                rem = f[1] - f[0]
            elif a[1] == 'split':
                rem = f[3] - f[2]
            elif a[1] == 'once':
                rem = const(1)
            if rem is not None and rem.const is not None and rem.const <= 4:
                found[0] = True
                return
        if a[0] == 'S' and b[0] == 'S':
            if a[1] is not None and cx.T[a[1]]['k'] == 'adt' and cx.T[a[1]]['def'] == 'std::ops::Range' and isinstance(a[2][0], Poly):
                r = (a[2][1] - a[2][0]).const
                if r is not None and r <= 4:
                    found[0] = True
                    return
        if a[0] in ('S', 'I') and a[0] == b[0]:
            for x, y in zip(a[2], b[2]):
                visit(x, y, depth + 1)
        if a[0] == 'E' and b[0] == 'E':
            for x, y in zip(a[3], b[3]):
                visit(x, y, depth + 1)
    for b in backs:
        for k in S0.mem:
            if k in b.mem:
                visit(S0.mem[k], b.mem[k], 0)
    return found[0]
