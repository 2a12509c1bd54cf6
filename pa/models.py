"""Models of the standard library, image, imageproc and rand functions the analysed code calls."""
import re
from . import lin
from .lin import Poly, const, sym, declare, ge, eq, ne, neg, conj, disj, imp, T, F
from .interp import Tail, Multi, Synth, Unsupported, is_bool, MAXLEN, U64, Fork, Dead

M = {}
UNINIT = ('O', ('uninit',))


def m(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


_keys = {}


def key_of(name):
    """'std::vec::Vec::<T, A>::push' -> 'Vec.push', 'core::num::<impl usize>::checked_add' -> 'usize.checked_add'"""
    k = _keys.get(name)
    if k is None:
        s = name
        mm = re.match(r'^<(.*) as (.*)>::([^:]*)$', s)
        if mm:
            s = mm.group(2) + '::' + mm.group(3)
        s = re.sub(r'<impl ([^<>]|<[^<>]*>)*? for ([^<>]|<[^<>]*>)*>', lambda z: z.group(0)[1:-1].split(' for ')[0][5:], s)
        s = re.sub(r'<impl (\[T\]|\[T; N\]|\w+|\*mut T|\*const T)>', lambda z: {'[T]': 'slice', '[T; N]': 'array', '*mut T': 'ptr', '*const T': 'ptr'}.get(z.group(1), z.group(1)), s)
        d, out = 0, []
        for c in s:
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                out.append(c)
        parts = [p for p in ''.join(out).split('::') if p]
        k = '.'.join(parts[-2:])
        _keys[name] = k
    return k


def lookup(call):
    if call.is_local and call.callee in call.cx.prog.fns:
        return None
    for n in (call.fdef, call.cname):
        f = M.get(key_of(n))
        if f is not None:
            return f
    return None


_interp = {}
RAW = ('NonNull', 'Unique', 'MaybeUninit', 'ManuallyDrop', 'RawVec', 'Layout', 'alloc::Global', 'fmt::Formatter', 'fmt::Arguments')


def local_pointee(T_, x):
    """a raw pointer to a type of the crate: generic code only hands it on"""
    return x['k'] == 'ptr' and bool(T_[x['to']].get('local'))


def interpretable(fn):
    r = _interp.get(fn.key)
    if r is None:
        r = fn.crate in ('core', 'alloc', 'std') and fn.has_body
        if r:
            for t in fn.locals:
                x = fn.prog.T[t]
                if x['k'] in ('ptr', 'dyn', 'fnptr') and not local_pointee(fn.prog.T, x) or any(w in x['s'] for w in RAW):
                    r = False
                    break
        _interp[fn.key] = r
    return r


# ------------------------------------------------------------------------------------------------ helpers
def some(v, ty=None):
    return ('E', ty, 1, (v,))


def none(ty=None):
    return ('E', ty, 0, ())


def opt(call, v):
    return some(v, call.dty) if v is not None else none(call.dty)


def tup(vs, ty=None):
    return ('S', ty, tuple(vs))


def UNIT(call=None):
    return ('S', call.dty if call is not None else None, ())


def is_def(cx, ty, name):
    return ty is not None and cx.T[ty]['k'] == 'adt' and cx.T[ty]['def'] == name


def sdef(cx, v):
    """path of the type of a struct value"""
    if isinstance(v, tuple) and v[0] == 'S' and v[1] is not None and cx.T[v[1]]['k'] == 'adt':
        return cx.T[v[1]]['def']
    return None


def deref(cx, st, v):
    while isinstance(v, tuple) and v[0] == 'R' and v[4] is None:
        v = cx.read(st, v[1], v[2])
    return v


def ref(base, path):
    return ('R', base, tuple(path), None, None)


def seqof(cx, st, r):
    """(base, path, lo, hi, q) of a reference to a sequence; lo, hi are absolute positions"""
    while True:
        if r[0] != 'R':
            raise Unsupported('sequence reference expected, got %s' % (r[0],))
        v = cx.read(st, r[1], r[2])
        if isinstance(v, tuple) and v[0] == 'R' and r[4] is None:
            r = v
            continue
        if isinstance(v, tuple) and v[0] == 'B' and r[4] is None:
            r = ref(r[1], r[2] + ('box',))
            continue
        break
    if not (isinstance(v, tuple) and v[0] == 'Q'):
        raise Unsupported('sequence expected, got %r' % (v if not isinstance(v, tuple) else v[0],))
    if r[4] is not None:
        return r[1], r[2], r[3], r[3] + r[4], v
    return r[1], r[2], v[1], v[2], v


def elem(base, path, p):
    return ref(base, path + (('i', p),))


def setq(cx, st, base, path, q):
    cx.write(st, base, path, q)


def fresh_q(cx, st, hint, ety, ln=None, invs=(), tmpl=None):
    n = cx.fresh(st, hint)
    return ('Q', const(0), ln if ln is not None else cx.len_sym(n + '.len'), ('gen', n, ety, tuple(invs), tmpl), (), ety)


def elem_ty(cx, ty):
    x = cx.T[ty]
    if x['k'] == 'ref':
        return elem_ty(cx, x['to'])
    if x['k'] in ('slice', 'array'):
        return x['of']
    if x['k'] == 'adt' and x['args']:
        return x['args'][0]
    return None


def default_of(cx, t):
    x = cx.T[t]
    k = x['k']
    if k == 'int' or k == 'char':
        return const(0)
    if k == 'bool':
        return F
    if k == 'tuple':
        return ('S', t, tuple(default_of(cx, e) for e in x['elems']))
    if k == 'adt':
        d = x['def']
        if d in ('std::vec::Vec', 'std::collections::VecDeque'):
            return ('Q', const(0), const(0), ('arr', ()), (), x['args'][0])
        if d == 'std::option::Option':
            return none(t)
        if d == 'std::string::String':
            return ('STR', ('lit', ''))
    if k == 'ref' and cx.T[x['to']]['k'] == 'str':
        return ('STR', ('lit', ''))
    raise Unsupported('default of ' + x['s'])


def poly(v):
    if not isinstance(v, Poly):
        raise Unsupported('integer expected, got %r' % (v,))
    return v


# ------------------------------------------------------------------------------------------------ vectors
@m('Vec.new', 'Vec.with_capacity', 'VecDeque.new', 'VecDeque.with_capacity')
def vec_new(cx, st, c):
    return ('Q', const(0), const(0), ('arr', ()), (), elem_ty(cx, c.dty))


@m('vec.from_elem')
def from_elem(cx, st, c):
    return ('Q', const(0), poly(c.args[1]), ('fill', c.args[0]), (), elem_ty(cx, c.dty))


@m('Box.new_uninit')
def new_uninit(cx, st, c):
    b = ('X', c.fr.d, st.cnt)
    st.cnt += 1
    st.mem[b] = UNINIT
    return ref(b, ())


@m('boxed.box_assume_init_into_vec_unsafe')
def into_vec_unsafe(cx, st, c):
    r = c.args[0]
    v = st.mem.pop(r[1])
    return v


@m('Box.new')
def box_new(cx, st, c):
    return ('B', c.args[0])


@m('slice.into_vec', 'slice.into_boxed_slice', 'Vec.into_boxed_slice')
def slice_into_vec(cx, st, c):
    v = c.args[0]
    if v[0] == 'B':
        v = v[1]
    if v[0] == 'Q':
        return v
    return NotImplemented


@m('Vec.len', 'VecDeque.len', 'slice.len', 'ExactSizeIterator.len')
def seq_len(cx, st, c):
    r = c.args[0]
    v = deref(cx, st, r)
    if isinstance(v, tuple) and v[0] in ('I', 'S'):
        n = iter_len(cx, st, v)
        return n if n is not None else NotImplemented
    _, _, lo, hi, _ = seqof(cx, st, r)
    n = hi - lo
    if n.const is None:
        st.assume(ge(const(MAXLEN - 1) - n))
    return n


@m('Vec.is_empty', 'VecDeque.is_empty', 'slice.is_empty')
def seq_is_empty(cx, st, c):
    _, _, lo, hi, _ = seqof(cx, st, c.args[0])
    return eq(hi - lo)


@m('ExactSizeIterator.is_empty')
def iter_is_empty(cx, st, c):
    n = iter_len(cx, st, deref(cx, st, c.args[0]))
    return eq(n) if n is not None else NotImplemented


@m('Vec.capacity')
def capacity(cx, st, c):
    return declare(cx.fresh(st, 'cap'), 0, MAXLEN)


@m('Vec.reserve', 'Vec.reserve_exact', 'VecDeque.reserve', 'Vec.shrink_to_fit')
def reserve(cx, st, c):
    return UNIT(c)


def push(cx, st, r, v, back=True):
    base, path, lo, hi, q = seqof(cx, st, r)
    if back:
        p = q[2]
        nq = ('Q', q[1], q[2] + 1, q[3], q[4], q[5])
    else:
        p = q[1] - 1
        nq = ('Q', q[1] - 1, q[2], q[3], q[4], q[5])
    nq = cx.update(st, nq, (('i', p),), v)
    setq(cx, st, base, path, nq)
    st.assume(ge(const(MAXLEN - 1) - (nq[2] - nq[1])))
    cx.emit(st, 'push', base, path, p, v, q)
    return nq


@m('Vec.push', 'VecDeque.push_back')
def vec_push(cx, st, c):
    push(cx, st, c.args[0], c.args[1])
    return UNIT(c)


@m('VecDeque.push_front')
def push_front(cx, st, c):
    push(cx, st, c.args[0], c.args[1], False)
    return UNIT(c)


@m('Vec.pop', 'VecDeque.pop_back')
def vec_pop(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if st.decide(ge(lo - hi)):
        return none(c.dty)
    v = cx.seq_read(st, q, q[2] - 1)
    setq(cx, st, base, path, ('Q', q[1], q[2] - 1, q[3], q[4], q[5]))
    cx.emit(st, 'pop', base, path, q[2] - 1, v, q)
    return some(v, c.dty)


@m('VecDeque.pop_front')
def pop_front(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if st.decide(ge(lo - hi)):
        return none(c.dty)
    v = cx.seq_read(st, q, q[1])
    setq(cx, st, base, path, ('Q', q[1] + 1, q[2], q[3], q[4], q[5]))
    cx.emit(st, 'pop', base, path, q[1], v, q)
    return some(v, c.dty)


@m('Vec.clear', 'VecDeque.clear')
def vec_clear(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    setq(cx, st, base, path, ('Q', const(0), const(0), ('arr', ()), (), q[5]))
    return UNIT(c)


@m('Vec.truncate', 'VecDeque.truncate')
def vec_truncate(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if st.decide(ge(hi - lo - c.args[1])):
        setq(cx, st, base, path, ('Q', q[1], q[1] + c.args[1], q[3], q[4], q[5]))
    return UNIT(c)


@m('Vec.resize', 'VecDeque.resize')
def vec_resize(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    n, v = poly(c.args[1]), c.args[2]
    if st.decide(ge(hi - lo - n)):
        setq(cx, st, base, path, ('Q', q[1], q[1] + n, q[3], q[4], q[5]))
    elif q[3] == ('fill', v) and not q[4]:
        setq(cx, st, base, path, ('Q', q[1], q[1] + n, q[3], (), q[5]))
    else:
        setq(cx, st, base, path, ('Q', q[1], q[1] + n, ('ext', q, v), (), q[5]))
    return UNIT(c)


@m('Vec.swap_remove')
def swap_remove(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    i = poly(c.args[1])
    c.oblige(st, conj([ge(i), ge(hi - lo - i - 1)]), 'index', 'swap_remove index')
    v = cx.seq_read(st, q, lo + i)
    cx.emit(st, 'swap_remove', base, path, i, v, q)
    w = cx.seq_read(st, q, hi - 1)
    nq = ('Q', q[1], q[2] - 1, q[3], q[4], q[5])
    nq = cx.update(st, nq, (('i', lo + i),), w)
    setq(cx, st, base, path, nq)
    return v


def scrambled(cx, st, q, ln, hint):
    """same multiset of elements (or a part), any order: only position-independent invariants survive"""
    from .loops import kept_invs
    return fresh_q(cx, st, hint, q[5], ln, kept_invs(cx, st, q), cx.ref_template(q))


@m('Vec.remove', 'VecDeque.remove')
def vec_remove(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    i = poly(c.args[1])
    if 'VecDeque' in c.fdef:
        if not st.decide(conj([ge(i), ge(hi - lo - i - 1)])):
            return none(c.dty)
    else:
        c.oblige(st, conj([ge(i), ge(hi - lo - i - 1)]), 'index', 'remove index')
    v = cx.seq_read(st, q, lo + i)
    cx.emit(st, 'remove', base, path, i, v, q)
    if st.known(eq(i)) is True:
        nq = ('Q', q[1] + 1, q[2], q[3], q[4], q[5])
    elif st.known(eq(hi - lo - i - 1)) is True:
        nq = ('Q', q[1], q[2] - 1, q[3], q[4], q[5])
    else:
        nq = scrambled(cx, st, q, hi - lo - 1, 'rm')
    setq(cx, st, base, path, nq)
    return some(v, c.dty) if 'VecDeque' in c.fdef else v


@m('Vec.insert')
def vec_insert(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    i = poly(c.args[1])
    c.oblige(st, conj([ge(i), ge(hi - lo - i)]), 'index', 'insert index')
    if st.known(eq(hi - lo - i)) is True:
        push(cx, st, c.args[0], c.args[2])
        return UNIT(c)
    if st.known(eq(i)) is True:
        push(cx, st, c.args[0], c.args[2], False)
        return UNIT(c)
    q2 = cx.update(st, ('Q', q[1], q[2] + 1, q[3], q[4], q[5]), (('i', hi),), c.args[2])
    setq(cx, st, base, path, scrambled(cx, st, q2, hi - lo + 1, 'ins'))
    return UNIT(c)


@m('slice.sort_unstable', 'slice.sort', 'slice.reverse', 'slice.sort_by', 'slice.sort_unstable_by', 'slice.sort_by_key', 'slice.sort_unstable_by_key', 'slice.shuffle')
def sort(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    nq = scrambled(cx, st, q, hi - lo, 'sort')
    if st.known(conj([eq(lo - q[1]), eq(hi - q[2])])) is not True:
        nq = ('Q', q[1], q[2], nq[3], (), q[5])
    name = c.fdef.split('::')[-1]
    cx.emit(st, 'sort', base, path, q, nq, name, sort_order(cx, st, c, q, name))
    setq(cx, st, base, path, nq)
    return UNIT(c)


def sort_order(cx, st, c, q, name):
    """what the comparator says of two unknown integers: [(state, a, b, Ordering or pair of keys)], None if unknown"""
    if not name.startswith('sort') or q[5] is None:
        return None
    s = st.copy()
    a, b = [cx.of_type(q[5], cx.fresh(s, 'cmp' + k), s) for k in 'ab']
    if not isinstance(a, Poly):
        return None
    if name in ('sort', 'sort_unstable'):
        return [(s, a, b, (a, b))]
    try:
        s.mem[('T', 'cmpa')], s.mem[('T', 'cmpb')] = a, b
        ra, rb = ref(('T', 'cmpa'), ()), ref(('T', 'cmpb'), ())
        d = c.fr.d + 1
        if name.endswith('_key'):
            return [(y, a, b, (k1, k2)) for x, k1 in cx.call_value(s, c.args[1], [ra], d, c)
                    for y, k2 in cx.call_value(x, c.args[1], [rb], d, c)]
        return [(x, a, b, o) for x, o in cx.call_value(s, c.args[1], [ra, rb], d, c)]
    except Unsupported:
        return None


@m('slice.swap')
def slice_swap(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    i, j = poly(c.args[1]), poly(c.args[2])
    c.oblige(st, conj([ge(i), ge(hi - lo - i - 1), ge(j), ge(hi - lo - j - 1)]), 'index', 'swap indices')
    a, b = cx.seq_read(st, q, lo + i), cx.seq_read(st, q, lo + j)
    q = cx.update(st, q, (('i', lo + i),), b)
    q = cx.update(st, q, (('i', lo + j),), a)
    setq(cx, st, base, path, q)
    return UNIT(c)


@m('slice.fill')
def slice_fill(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if st.known(conj([eq(lo - q[1]), eq(hi - q[2])])) is True:
        setq(cx, st, base, path, ('Q', q[1], q[2], ('fill', c.args[1]), (), q[5]))
        return UNIT(c)
    return NotImplemented


@m('slice.to_vec', 'ToOwned.to_owned', 'slice.to_owned', 'str.to_owned', 'str.to_string', 'slice.into_vec')
def to_vec(cx, st, c):
    v = c.args[0]
    if v[0] == 'STR':
        return v
    if v[0] == 'R' and v[4] is None and not (isinstance(deref(cx, st, v), tuple) and deref(cx, st, v)[0] == 'Q'):
        return deref(cx, st, v)
    _, _, lo, hi, q = seqof(cx, st, v)
    return ('Q', lo, hi, q[3], q[4], q[5])


@m('slice.clone_from_slice', 'slice.copy_from_slice')
def clone_from_slice(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    _, _, lo2, hi2, q2 = seqof(cx, st, c.args[1])
    c.oblige(st, eq((hi - lo) - (hi2 - lo2)), 'length', 'slices of equal length')
    cx.emit(st, 'copy', base, path, lo, hi, q2)
    if st.known(conj([eq(lo - q[1]), eq(hi - q[2]), eq(lo2 - lo)])) is True:
        setq(cx, st, base, path, ('Q', q[1], q[2], q2[3], q2[4], q[5]))
    else:
        nq = scrambled(cx, st, q2, hi - lo, 'cp')
        setq(cx, st, base, path, ('Q', q[1], q[2], nq[3], (), q[5]))
    return UNIT(c)


@m('Deref.deref', 'DerefMut.deref_mut', 'AsRef.as_ref', 'AsMut.as_mut', 'Vec.as_slice', 'Vec.as_mut_slice', 'Borrow.borrow',
   'BorrowMut.borrow_mut', 'array.as_slice', 'array.as_mut_slice', 'String.as_str')
def vec_deref(cx, st, c):
    r = c.args[0]
    if r[0] == 'STR':
        return r
    if r[0] != 'R':
        return NotImplemented
    v = cx.read(st, r[1], r[2])
    if isinstance(v, tuple) and v[0] == 'STR':
        return v
    if isinstance(v, tuple) and v[0] == 'R':
        return v
    if isinstance(v, tuple) and v[0] == 'B':
        return ref(r[1], r[2] + ('box',))
    if isinstance(v, tuple) and v[0] == 'Q':
        return ('R', r[1], r[2], v[1], v[2] - v[1])
    return NotImplemented


@m('array.map')
def array_map(cx, st, c):
    q = c.args[0]
    n = (q[2] - q[1]).const
    if n is None or n > 12:
        return NotImplemented
    states = [(st, ())]
    for i in range(n):
        nxt = []
        for s, vs in states:
            e = cx.seq_read(s, q, q[1] + i)
            for s2, v in cx.call_value(s, c.args[1], [e], c.fr.d + 1, c):
                nxt.append((s2, vs + (v,)))
        states = nxt
    return Multi([(s, ('Q', const(0), const(n), ('arr', vs), (), cx.T[c.dty]['of'])) for s, vs in states])


def range_bounds(cx, st, v, n):
    """(start, end) of a range value used as an index into a sequence of n elements, or None"""
    d = sdef(cx, v)
    if v[0] == 'S' and v[1] is not None and cx.T[v[1]]['k'] == 'adt':
        f = v[2]
        if d == 'std::ops::Range':
            return f[0], f[1]
        if d == 'std::ops::RangeFrom':
            return f[0], n
        if d == 'std::ops::RangeTo':
            return const(0), f[0]
        if d == 'std::ops::RangeFull':
            return const(0), n
        if d == 'std::ops::RangeInclusive':
            return f[0], f[1] + 1
        if d == 'std::ops::RangeToInclusive':
            return const(0), f[0] + 1
    if v[0] == 'I' and v[1] == 'rangeinc':
        return v[2][0], v[2][1]
    return None


@m('Index.index', 'IndexMut.index_mut')
def index(cx, st, c):
    r, i = c.args
    if r[0] == 'STR':
        return NotImplemented
    v = deref(cx, st, r)
    if isinstance(v, tuple) and v[0] == 'IMG':
        if i[0] != 'S' or len(i[2]) != 2:
            return NotImplemented
        c.args = [r, i[2][0], i[2][1]]
        return get_pixel_mut(cx, st, c) if 'index_mut' in c.fdef else get_pixel(cx, st, c)
    base, path, lo, hi, q = seqof(cx, st, r)
    n = hi - lo
    if isinstance(i, Poly):
        c.oblige(st, conj([ge(i), ge(n - i - 1)]), 'index', 'index in bounds')
        return elem(base, path, lo + i)
    b = range_bounds(cx, st, i, n)
    if b is None:
        return NotImplemented
    c.oblige(st, conj([ge(b[1] - b[0]), ge(n - b[1])]), 'slice', 'slice range in bounds')
    return ('R', base, path, lo + b[0], b[1] - b[0])


@m('slice.get', 'slice.get_mut', 'Vec.get', 'VecDeque.get', 'VecDeque.get_mut')
def seq_get(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    i = c.args[1]
    n = hi - lo
    if isinstance(i, Poly):
        return opt(c, elem(base, path, lo + i) if st.decide(ge(n - i - 1)) else None)
    b = range_bounds(cx, st, i, n)
    if b is None:
        return NotImplemented
    return opt(c, ('R', base, path, lo + b[0], b[1] - b[0]) if st.decide(conj([ge(b[1] - b[0]), ge(n - b[1])])) else None)


@m('slice.get_unchecked', 'slice.get_unchecked_mut')
def get_unchecked(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    c.oblige(st, conj([ge(c.args[1]), ge(hi - lo - c.args[1] - 1)]), 'index', 'unchecked index in bounds')
    return elem(base, path, lo + c.args[1])


@m('slice.last', 'slice.last_mut', 'VecDeque.back', 'VecDeque.back_mut')
def seq_last(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    return opt(c, elem(base, path, hi - 1) if st.decide(ge(hi - lo - 1)) else None)


@m('slice.first', 'slice.first_mut', 'VecDeque.front', 'VecDeque.front_mut')
def seq_first(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    return opt(c, elem(base, path, lo) if st.decide(ge(hi - lo - 1)) else None)


@m('slice.split_at', 'slice.split_at_mut')
def split_at(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    k = poly(c.args[1])
    c.oblige(st, conj([ge(k), ge(hi - lo - k)]), 'slice', 'split position in bounds')
    return tup([('R', base, path, lo, k), ('R', base, path, lo + k, hi - lo - k)], c.dty)


@m('slice.split_first', 'slice.split_first_mut')
def split_first(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if not st.decide(ge(hi - lo - 1)):
        return none(c.dty)
    return some(tup([elem(base, path, lo), ('R', base, path, lo + 1, hi - lo - 1)]), c.dty)


@m('slice.split_last', 'slice.split_last_mut')
def split_last(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if not st.decide(ge(hi - lo - 1)):
        return none(c.dty)
    return some(tup([elem(base, path, hi - 1), ('R', base, path, lo, hi - lo - 1)]), c.dty)


@m('slice.contains', 'Vec.contains', 'VecDeque.contains', 'slice.starts_with', 'slice.ends_with')
def contains(cx, st, c):
    return ('b', cx.fresh(st, 'contains'))


@m('slice.join', 'slice.concat', 'Join.join')
def join(cx, st, c):
    if cx.T[c.dty]['s'].endswith('String'):
        if c.args[0][0] == 'R' and len(c.args) == 2 and c.args[1][0] == 'STR':
            b, p, lo, hi, q = seqof(cx, st, c.args[0])
            return ('STR', ('join', q, lo, hi, c.args[1][1]))
        return ('STR', ('s', cx.fresh(st, 'join')))
    return NotImplemented


@m('Vec.extend_from_slice', 'Vec.extend', 'Extend.extend', 'VecDeque.extend', 'Vec.append')
def extend(cx, st, c):
    dst, src = c.args
    if dst[0] == 'R':
        v = cx.read(st, dst[1], dst[2])
        if v[0] != 'Q':
            return NotImplemented
    if c.fdef.endswith('append'):
        b2, p2, lo2, hi2, q2 = seqof(cx, st, src)
        setq(cx, st, b2, p2, ('Q', const(0), const(0), ('arr', ()), (), q2[5]))
        it = ('I', 'vals', (q2, lo2, hi2))
    else:
        it = into_iter(cx, st, src)
        if it is None:
            return NotImplemented
        ety = v[5]
        if cx.T[ety]['k'] != 'ref' and yields_ref(cx, st, it):
            it = ('I', 'copied', (it,))
    return Tail(Synth('extend', [
        ('next', lambda cx, s, fr: loc(fr, 2), 3, 1),
        ('if', lambda cx, s, fr: issome(s, fr, 3), 2, 3),
        ('do', lambda cx, s, fr: (push(cx, s, s.mem[('L', fr.d, 1)], payload(cx, s, fr, 3)), drop(s, fr, 3)), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, UNIT(c)), 4),
        ('ret',)], c), [dst, it])


def yields_ref(cx, st, it):
    if it[0] == 'I':
        if it[1] in ('seq', 'seqstep'):
            return True
        if it[1] in ('rev', 'skip', 'take', 'filter', 'chain', 'step', 'peekable', 'skip_while', 'take_while'):
            return yields_ref(cx, st, it[2][0])
    return False


# ------------------------------------------------------------------------------------------------ synth helpers
def loc(fr, i):
    return ref(('L', fr.d, i), ())


def setl(s, fr, i, v):
    s.mem[('L', fr.d, i)] = v


def drop(s, fr, *ls):
    for i in ls:
        s.mem.pop(('L', fr.d, i), None)


def issome(s, fr, i):
    v = s.mem[('L', fr.d, i)]
    return T if v[2] == 1 else F


def payload(cx, s, fr, i):
    return s.mem[('L', fr.d, i)][3][0]


def item_ref(fr, i):
    return ref(('L', fr.d, i), (('v', 1, 0),))


# ------------------------------------------------------------------------------------------------ iterators
@m('slice.iter', 'slice.iter_mut', 'VecDeque.iter', 'VecDeque.iter_mut', 'array.iter', 'array.each_ref')
def slice_iter(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    return ('I', 'seq', (ref(base, path), lo, hi))


def into_iter(cx, st, v):
    """iterator for a value, or None"""
    k = v[0] if isinstance(v, tuple) else None
    if k == 'I':
        return v
    if k == 'Q':
        return ('I', 'vals', (v, v[1], v[2]))
    if k == 'R':
        if v[4] is not None:
            return ('I', 'seq', (ref(v[1], v[2]), v[3], v[3] + v[4]))
        w = cx.read(st, v[1], v[2])
        if isinstance(w, tuple) and w[0] == 'Q':
            return ('I', 'seq', (ref(v[1], v[2]), w[1], w[2]))
        if isinstance(w, tuple) and w[0] == 'I':
            return v
        if isinstance(w, tuple) and w[0] == 'S' and (next_fn(cx, w) or sdef(cx, w) in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom')):
            return v
        if isinstance(w, tuple) and w[0] == 'R':
            return into_iter(cx, st, w)
        if isinstance(w, tuple) and w[0] in ('E', 'SE') and is_def(cx, w[1] if w[0] == 'E' else w[2], 'std::option::Option'):
            if st.decide(cx.variant_is(w, 1)):
                return ('I', 'once', (some(ref(v[1], v[2] + (('v', 1, 0),))),))
            return ('I', 'once', (none(),))
        return None
    if k == 'S':
        d = sdef(cx, v)
        if d == 'std::ops::Range' or d == 'std::ops::RangeFrom':
            return v
        if d == 'std::ops::RangeInclusive':
            return ('I', 'rangeinc', (v[2][0], v[2][1] + 1, v[1]))
        if next_fn(cx, v):
            return v
    if k in ('E', 'SE'):
        t = v[1] if k == 'E' else v[2]
        if is_def(cx, t, 'std::option::Option') or is_def(cx, t, 'std::result::Result'):
            want = 1 if is_def(cx, t, 'std::option::Option') else 0
            if st.decide(cx.variant_is(v, want)):
                return ('I', 'once', (some(cx.walk(st, v, (('v', want, 0),))),))
            return ('I', 'once', (none(),))
    return None


def next_fn(cx, v, name='next'):
    """the Iterator::next of a local iterator type"""
    if v[0] != 'S' or v[1] is None:
        return None
    t = v[1]
    key = (t, name)
    cache = cx.prog.__dict__.setdefault('_next', {})
    if key not in cache:
        cache[key] = None
        for f in cx.prog.fns.values():
            if f.has_body and f.argc >= 1 and f.name.endswith('Iterator>::' + name) and f.local:
                a = cx.T[f.locals[1]]
                if a['k'] == 'ref' and a['to'] == t:
                    cache[key] = f
    return cache[key]


@m('IntoIterator.into_iter', 'Iterator.by_ref')
def m_into_iter(cx, st, c):
    if c.fdef.endswith('by_ref'):
        return c.args[0]
    r = into_iter(cx, st, c.args[0])
    if r is not None and r[0] == 'I' and unsettled(r):
        b = ('X', c.fr.d, st.cnt)
        st.cnt += 1
        st.mem[b] = r
        out = []
        for s in settle(cx, st, b, (), c.fr.d + 1, c):
            out.append((s, s.mem.pop(b)))
        return Multi(out)
    return NotImplemented if r is None else r


def unsettled(v):
    """a skip() has yet to happen"""
    if not (isinstance(v, tuple) and v[0] == 'I'):
        return False
    if v[1] == 'skip' and v[2][1].const and v[2][1].const <= 6 and (v[2][0][0] == 'S' or v[2][0][1] in ('seq', 'vals', 'map', 'copied')):
        return True
    return any(unsettled(x) for x in v[2])


def settle(cx, st, base, path, d, call):
    """performs the skips of an iterator that is about to be consumed, so that the loop over it starts after them"""
    v = cx.read(st, base, path)
    if not unsettled(v):
        return [st]
    states = [st]
    for i, x in enumerate(v[2]):
        if unsettled(x):
            states = [y for s in states for y in settle(cx, s, base, path + (i,), d, call)]
    if v[1] == 'skip' and v[2][1].const and v[2][1].const <= 6 and (v[2][0][0] == 'S' or v[2][0][1] in ('seq', 'vals', 'map', 'copied')):
        for _ in range(v[2][1].const):
            nxt = []
            for s in states:
                if s is None:
                    continue
                nxt.extend(x for x, o in iter_next(cx, s, ref(base, path + (0,)), d, call))
            states = nxt
        for s in states:
            cx.write(s, base, path + (1,), const(0))
    return states


def it_of(cx, st, v):
    r = into_iter(cx, st, v)
    if r is None:
        raise Unsupported('not an iterator: %r' % (v[:2],))
    return r


def adapter(kind):
    def f(cx, st, c):
        it = c.args[0]
        if kind in ('zip', 'chain'):
            return ('I', kind, (it, it_of(cx, st, c.args[1])) + ((F,) if kind == 'chain' else ()))
        if kind == 'enumerate':
            return ('I', kind, (it, const(0)))
        if kind in ('rev', 'copied', 'cloned', 'fuse'):
            if kind == 'fuse':
                return it
            if kind == 'rev' and it[0] == 'S' and sdef(cx, it) == 'std::ops::Range':
                pass
            if kind == 'rev' and it[0] == 'S' and sdef(cx, it) == 'std::ops::RangeInclusive':
                it = it_of(cx, st, it)
            return ('I', 'copied' if kind == 'cloned' else kind, (it,))
        if kind == 'peekable':
            return ('I', kind, (it, F, const(0)))
        if kind == 'skip':
            return skip(cx, st, it, poly(c.args[1]))
        if kind == 'take':
            return take_(cx, st, it, poly(c.args[1]))
        if kind == 'step_by':
            n = poly(c.args[1])
            c.oblige(st, ge(n - 1), 'step', 'step_by needs a positive step')
            if it[0] == 'I' and it[1] == 'seq':
                return ('I', 'seqstep', it[2] + (n,))
            if it[0] == 'S' and sdef(cx, it) == 'std::ops::Range':
                return ('I', 'rangestep', (it[2][0], it[2][1], n))
            if it[0] == 'S' and sdef(cx, it) == 'std::ops::RangeInclusive':
                return ('I', 'rangestep', (it[2][0], it[2][1] + 1, n))
            raise Unsupported('step_by over ' + str(it[1]))
        return ('I', kind, (it, c.args[1]) + ((F,) if kind in ('skip_while', 'take_while') else ()))
    return f


for _k in ('map', 'filter', 'filter_map', 'enumerate', 'rev', 'zip', 'chain', 'skip', 'take', 'step_by', 'copied', 'cloned', 'fuse',
           'peekable', 'inspect', 'take_while', 'skip_while', 'map_while'):
    M['Iterator.' + _k] = adapter(_k)


@m('iter.zip')
def free_zip(cx, st, c):
    return ('I', 'zip', (it_of(cx, st, c.args[0]), it_of(cx, st, c.args[1])))


@m('iter.repeat')
def it_repeat(cx, st, c):
    return ('I', 'repeat', (c.args[0],))


@m('iter.repeat_n')
def it_repeat_n(cx, st, c):
    return ('I', 'take', (('I', 'repeat', (c.args[0],)), c.args[1]))


@m('iter.once')
def it_once(cx, st, c):
    return ('I', 'once', (some(c.args[0]),))


@m('iter.empty')
def it_empty(cx, st, c):
    return ('I', 'once', (none(),))


@m('slice.windows')
def windows(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    c.oblige(st, ge(c.args[1] - 1), 'step', 'window size positive')
    return ('I', 'windows', (ref(base, path), lo, hi, c.args[1]))


@m('slice.chunks', 'slice.chunks_mut', 'slice.chunks_exact', 'slice.chunks_exact_mut')
def chunks(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    c.oblige(st, ge(c.args[1] - 1), 'step', 'chunk size positive')
    return ('I', 'chunkse' if 'exact' in c.fdef else 'chunks', (ref(base, path), lo, hi, c.args[1]))


def skip(cx, st, it, n):
    if it[0] == 'I' and it[1] in ('seq', 'vals'):
        f = it[2]
        if st.decide(ge(f[2] - f[1] - n)):
            return ('I', it[1], (f[0], f[1] + n, f[2]))
        return ('I', it[1], (f[0], f[2], f[2]))
    if it[0] == 'S' and sdef(cx, it) == 'std::ops::Range':
        f = it[2]
        if st.decide(ge(f[1] - f[0] - n)):
            return ('S', it[1], (f[0] + n, f[1]))
        return ('S', it[1], (f[1], f[1]))
    if it[0] == 'I' and it[1] == 'enumerate' and it[2][0][0] == 'I' and it[2][0][1] in ('seq', 'vals'):
        f = it[2][0][2]
        if st.decide(ge(f[2] - f[1] - n)):
            return ('I', 'enumerate', (skip(cx, st, it[2][0], n), it[2][1] + n))
        return ('I', 'enumerate', (skip(cx, st, it[2][0], n), it[2][1]))
    if it[0] == 'I' and it[1] == 'rev' and isinstance(it[2][0], tuple):
        x = it[2][0]
        if x[0] == 'I' and x[1] in ('seq', 'vals') or x[0] == 'S' and sdef(cx, x) == 'std::ops::Range':
            k = 1 if x[0] == 'I' else 0
            f = x[2]
            hi = f[k + 1] - n if st.decide(ge(f[k + 1] - f[k] - n)) else f[k]
            f = f[:k + 1] + (hi,) + tuple(f[k + 2:])
            return ('I', 'rev', ((x[0], x[1], f),) + tuple(it[2][1:]))
    return ('I', 'skip', (it, n))


def take_(cx, st, it, n):
    if it[0] == 'I' and it[1] in ('seq', 'vals'):
        f = it[2]
        if st.decide(ge(f[2] - f[1] - n)):
            return ('I', it[1], (f[0], f[1], f[1] + n))
        return it
    if it[0] == 'S' and sdef(cx, it) == 'std::ops::Range':
        f = it[2]
        if st.decide(ge(f[1] - f[0] - n)):
            return ('S', it[1], (f[0], f[0] + n))
        return it
    return ('I', 'take', (it, n))


def iter_len(cx, st, v):
    """exact remaining length, or None"""
    if v[0] == 'S':
        d = sdef(cx, v)
        if d == 'std::ops::Range':
            return v[2][1] - v[2][0] if st.decide(ge(v[2][1] - v[2][0])) else const(0)
        if d == 'std::ops::RangeInclusive':
            return v[2][1] + 1 - v[2][0] if st.decide(ge(v[2][1] + 1 - v[2][0])) else const(0)
        return None
    if v[0] != 'I':
        return None
    k, f = v[1], v[2]
    if k in ('seq', 'vals'):
        return f[2] - f[1]
    if k == 'rangeinc':
        return f[1] - f[0] if st.decide(ge(f[1] - f[0])) else const(0)
    if k in ('map', 'enumerate', 'rev', 'copied', 'inspect'):
        return iter_len(cx, st, f[0])
    if k == 'zip':
        a, b = iter_len(cx, st, f[0]), iter_len(cx, st, f[1])
        if a is None or b is None:
            return None
        return a if st.decide(ge(b - a)) else b
    if k == 'take':
        a = iter_len(cx, st, f[0])
        if a is None:
            return f[1] if f[0][0] == 'I' and f[0][1] == 'repeat' else None
        return a if st.decide(ge(f[1] - a)) else f[1]
    if k == 'skip':
        a = iter_len(cx, st, f[0])
        return None if a is None else (a - f[1] if st.decide(ge(a - f[1])) else const(0))
    if k == 'chain' and f[2] == F:
        a, b = iter_len(cx, st, f[0]), iter_len(cx, st, f[1])
        return None if a is None or b is None else a + b
    if k in ('seqstep', 'rangestep'):
        lo, hi, n = (f[1], f[2], f[3]) if k == 'seqstep' else f
        if not st.decide(ge(hi - lo)):
            return const(0)
        return lin.divmod_syms(hi - lo + n - 1, n)[0]
    if k == 'chars' or k == 'bytes':
        return f[2] - f[1]
    if k == 'chunkse':
        return lin.divmod_syms(f[2] - f[1], f[3])[0]
    return None


def prim(cx, st, base, path, v, back):
    """one step of a primitive iterator: Option value (ty None); None when v is not primitive"""
    if v[0] == 'S':
        d = sdef(cx, v)
        if d == 'std::ops::Range':
            a, b = v[2]
            if not st.decide(ge(b - a - 1)):
                return none()
            cx.write(st, base, path, ('S', v[1], (a, b - 1) if back else (a + 1, b)))
            return some(b - 1 if back else a)
        if d == 'std::ops::RangeFrom':
            a = v[2][0]
            cx.write(st, base, path, ('S', v[1], (a + 1,)))
            return some(a)
        return None
    k, f = v[1], v[2]
    if k in ('seq', 'vals'):
        r, lo, hi = f
        if not st.decide(ge(hi - lo - 1)):
            return none()
        p = hi - 1 if back else lo
        cx.write(st, base, path, ('I', k, (r, lo, hi - 1) if back else (r, lo + 1, hi)))
        if k == 'seq':
            return some(elem(r[1], r[2], p))
        return some(cx.seq_read(st, r, p))
    if k == 'seqstep' and not back:
        r, lo, hi, n = f
        if not st.decide(ge(hi - lo - 1)):
            return none()
        cx.write(st, base, path, ('I', k, (r, lo + n, hi, n)))
        return some(elem(r[1], r[2], lo))
    if k == 'rangestep' and not back:
        lo, hi, n = f
        if not st.decide(ge(hi - lo - 1)):
            return none()
        cx.write(st, base, path, ('I', k, (lo + n, hi, n)))
        return some(lo)
    if k == 'rangeinc':
        a, b = f[0], f[1]
        if not st.decide(ge(b - a - 1)):
            return none()
        cx.write(st, base, path, ('I', k, (a, b - 1, f[2]) if back else (a + 1, b, f[2])))
        return some(b - 1 if back else a)
    if k == 'repeat':
        return some(f[0])
    if k == 'once':
        cx.write(st, base, path, ('I', k, (none(),)))
        return f[0]
    if k in ('chars', 'bytes'):
        s, lo, hi = f
        if not st.decide(ge(hi - lo - 1)):
            return none()
        p = hi - 1 if back else lo
        cx.write(st, base, path, ('I', k, (s, lo, hi - 1) if back else (s, lo + 1, hi)))
        return some(char_at(cx, s, p) if k == 'chars' else byte_at(cx, s, p))
    if k == 'split' and not back:
        s, sep, lo, hi = f
        if not st.decide(ge(hi - lo - 1)):
            return none()
        cx.write(st, base, path, ('I', k, (s, sep, lo + 1, hi)))
        return some(('STR', ('piece', s[1], sep, lo)))
    if k == 'windows' and not back:
        r, lo, hi, n = f
        if not st.decide(ge(hi - lo - n)):
            return none()
        cx.write(st, base, path, ('I', k, (r, lo + 1, hi, n)))
        return some(('R', r[1], r[2], lo, n))
    if k in ('chunks', 'chunkse') and not back:
        r, lo, hi, n = f
        if st.decide(ge(hi - lo - n)):
            cx.write(st, base, path, ('I', k, (r, lo + n, hi, n)))
            return some(('R', r[1], r[2], lo, n))
        if k == 'chunkse' or st.decide(ge(lo - hi)):
            return none()
        cx.write(st, base, path, ('I', k, (r, hi, hi, n)))
        return some(('R', r[1], r[2], lo, hi - lo))
    return None


def iter_next(cx, st, r, d, call, back=False):
    """[(state, Option value)]: one step of the iterator r points to"""
    if r[0] == 'R':
        base, path = r[1], r[2]
        v = cx.read(st, base, path)
    else:
        raise Unsupported('iterator reference expected')
    if not isinstance(v, tuple):
        raise Unsupported('iterator expected')
    if v[0] == 'R':
        return iter_next(cx, st, v, d, call, back)
    if v[0] == 'B':
        return iter_next(cx, st, ref(base, path + ('box',)), d, call, back)
    if v[0] == 'S' and sdef(cx, v) == 'std::ops::RangeInclusive':
        st = st.copy()
        v = it_of(cx, st, v)
        cx.write(st, base, path, v)
    if v[0] == 'S':
        fn = next_fn(cx, v, 'next_back' if back else 'next')
        if fn is not None:
            return cx.call_fn(st, fn, [r], d, call)
    elif v[0] != 'I':
        raise Unsupported('iterator %r' % (v[:2],))
    res = cx.forking(st, lambda x: prim(cx, x, base, path, cx.read(x, base, path), back))
    if not res:
        return []
    if res[0][1] is not None:
        return res
    if v[0] != 'I':
        raise Unsupported('iterator %s' % (sdef(cx, v),))
    k, f = v[1], v[2]
    sub = lambda i: ref(base, path + (i,))
    out = []
    if k == 'rev':
        return iter_next(cx, st, sub(0), d, call, not back)
    if k == 'map':
        for s, o in iter_next(cx, st, sub(0), d, call, back):
            if o[2] == 0:
                out.append((s, none()))
            else:
                for s2, w in cx.call_value(s, sub(1), [o[3][0]], d, call):
                    out.append((s2, some(w)))
        return out
    if k == 'inspect':
        for s, o in iter_next(cx, st, sub(0), d, call, back):
            if o[2] == 0:
                out.append((s, none()))
            else:
                b = ('X', d, s.cnt)
                s.cnt += 1
                s.mem[b] = o[3][0]
                for s2, w in cx.call_value(s, sub(1), [ref(b, ())], d, call):
                    s2.mem.pop(b, None)
                    out.append((s2, o))
        return out
    if k == 'copied':
        for s, o in iter_next(cx, st, sub(0), d, call, back):
            if o[2] == 0:
                out.append((s, none()))
            else:
                out.extend((s2, some(w)) for s2, w in cx.forking(s, lambda x, o=o: deref1(cx, x, o[3][0])))
        return out
    if k == 'enumerate':
        if back:
            def go(x):
                n = iter_len(cx, x, cx.read(x, base, path + (0,)))
                if n is None:
                    raise Unsupported('enumerate from the back')
                return n
            for s0, n in cx.forking(st, go):
                for s, o in iter_next(cx, s0, sub(0), d, call, True):
                    out.append((s, none() if o[2] == 0 else some(tup([f[1] + n - 1, o[3][0]]))))
            return out
        for s, o in iter_next(cx, st, sub(0), d, call):
            if o[2] == 0:
                out.append((s, none()))
            else:
                cx.write(s, base, path + (1,), f[1] + 1)
                out.append((s, some(tup([f[1], o[3][0]]))))
        return out
    if k == 'zip':
        for s, o in iter_next(cx, st, sub(0), d, call):
            if o[2] == 0:
                out.append((s, none()))
                continue
            for s2, o2 in iter_next(cx, s, sub(1), d, call):
                out.append((s2, none() if o2[2] == 0 else some(tup([o[3][0], o2[3][0]]))))
        return out
    if k == 'skip' and not back:
        n = f[1].const
        if n is None and f[0][0] == 'S':
            n = 0 if st.facts.proves(eq(f[1])) else None
        if n is None or n > 6:
            raise Unsupported('skip of a symbolic amount')
        states = [(st, None)]
        for i in range(n + 1):
            nxt = []
            for s, o in states:
                if o is not None and o[2] == 0:
                    nxt.append((s, o))
                    continue
                nxt.extend(iter_next(cx, s, sub(0), d, call))
            states = nxt
        for s, o in states:
            cx.write(s, base, path + (1,), const(0))
        return states
    if k == 'take' and not back:
        for s, z in cx.forking(st, lambda x: x.decide(ge(f[1] - 1))):
            if not z:
                out.append((s, none()))
                continue
            cx.write(s, base, path + (1,), f[1] - 1)
            out.extend(iter_next(cx, s, sub(0), d, call))
        return out
    if k == 'chain' and not back:
        for s, done in cx.forking(st, lambda x: x.decide(f[2])):
            if done:
                out.extend(iter_next(cx, s, sub(1), d, call))
                continue
            for s2, o in iter_next(cx, s, sub(0), d, call):
                if o[2] == 1:
                    out.append((s2, o))
                else:
                    cx.write(s2, base, path + (2,), T)
                    out.extend(iter_next(cx, s2, sub(1), d, call))
        return out
    if k == 'peekable' and not back:
        for s, has in cx.forking(st, lambda x: x.decide(f[1])):
            if has:
                v = cx.read(s, base, path + (2,))
                cx.write(s, base, path + (1,), F)
                out.append((s, v))
            else:
                out.extend(iter_next(cx, s, sub(0), d, call))
        return out
    if k == 'map_while':
        for s, o in iter_next(cx, st, sub(0), d, call):
            if o[2] == 0:
                out.append((s, none()))
            else:
                for s2, w in cx.call_value(s, sub(1), [o[3][0]], d, call):
                    out.extend((s3, some(cx.walk(s3, w, (('v', 1, 0),))) if z else none())
                               for s3, z in cx.forking(s2, lambda x, w=w: x.decide(cx.variant_is(w, 1))))
        return out
    if k == 'take_while':
        for s, done in cx.forking(st, lambda x: x.decide(f[2])):
            if done:
                out.append((s, none()))
                continue
            for s1, o in iter_next(cx, s, sub(0), d, call):
                if o[2] == 0:
                    out.append((s1, none()))
                    continue
                b = ('X', d, s1.cnt)
                s1.cnt += 1
                s1.mem[b] = o[3][0]
                for s2, w in cx.call_value(s1, sub(1), [ref(b, ())], d, call):
                    s2.mem.pop(b, None)
                    for s3, z in cx.forking(s2, lambda x, w=w: x.decide(w)):
                        if not z:
                            cx.write(s3, base, path + (2,), T)
                        out.append((s3, o if z else none()))
        return out
    if k in ('filter', 'skip_while'):
        if back and k == 'skip_while':
            raise Unsupported('skip_while from the back')
        if k == 'filter' and getattr(cx, 'drive', None) is not None and not back:
            return drive_filter(cx, st, sub, d, call)
        fl = ('do', lambda cx, s, fr: cx.write(s, base, path + (2,), T), 4) if k == 'skip_while' else ('goto', 4)
        pred = (lambda cx, s, fr: s.mem[('L', fr.d, 3)]) if k == 'filter' else (lambda cx, s, fr: neg(s.mem[('L', fr.d, 3)]))
        code = [
            ('nextb' if back else 'next', lambda cx, s, fr: sub(0), 2, 1),
            ('if', lambda cx, s, fr: issome(s, fr, 2), 6 if k == 'skip_while' else 2, 5),
            ('call', lambda cx, s, fr: (sub(1), [item_ref(fr, 2)]), 3, 3),
            ('if', pred, 7, 0),
            ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 2)]), 8),
            ('do', lambda cx, s, fr: setl(s, fr, 0, none()), 8),
            ('if', lambda cx, s, fr: cx.read(s, base, path + (2,)), 4, 2) if k == 'skip_while' else ('goto', 8),
            fl,
            ('ret',)]
        return cx.exec_fn(st, Synth(k + '.next', code, call), [], d)
    if k == 'filter_map':
        code = [
            ('nextb' if back else 'next', lambda cx, s, fr: sub(0), 2, 1),
            ('if', lambda cx, s, fr: issome(s, fr, 2), 2, 5),
            ('call', lambda cx, s, fr: (sub(1), [payload(cx, s, fr, 2)]), 3, 3),
            ('if', lambda cx, s, fr: cx.variant_is(s.mem[('L', fr.d, 3)], 1), 4, 0),
            ('do', lambda cx, s, fr: setl(s, fr, 0, some(cx.walk(s, s.mem[('L', fr.d, 3)], (('v', 1, 0),)))), 6),
            ('do', lambda cx, s, fr: setl(s, fr, 0, none()), 6),
            ('ret',)]
        return cx.exec_fn(st, Synth('filter_map.next', code, call), [], d)
    raise Unsupported('iterator ' + k + (' from the back' if back else ''))


def drive_filter(cx, st, sub, d, call):
    """one step of a filter, unrolled; goes on where items are kept and records the states in which one is dropped"""
    while True:
        res = iter_next(cx, st, sub(0), d, call)
        if len(res) != 1:
            raise Unsupported('items that may be missing')
        s, o = res[0]
        if o[2] == 0:
            return [(s, none())]
        b = ('X', d, s.cnt)
        s.cnt += 1
        s.mem[b] = o[3][0]
        kept, lost = [], []
        for s2, w in cx.call_value(s, sub(1), [ref(b, ())], d, call):
            s2.mem.pop(b, None)
            for s3, z in cx.forking(s2, lambda x, w=w: x.decide(w)):
                (kept if z else lost).append(s3)
        if lost and kept:
            cx.drive.append((st, lost))
        if kept:
            return [(kept[0], some(o[3][0]))]
        st = lost[0]


def deref1(cx, st, v):
    if isinstance(v, tuple) and v[0] == 'R':
        if v[4] is not None:
            return v
        return cx.read(st, v[1], v[2])
    return v


def typed_opt(o, ty):
    return ('E', ty, o[2], o[3]) if o[0] == 'E' and o[1] is None else o


@m('Iterator.next', 'DoubleEndedIterator.next_back')
def m_next(cx, st, c):
    return Multi([(s, typed_opt(o, c.dty)) for s, o in iter_next(cx, st, c.args[0], c.fr.d + 1, c, c.fdef.endswith('next_back'))])


@m('Peekable.peek', 'Peekable.peek_mut')
def peek(cx, st, c):
    r = c.args[0]
    v = cx.read(st, r[1], r[2])
    if v[0] != 'I':
        return NotImplemented
    out = []
    for s, has in cx.forking(st, lambda x: x.decide(v[2][1])):
        rs = [(s, None)]
        if not has:
            rs = iter_next(cx, s, ref(r[1], r[2] + (0,)), c.fr.d + 1, c)
        for s2, o in rs:
            if o is not None:
                cx.write(s2, r[1], r[2] + (2,), o)
                cx.write(s2, r[1], r[2] + (1,), T)
            w = cx.read(s2, r[1], r[2] + (2,))
            out.append((s2, none(c.dty) if w[2] == 0 else some(ref(r[1], r[2] + (2, ('v', 1, 0))), c.dty)))
    return Multi(out)


def consumer(c, args, code):
    return Tail(Synth(c.fdef.split('::')[-1], code, c), args)


def self_it(cx, st, c):
    """the iterator (or a reference to it) a consumer was given"""
    v = c.args[0]
    if v[0] == 'R' and v[4] is None:
        return v
    return it_of(cx, st, v)


def itref(cx, s, fr):
    return loc(fr, 1)


@m('Iterator.for_each')
def for_each(cx, st, c):
    return consumer(c, [self_it(cx, st, c), c.args[1]], [
        ('next', itref, 3, 1), ('if', lambda cx, s, fr: issome(s, fr, 3), 2, 4),
        ('call', lambda cx, s, fr: (loc(fr, 2), [payload(cx, s, fr, 3)]), 4, 3),
        ('do', lambda cx, s, fr: drop(s, fr, 3, 4), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, UNIT(c)), 5), ('ret',)])


@m('Iterator.fold', 'DoubleEndedIterator.rfold')
def fold(cx, st, c):
    nx = 'nextb' if c.fdef.endswith('rfold') else 'next'
    return consumer(c, [self_it(cx, st, c), c.args[1], c.args[2]], [
        (nx, itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 4),
        ('call', lambda cx, s, fr: (loc(fr, 3), [s.mem[('L', fr.d, 2)], payload(cx, s, fr, 4)]), 2, 3),
        ('do', lambda cx, s, fr: drop(s, fr, 4), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 2)]), 5), ('ret',)])


def quant(name, stop, found, rest):
    """all / any / position / find: call the predicate, stop at the first `stop`"""
    def f(cx, st, c):
        byref = name in ('find', 'rfind')
        nx = 'nextb' if name.startswith('r') else 'next'
        if name in ('rposition',):
            raise Unsupported('rposition')
        code = [
            (nx, itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 6),
            ('call', lambda cx, s, fr: (loc(fr, 2), [item_ref(fr, 4) if byref else payload(cx, s, fr, 4)]), 5, 3),
            ('if', (lambda cx, s, fr: s.mem[('L', fr.d, 5)]) if stop else (lambda cx, s, fr: neg(s.mem[('L', fr.d, 5)])), 4, 5),
            ('do', lambda cx, s, fr: setl(s, fr, 0, found(cx, s, fr, c)), 7),
            ('do', lambda cx, s, fr: (drop(s, fr, 4, 5), setl(s, fr, 3, s.mem[('L', fr.d, 3)] + 1) if name == 'position' else None), 0),
            ('do', lambda cx, s, fr: setl(s, fr, 0, rest(cx, s, fr, c)), 7),
            ('ret',)]
        args = [self_it(cx, st, c), c.args[1]] + ([const(0)] if name == 'position' else [])
        return consumer(c, args, code)
    return f


M['Iterator.all'] = quant('all', False, lambda cx, s, fr, c: F, lambda cx, s, fr, c: T)
M['Iterator.any'] = quant('any', True, lambda cx, s, fr, c: T, lambda cx, s, fr, c: F)
M['Iterator.position'] = quant('position', True, lambda cx, s, fr, c: some(s.mem[('L', fr.d, 3)], c.dty), lambda cx, s, fr, c: none(c.dty))
M['Iterator.find'] = quant('find', True, lambda cx, s, fr, c: some(payload(cx, s, fr, 4), c.dty), lambda cx, s, fr, c: none(c.dty))
M['DoubleEndedIterator.rfind'] = quant('rfind', True, lambda cx, s, fr, c: some(payload(cx, s, fr, 4), c.dty), lambda cx, s, fr, c: none(c.dty))


@m('Iterator.find_map')
def find_map(cx, st, c):
    return consumer(c, [self_it(cx, st, c), c.args[1]], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 5),
        ('call', lambda cx, s, fr: (loc(fr, 2), [payload(cx, s, fr, 4)]), 5, 3),
        ('if', lambda cx, s, fr: cx.variant_is(s.mem[('L', fr.d, 5)], 1), 4, 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 5)]), 6),
        ('do', lambda cx, s, fr: setl(s, fr, 0, none(c.dty)), 6), ('ret',)])


def try_ok(cx, v):
    """formula: the Try value continues"""
    t = v[1] if v[0] == 'E' else v[2] if v[0] == 'SE' else None
    d = cx.T[t]['def'] if t is not None else ''
    if d == 'std::option::Option':
        return cx.variant_is(v, 1), 1
    if d in ('std::result::Result', 'std::ops::ControlFlow'):
        return cx.variant_is(v, 0), 0
    raise Unsupported('Try type ' + d)


def try_wrap(cx, t, v):
    d = cx.T[t]['def']
    return ('E', t, 1 if d == 'std::option::Option' else 0, (v,))


@m('Iterator.try_fold')
def try_fold(cx, st, c):
    return consumer(c, [self_it(cx, st, c), c.args[1], c.args[2]], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 5),
        ('call', lambda cx, s, fr: (loc(fr, 3), [s.mem[('L', fr.d, 2)], payload(cx, s, fr, 4)]), 5, 3),
        ('if', lambda cx, s, fr: try_ok(cx, s.mem[('L', fr.d, 5)])[0], 4, 6),
        ('do', lambda cx, s, fr: (setl(s, fr, 2, cx.walk(s, s.mem[('L', fr.d, 5)], (('v', try_ok(cx, s.mem[('L', fr.d, 5)])[1], 0),))), drop(s, fr, 4, 5)), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, try_wrap(cx, c.dty, s.mem[('L', fr.d, 2)])), 7),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 5)]), 7), ('ret',)])


@m('Iterator.try_for_each')
def try_for_each(cx, st, c):
    return consumer(c, [self_it(cx, st, c), c.args[1]], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 4),
        ('call', lambda cx, s, fr: (loc(fr, 2), [payload(cx, s, fr, 4)]), 5, 3),
        ('if', lambda cx, s, fr: try_ok(cx, s.mem[('L', fr.d, 5)])[0], 6, 5),
        ('do', lambda cx, s, fr: setl(s, fr, 0, try_wrap(cx, c.dty, UNIT())), 7),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 5)]), 7),
        ('do', lambda cx, s, fr: drop(s, fr, 4, 5), 0), ('ret',)])


@m('Iterator.count')
def count(cx, st, c):
    it = self_it(cx, st, c)
    n = iter_len(cx, st, it) if it[0] != 'R' and it[0] == 'I' and it[1] in ('seq', 'vals', 'chars', 'bytes', 'rangeinc') else None
    if n is not None:
        return n
    return consumer(c, [it, const(0)], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 3),
        ('do', lambda cx, s, fr: (setl(s, fr, 2, s.mem[('L', fr.d, 2)] + 1), s.assume(ge(const(U64) - s.mem[('L', fr.d, 2)])), drop(s, fr, 4)), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 2)]), 4), ('ret',)])


@m('Iterator.sum', 'Iterator.product')
def isum(cx, st, c):
    rng = cx.prog.int_range(c.dty)
    if rng is None:
        return NotImplemented
    mul = c.fdef.endswith('product')

    def step(cx, s, fr):
        x = deref(cx, s, payload(cx, s, fr, 4))
        a = s.mem[('L', fr.d, 2)]
        r = a * poly(x) if mul else a + poly(x)
        c.oblige(s, conj([ge(r - rng[0]), ge(const(rng[1]) - r)]), 'Overflow', 'sum or product fits')
        setl(s, fr, 2, r)
        drop(s, fr, 4)
    return consumer(c, [self_it(cx, st, c), const(1 if mul else 0)], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 3), ('do', step, 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 2)]), 4), ('ret',)])


@m('Iterator.last')
def ilast(cx, st, c):
    return consumer(c, [self_it(cx, st, c), none(c.dty)], [
        ('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 3),
        ('do', lambda cx, s, fr: (setl(s, fr, 2, some(payload(cx, s, fr, 4), c.dty)), drop(s, fr, 4)), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 2)]), 4), ('ret',)])


@m('Iterator.nth')
def inth(cx, st, c):
    n = poly(c.args[1])
    r = c.args[0]
    k = n.const
    if k is not None and k <= 6:
        states = [(st, None)]
        for i in range(k + 1):
            nxt = []
            for s, o in states:
                if o is not None and o[2] == 0:
                    nxt.append((s, o))
                else:
                    nxt.extend(iter_next(cx, s, r, c.fr.d + 1, c))
            states = nxt
        return Multi([(s, typed_opt(o, c.dty)) for s, o in states])
    v = cx.read(st, r[1], r[2])
    if v[0] == 'I' and v[1] in ('seq', 'vals', 'chars'):
        f = v[2]
        if not st.decide(ge(f[2] - f[1] - n - 1)):
            cx.write(st, r[1], r[2], ('I', v[1], (f[0], f[2], f[2])))
            return none(c.dty)
        cx.write(st, r[1], r[2], ('I', v[1], (f[0], f[1] + n, f[2])))
        return Multi([(s, typed_opt(o, c.dty)) for s, o in iter_next(cx, st, r, c.fr.d + 1, c)])
    return NotImplemented


def best(by, wantmax):
    """max/min and their _by/_by_key forms: which element wins is left open, it is one of the elements"""
    def f(cx, st, c):
        def better(cx, s, fr):
            a, b = s.mem[('L', fr.d, 3)], payload(cx, s, fr, 4)
            x, y = deref(cx, s, a[3][0]), deref(cx, s, b)
            if isinstance(x, Poly) and isinstance(y, Poly):
                return ge(y - x) if wantmax else ge(x - y - 1)
            return ('b', cx.fresh(s, 'better'))

        def by_better(cx, s, fr):
            o = s.mem[('L', fr.d, 5)]       # Ordering of (current best, new)
            return neg(cx.variant_is(o, 2)) if wantmax else cx.variant_is(o, 2)
        take = ('do', lambda cx, s, fr: (setl(s, fr, 3, some(payload(cx, s, fr, 4), c.dty)), drop(s, fr, 4, 5)), 0)
        leave = ('do', lambda cx, s, fr: drop(s, fr, 4, 5), 0)
        first = ('if', lambda cx, s, fr: issome(s, fr, 3), 3, 4)
        if by == 'by':
            code = [('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 6), first,
                    ('call', lambda cx, s, fr: (loc(fr, 2), [item_ref(fr, 3), item_ref(fr, 4)]), 5, 7),
                    take, leave,
                    ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 3)]), 8),
                    ('if', by_better, 4, 5), ('ret',)]
        elif by == 'key':
            code = [('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 6), first,
                    ('call', lambda cx, s, fr: (loc(fr, 2), [item_ref(fr, 4)]), 5, 7),
                    take, leave,
                    ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 3)]), 8),
                    ('if', lambda cx, s, fr: ('b', cx.fresh(s, 'better')), 4, 5), ('ret',)]
        else:
            code = [('next', itref, 4, 1), ('if', lambda cx, s, fr: issome(s, fr, 4), 2, 6), first, ('if', better, 4, 5),
                    take, leave, ('do', lambda cx, s, fr: setl(s, fr, 0, s.mem[('L', fr.d, 3)]), 7), ('ret',)]
        return consumer(c, [self_it(cx, st, c), c.args[1] if len(c.args) > 1 else UNIT(), none(c.dty)], code)
    return f


for _n, _w in (('max', True), ('min', False)):
    M['Iterator.' + _n] = best('', _w)
    M['Iterator.%s_by' % _n] = best('by', _w)
    M['Iterator.%s_by_key' % _n] = best('key', _w)


@m('Iterator.collect', 'FromIterator.from_iter')
def collect(cx, st, c):
    t = cx.T[c.dty]
    it = self_it(cx, st, c)
    if t['k'] != 'adt':
        return NotImplemented
    d = t['def']
    if d in ('std::vec::Vec', 'std::collections::VecDeque') or d == 'std::boxed::Box' and cx.T[t['args'][0]]['k'] == 'slice':
        ety = t['args'][0] if d != 'std::boxed::Box' else cx.T[t['args'][0]]['of']
        wrap = (lambda v: ('B', v)) if d == 'std::boxed::Box' else (lambda v: v)
        if it[0] == 'I' and it[1] in ('seq', 'seqstep'):
            r, lo, hi = it[2][:3]
            step = it[2][3] if it[1] == 'seqstep' else const(1)
            n = iter_len(cx, st, it)
            return wrap(('Q', const(0), n, ('aff', r[1], r[2], lo, step), (), ety))
        if it[0] == 'I' and it[1] == 'copied' and it[2][0][0] == 'I' and it[2][0][1] == 'seq':
            r, lo, hi = it[2][0][2]
            q = cx.read(st, r[1], r[2])
            return wrap(('Q', lo, hi, q[3], q[4], q[5]))
        if it[0] == 'I' and it[1] == 'vals':
            q, lo, hi = it[2]
            return wrap(('Q', lo, hi, q[3], q[4], q[5]))
        return consumer(c, [it, ('Q', const(0), const(0), ('arr', ()), (), ety)], [
            ('next', itref, 3, 1), ('if', lambda cx, s, fr: issome(s, fr, 3), 2, 3),
            ('do', lambda cx, s, fr: (push(cx, s, loc(fr, 2), payload(cx, s, fr, 3)), drop(s, fr, 3)), 0),
            ('do', lambda cx, s, fr: setl(s, fr, 0, wrap(s.mem[('L', fr.d, 2)])), 4), ('ret',)])
    if d in ('std::result::Result', 'std::option::Option') and is_def(cx, t['args'][0], 'std::vec::Vec'):
        vt = t['args'][0]
        ety = cx.T[vt]['args'][0]
        okv = 0 if d == 'std::result::Result' else 1

        def bad(cx, s, fr):
            w = payload(cx, s, fr, 3)
            if okv == 1:
                return none(c.dty)
            return ('E', c.dty, 1, (cx.walk(s, w, (('v', 1, 0),)),))
        return consumer(c, [it, ('Q', const(0), const(0), ('arr', ()), (), ety)], [
            ('next', itref, 3, 1), ('if', lambda cx, s, fr: issome(s, fr, 3), 2, 4),
            ('if', lambda cx, s, fr: cx.variant_is(payload(cx, s, fr, 3), okv), 3, 5),
            ('do', lambda cx, s, fr: (push(cx, s, loc(fr, 2), cx.walk(s, payload(cx, s, fr, 3), (('v', okv, 0),))), drop(s, fr, 3)), 0),
            ('do', lambda cx, s, fr: setl(s, fr, 0, ('E', c.dty, okv, (s.mem[('L', fr.d, 2)],))), 6),
            ('do', lambda cx, s, fr: setl(s, fr, 0, bad(cx, s, fr)), 6), ('ret',)])
    if d in ('std::result::Result', 'std::option::Option'):
        return NotImplemented
    return consumer(c, [it], [
        ('next', itref, 3, 1), ('if', lambda cx, s, fr: issome(s, fr, 3), 2, 3),
        ('do', lambda cx, s, fr: drop(s, fr, 3), 0),
        ('do', lambda cx, s, fr: setl(s, fr, 0, cx.havoc(s, c.dty, 'collect')), 4), ('ret',)])


@m('Iterator.size_hint')
def size_hint(cx, st, c):
    v = deref(cx, st, c.args[0])
    n = iter_len(cx, st, v) if isinstance(v, tuple) and v[0] in ('I', 'S') else None
    if n is None or c.dty is None:
        return NotImplemented
    try:
        o = cx.T[c.dty]['fields'][1]
    except (KeyError, IndexError, TypeError):
        o = None
    return tup([n, some(n, o)], c.dty)


# ------------------------------------------------------------------------------------------------ memory
@m('mem.swap')
def mem_swap(cx, st, c):
    a, b = c.args
    x, y = cx.read(st, a[1], a[2]), cx.read(st, b[1], b[2])
    cx.write(st, a[1], a[2], y)
    cx.write(st, b[1], b[2], x)
    return UNIT(c)


@m('mem.replace')
def mem_replace(cx, st, c):
    a = c.args[0]
    x = cx.read(st, a[1], a[2], c.dty)
    cx.write(st, a[1], a[2], c.args[1])
    return x


@m('mem.take')
def mem_take(cx, st, c):
    a = c.args[0]
    x = cx.read(st, a[1], a[2], c.dty)
    cx.write(st, a[1], a[2], default_of(cx, c.dty))
    return x


@m('Default.default')
def default(cx, st, c):
    try:
        return default_of(cx, c.dty)
    except Unsupported:
        return NotImplemented


@m('mem.drop', 'mem.forget')
def mem_drop(cx, st, c):
    return UNIT(c)


@m('Clone.clone', 'Clone.clone_from')
def clone(cx, st, c):
    if c.fdef.endswith('clone_from'):
        return NotImplemented
    v = c.args[0]
    if v[0] == 'STR':
        return v
    if v[0] == 'R' and v[4] is None:
        w = cx.read(st, v[1], v[2])
        if isinstance(w, tuple) and w[0] == 'Q':
            return ('Q', w[1], w[2], w[3], w[4], w[5])
        return w
    return NotImplemented


# ------------------------------------------------------------------------------------------------ integers
def intarg(cx, st, v):
    return deref(cx, st, v)


INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')


def reg_int(name, f):
    for t in INTS:
        M['%s.%s' % (t, name)] = f


def ibin(op):
    def f(cx, st, c):
        a, b = poly(c.args[0]), poly(c.args[1])
        kind = op.split('_')[0]
        o = op.split('_', 1)[1]
        ty = c.argtys[0]
        lo, hi = cx.prog.int_range(ty)
        if o in ('add', 'sub', 'mul'):
            r = a + b if o == 'add' else a - b if o == 'sub' else a * b
        elif o == 'pow':
            n = b.const
            if n is None or n > 8:
                return NotImplemented
            r = const(1)
            for _ in range(n):
                r = r * a
        elif o in ('div', 'rem'):
            z = st.decide(eq(b))
            if kind == 'checked':
                if z:
                    return none(c.dty)
            else:
                c.oblige(st, ne(b), 'DivisionByZero', 'division by zero')
            return some(cx.binop(st, c.fr, o.capitalize(), a, b, ty), c.dty) if kind == 'checked' else cx.binop(st, c.fr, o.capitalize(), a, b, ty)
        else:
            return NotImplemented
        inr = conj([ge(r - lo), ge(const(hi) - r)])
        if kind == 'checked':
            return some(r, c.dty) if st.decide(inr) else none(c.dty)
        if kind == 'wrapping':
            return cx.wrap(st, r, (lo, hi), 'w')
        if kind == 'saturating':
            if st.decide(ge(const(hi) - r)):
                return r if st.decide(ge(r - lo)) else const(lo)
            return const(hi)
        if kind == 'overflowing':
            return tup([cx.wrap(st, r, (lo, hi), 'w'), neg(inr)], c.dty)
        if kind == 'unchecked' or kind == 'strict':
            c.oblige(st, inr, 'Overflow', op)
            return r
        return NotImplemented
    return f


for _k in ('checked', 'wrapping', 'saturating', 'overflowing', 'unchecked', 'strict'):
    for _o in ('add', 'sub', 'mul', 'pow', 'div', 'rem'):
        reg_int(_k + '_' + _o, ibin(_k + '_' + _o))


def i_pow(cx, st, c):
    n = poly(c.args[1]).const
    if n is None or n > 8:
        return NotImplemented
    r = const(1)
    for _ in range(n):
        r = r * poly(c.args[0])
    lo, hi = cx.prog.int_range(c.argtys[0])
    c.oblige(st, conj([ge(r - lo), ge(const(hi) - r)]), 'Overflow', 'pow')
    return r


def i_absdiff(cx, st, c):
    a, b = c.args
    return a - b if st.decide(ge(a - b)) else b - a


def i_divceil(cx, st, c):
    a, b = c.args
    c.oblige(st, ge(b - 1), 'DivisionByZero', 'division by zero')
    return lin.divmod_syms(a + b - 1, b)[0]


def i_multiple(cx, st, c):
    a, b = c.args
    if st.decide(eq(b)):
        return eq(a)
    return eq(lin.divmod_syms(a, b)[1])


def i_euclid(rem):
    def f(cx, st, c):
        a, b = c.args
        c.oblige(st, ne(b), 'DivisionByZero', 'division by zero')
        if st.known(conj([ge(a), ge(b - 1)])) is True:
            return lin.divmod_syms(a, b)[1 if rem else 0]
        return NotImplemented
    return f


def i_abs(cx, st, c):
    a = c.args[0]
    return a if st.decide(ge(a)) else -a


def i_nextpow(cx, st, c):
    a = c.args[0]
    if a.const is not None:
        return const(1 << max(0, (a.const - 1).bit_length()))
    lo, hi = cx.prog.int_range(c.argtys[0])
    c.oblige(st, ge(const((hi + 1) // 2) - a), 'Overflow', 'next_power_of_two')
    r = declare(cx.fresh(st, 'pow2'), 1, (hi + 1) // 2)
    st.assume(ge(r - a))
    st.assume(disj([ge(a * 2 - 1 - r), eq(r - 1)]))
    return r


def i_bits(cx, st, c):
    lo, hi = cx.prog.int_range(c.argtys[0])
    return declare(cx.fresh(st, 'bits'), 0, (hi - lo + 1).bit_length() - 1)


reg_int('next_power_of_two', i_nextpow)
for _k in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'leading_ones', 'trailing_ones'):
    reg_int(_k, i_bits)
for _k in ('ctlz', 'cttz', 'ctpop'):
    M['intrinsics.' + _k] = i_bits
for _o in ('add', 'sub'):
    M['intrinsics.saturating_' + _o] = ibin('saturating_' + _o)
reg_int('pow', i_pow)
reg_int('abs_diff', i_absdiff)
reg_int('div_ceil', i_divceil)
reg_int('is_multiple_of', i_multiple)
reg_int('div_euclid', i_euclid(False))
reg_int('rem_euclid', i_euclid(True))
reg_int('unsigned_abs', i_abs)


def ordering(cx, st, a, b, ty):
    if st.decide(ge(b - a - 1)):
        return ('E', ty, 0, ())
    return ('E', ty, 1, ()) if st.decide(eq(a - b)) else ('E', ty, 2, ())


@m('Ord.cmp', 'PartialOrd.partial_cmp')
def ord_cmp(cx, st, c):
    a, b = intarg(cx, st, c.args[0]), intarg(cx, st, c.args[1])
    if isinstance(a, Poly) and isinstance(b, Poly):
        if c.fdef.endswith('partial_cmp'):
            return some(ordering(cx, st, a, b, cx.T[c.dty]['args'][0]), c.dty)
        return ordering(cx, st, a, b, c.dty)
    return NotImplemented


@m('Ord.max', 'cmp.max')
def ord_max(cx, st, c):
    a, b = c.args
    if isinstance(a, Poly) and isinstance(b, Poly):
        return b if st.decide(ge(b - a)) else a
    return NotImplemented


@m('Ord.min', 'cmp.min')
def ord_min(cx, st, c):
    a, b = c.args
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a if st.decide(ge(b - a)) else b
    return NotImplemented


@m('Ord.clamp')
def ord_clamp(cx, st, c):
    a, lo, hi = c.args
    if not all(isinstance(x, Poly) for x in c.args):
        return NotImplemented
    c.oblige(st, ge(hi - lo), 'clamp', 'clamp bounds ordered')
    if not st.decide(ge(a - lo)):
        return lo
    return a if st.decide(ge(hi - a)) else hi


def cmp_op(op):
    def f(cx, st, c):
        a, b = intarg(cx, st, c.args[0]), intarg(cx, st, c.args[1])
        if isinstance(a, Poly) and isinstance(b, Poly) or is_bool(a) and is_bool(b):
            return cx.compare(st, op, a, b)
        if op in ('Eq', 'Ne') and isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 'STR' and b[0] == 'STR' or a[0] == 'Q' and b[0] == 'Q' or a[0] == 'R' and b[0] == 'R':
                if a[0] == 'Q' or a[0] == 'R':
                    return ('b', cx.fresh(st, 'seqeq'))
                return cx.compare(st, op, a, b)
        return NotImplemented
    return f


for _n, _o in (('eq', 'Eq'), ('ne', 'Ne')):
    M['PartialEq.' + _n] = cmp_op(_o)
for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    M['PartialOrd.' + _n] = cmp_op(_o)


def arith(op):
    def f(cx, st, c):
        a, b = deref(cx, st, c.args[0]), deref(cx, st, c.args[1])
        if is_bool(a) and is_bool(b):
            return cx.binop(st, c.fr, op, a, b, c.dty)
        if not (isinstance(a, Poly) and isinstance(b, Poly)) or cx.prog.int_range(c.dty) is None:
            return NotImplemented
        lo, hi = cx.prog.int_range(c.dty)
        if op in ('Add', 'Sub', 'Mul'):
            r = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            c.oblige(st, conj([ge(r - lo), ge(const(hi) - r)]), 'Overflow', op)
            return r
        if op in ('Div', 'Rem'):
            c.oblige(st, ne(b), 'DivisionByZero', 'division by zero')
        return cx.binop(st, c.fr, op, a, b, c.dty)
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem'), ('bitand', 'BitAnd'), ('bitor', 'BitOr'),
               ('bitxor', 'BitXor'), ('shl', 'Shl'), ('shr', 'Shr')):
    M['%s.%s' % (_o, _n)] = arith(_o)


def arith_assign(op):
    def f(cx, st, c):
        r = c.args[0]
        a, b = deref(cx, st, r), deref(cx, st, c.args[1])
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return NotImplemented
        t = cx.T[c.argtys[0]]['to']
        lo, hi = cx.prog.int_range(t)
        if op in ('Add', 'Sub', 'Mul'):
            v = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            c.oblige(st, conj([ge(v - lo), ge(const(hi) - v)]), 'Overflow', op)
        else:
            v = cx.binop(st, c.fr, op, a, b, t)
        cx.write(st, r[1], r[2], v)
        return UNIT(c)
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('rem', 'Rem')):
    M['%sAssign.%s_assign' % (_o, _n)] = arith_assign(_o)


@m('Not.not')
def m_not(cx, st, c):
    v = deref(cx, st, c.args[0])
    return neg(v) if is_bool(v) else NotImplemented


@m('bool.then')
def bool_then(cx, st, c):
    if st.decide(c.args[0]):
        return Tail(c.args[1], [], lambda s, v: some(v, c.dty))
    return none(c.dty)


@m('bool.then_some')
def bool_then_some(cx, st, c):
    return some(c.args[1], c.dty) if st.decide(c.args[0]) else none(c.dty)


def int_convert(cx, st, v, ft, t, dty, call):
    """From/TryFrom between integers"""
    rng = cx.prog.int_range(t)
    if cx.prog.int_range(ft) is None or rng is None:
        return NotImplemented
    if is_bool(v):
        v = cx.as_int(st, v)
    if not isinstance(v, Poly):
        return NotImplemented
    inr = conj([ge(v - rng[0]), ge(const(rng[1]) - v)])
    if dty == t:
        if st.known(inr) is True:
            return v
        return NotImplemented
    if st.decide(inr):
        return ('E', dty, 0, (v,))
    et = cx.T[dty]['args'][1]
    return ('E', dty, 1, (cx.of_type(et, cx.fresh(st, 'tryint')),))


@m('From.from', 'Into.into')
def m_from(cx, st, c):
    v = c.args[0]
    if v[0] == 'STR' if isinstance(v, tuple) else False:
        s = cx.T[c.dty]['s']
        if s.endswith('String') or 'Box<str>' in s:
            return v
    if c.argtys and c.argtys[0] == c.dty:
        return v
    if c.argtys:
        return int_convert(cx, st, v, c.argtys[0], c.dty, c.dty, c)
    return NotImplemented


@m('TryFrom.try_from', 'TryInto.try_into')
def m_try_from(cx, st, c):
    if cx.T[c.dty]['k'] == 'adt' and cx.T[c.dty]['def'] == 'std::result::Result':
        return int_convert(cx, st, c.args[0], c.argtys[0], cx.T[c.dty]['args'][0], c.dty, c)
    return NotImplemented


@m('RangeInclusive.new')
def rangeinc_new(cx, st, c):
    return ('S', c.dty, (c.args[0], c.args[1], F))


@m('Range.contains', 'RangeInclusive.contains', 'RangeFrom.contains', 'RangeTo.contains')
def range_contains(cx, st, c):
    v = deref(cx, st, c.args[0])
    x = deref(cx, st, c.args[1])
    b = range_bounds(cx, st, v, None) if v[0] == 'S' else None
    if b is None or not isinstance(x, Poly):
        return NotImplemented
    return conj([ge(x - b[0])] + ([ge(b[1] - x - 1)] if b[1] is not None else []))


@m('RangeInclusive.start')
def ri_start(cx, st, c):
    return ref(c.args[0][1], c.args[0][2] + (0,))


@m('RangeInclusive.end')
def ri_end(cx, st, c):
    return ref(c.args[0][1], c.args[0][2] + (1,))


@m('Range.is_empty')
def r_empty(cx, st, c):
    v = deref(cx, st, c.args[0])
    return ge(v[2][0] - v[2][1])


# ------------------------------------------------------------------------------------------------ strings, characters
def nchars(cx, s):
    return declare('nchars(%r)' % (s[1],), 0, MAXLEN - 1)


def str_len(cx, v):
    if v[0] == 'STR' and v[1][0] == 'lit':
        return const(len(v[1][1].encode()))
    return declare('bytes(%r)' % (v[1],), 0, MAXLEN)


def char_at(cx, s, p):
    if s[1][0] == 'lit' and p.const is not None:
        return const(ord(s[1][1][p.const]))
    return declare('ch(%r)[%r]' % (s[1], p), 0, 0x10FFFF)


def byte_at(cx, s, p):
    return declare('by(%r)[%r]' % (s[1], p), 0, 255)


def strarg(cx, st, v):
    v = deref(cx, st, v)
    if v[0] != 'STR':
        raise Unsupported('string expected')
    return v


@m('str.chars')
def str_chars(cx, st, c):
    s = strarg(cx, st, c.args[0])
    return ('I', 'chars', (s, const(0), const(len(s[1][1])) if s[1][0] == 'lit' else nchars(cx, s)))


@m('str.char_indices')
def char_indices(cx, st, c):
    return NotImplemented


@m('str.bytes')
def str_bytes(cx, st, c):
    s = strarg(cx, st, c.args[0])
    return ('I', 'bytes', (s, const(0), str_len(cx, s)))


@m('str.as_bytes', 'String.as_bytes', 'str.into_bytes', 'String.into_bytes')
def as_bytes(cx, st, c):
    s = strarg(cx, st, c.args[0])
    n = str_len(cx, s)
    u8 = cx.prog.bystr.get('u8')
    b = ('G', 'by(%r)' % (s[1],))
    cx.gty[b] = u8
    if b not in st.mem:
        st.mem[b] = ('Q', const(0), n, ('gen', 'by(%r)' % (s[1],), u8, (), None), (), u8)
    if cx.T[c.dty]['k'] == 'ref':
        return ('R', b, (), const(0), n)
    return st.mem[b]


@m('str.len', 'String.len')
def m_str_len(cx, st, c):
    return str_len(cx, strarg(cx, st, c.args[0]))


@m('str.is_empty', 'String.is_empty')
def m_str_empty(cx, st, c):
    return eq(str_len(cx, strarg(cx, st, c.args[0])))


@m('str.trim', 'str.trim_start', 'str.trim_end', 'str.trim_matches', 'str.trim_start_matches', 'str.trim_end_matches', 'str.trim_left', 'str.trim_right',
   'str.trim_ascii', 'str.trim_ascii_start', 'str.trim_ascii_end', 'str.to_lowercase', 'str.to_uppercase', 'str.to_ascii_lowercase', 'str.to_ascii_uppercase', 'str.replace', 'str.replacen', 'str.repeat')
def str_derived(cx, st, c):
    s = strarg(cx, st, c.args[0])
    return ('STR', ('derived', key_of(c.fdef), s[1], tuple(repr(a) for a in c.args[1:])))


@m('str.split')
def str_split(cx, st, c):
    s = strarg(cx, st, c.args[0])
    sep = c.args[1]
    if isinstance(sep, Poly):
        seps = repr(sep)
    elif sep[0] == 'STR' and sep[1][0] == 'lit' and len(sep[1][1]) == 1:
        seps = repr(const(ord(sep[1][1])))
    else:
        seps = repr(sep)
    n = declare('pieces(%r,%s)' % (s[1], seps), 1, MAXLEN - 1)
    return ('I', 'split', (s, seps, const(0), n))


@m('str.parse', 'FromStr.from_str')
def str_parse(cx, st, c):
    s = strarg(cx, st, c.args[0])
    t = cx.T[c.dty]
    return ('SE', 'parse(%r:%s)' % (s[1], cx.T[t['args'][0]]['s']), c.dty)


@m('Argument.new_display')
def fmt_arg(cx, st, c):
    return ('S', c.dty, (deref(cx, st, c.args[0]),))


@m('Arguments.new')
def fmt_args(cx, st, c):
    """only the template "{}" is understood"""
    try:
        t, a = deref(cx, st, c.args[0]), deref(cx, st, c.args[1])
    except (Unsupported, TypeError, IndexError):
        return NotImplemented
    if t[0] == 'Q' and t[3][0] == 'arr' and a[0] == 'Q' and a[3][0] == 'arr' and not t[4] and not a[4]:
        if [x.const for x in t[3][1]] == [0xC0, 0] and len(a[3][1]) == 1:
            x = a[3][1][0]
            if x[0] == 'S' and len(x[2]) == 1:
                return ('S', c.dty, (('fmtone', x[2][0]),))
    return NotImplemented


@m('fmt.format')
def fmt_format(cx, st, c):
    v = c.args[0]
    if v[0] == 'S' and v[2] and isinstance(v[2][0], tuple) and v[2][0][0] == 'fmtone':
        x = v[2][0][1]
        return x if isinstance(x, tuple) and x[0] == 'STR' else ('STR', ('show', repr(x)))
    return NotImplemented


@m('ToString.to_string', 'String.from', 'str.to_string', 'SpecToString.spec_to_string', 'String.into_boxed_str', 'String.clone')
def to_string(cx, st, c):
    v = deref(cx, st, c.args[0])
    if isinstance(v, tuple) and v[0] == 'STR':
        return v
    return ('STR', ('show', repr(v)))


@m('String.new')
def string_new(cx, st, c):
    return ('STR', ('lit', ''))


@m('char.to_digit')
def to_digit(cx, st, c):
    ch, r = poly(deref(cx, st, c.args[0])), poly(c.args[1]).const
    if r is None:
        return NotImplemented
    if r <= 10:
        if st.decide(conj([ge(ch - 48), ge(const(47 + r) - ch)])):
            return some(ch - 48, c.dty)
        return none(c.dty)
    d = declare('digit%d(%r)' % (r, ch), 0, r - 1)
    if st.decide(('b', 'isdigit%d(%r)' % (r, ch))):
        return some(d, c.dty)
    return none(c.dty)


@m('char.is_ascii_digit', 'u8.is_ascii_digit')
def is_ascii_digit(cx, st, c):
    ch = poly(deref(cx, st, c.args[0]))
    return conj([ge(ch - 48), ge(const(57) - ch)])


@m('char.is_digit')
def is_digit(cx, st, c):
    ch, r = poly(deref(cx, st, c.args[0])), poly(c.args[1]).const
    if r is None or r > 10:
        return NotImplemented
    return conj([ge(ch - 48), ge(const(47 + r) - ch)])


@m('char.from_u32', 'char.from_digit')
def char_opaque(cx, st, c):
    return cx.havoc(st, c.dty, 'char')


# ------------------------------------------------------------------------------------------------ images
@m('ImageBuffer.from_pixel', 'ImageBuffer.new')
def img_new(cx, st, c):
    n = cx.fresh(st, 'img')
    color = c.args[2] if len(c.args) > 2 else None
    w, h = poly(c.args[0]), poly(c.args[1])
    cx.emit(st, 'new', n, w, h, color)
    return ('IMG', w, h, n)


def img(cx, st, v):
    v = deref(cx, st, v)
    if v[0] != 'IMG':
        raise Unsupported('image expected')
    return v


@m('ImageBuffer.as_raw', 'ImageBuffer.into_raw', 'ImageBuffer.into_vec')
def img_raw(cx, st, c):
    v = img(cx, st, c.args[0])
    u8 = cx.prog.bystr.get('u8')
    n = '%s.raw' % v[3]
    q = ('Q', const(0), v[1] * v[2] * 3, ('gen', n, u8, (), None), (), u8)
    if cx.T[c.dty]['k'] != 'ref':
        return q
    b = ('G', cx.fresh(st, 'raw'))
    cx.gty[b] = cx.T[c.dty]['to']
    st.mem[b] = q
    return ref(b, ())


@m('ImageBuffer.width')
def img_w(cx, st, c):
    return img(cx, st, c.args[0])[1]


@m('ImageBuffer.height')
def img_h(cx, st, c):
    return img(cx, st, c.args[0])[2]


@m('ImageBuffer.dimensions', 'GenericImageView.dimensions')
def img_dim(cx, st, c):
    v = img(cx, st, c.args[0])
    return tup([v[1], v[2]], c.dty)


@m('ImageBuffer.put_pixel', 'GenericImage.put_pixel')
def put_pixel(cx, st, c):
    v = img(cx, st, c.args[0])
    x, y, px = c.args[1:4]
    c.oblige(st, conj([ge(x), ge(v[1] - x - 1), ge(y), ge(v[2] - y - 1)]), 'pixel', 'pixel inside the image')
    cx.emit(st, 'put', v[3], x, y, px)
    return UNIT(c)


@m('ImageBuffer.get_pixel')
def get_pixel(cx, st, c):
    v = img(cx, st, c.args[0])
    x, y = c.args[1:3]
    c.oblige(st, conj([ge(x), ge(v[1] - x - 1), ge(y), ge(v[2] - y - 1)]), 'pixel', 'pixel inside the image')
    cx.emit(st, 'get', v[3], x, y)
    b = ('G', cx.fresh(st, 'px'))
    cx.gty[b] = cx.T[c.dty]['to']
    return ref(b, ())


@m('ImageBuffer.get_pixel_mut')
def get_pixel_mut(cx, st, c):
    v = img(cx, st, c.args[0])
    x, y = c.args[1:3]
    c.oblige(st, conj([ge(x), ge(v[1] - x - 1), ge(y), ge(v[2] - y - 1)]), 'pixel', 'pixel inside the image')
    b = ('PX', v[3], x, y)
    cx.gty[b] = cx.T[c.dty]['to']
    return ref(b, ())


@m('Rect.at')
def rect_at(cx, st, c):
    return ('S', c.dty, (c.args[0], c.args[1]))


@m('RectPosition.of_size')
def rect_of_size(cx, st, c):
    r, w, h = c.args
    c.oblige(st, conj([ge(w - 1), ge(h - 1)]), 'rect', 'rectangle has a positive size')
    return ('S', c.dty, (r[2][0], r[2][1], w, h))


@m('drawing.draw_filled_rect_mut')
def draw_filled(cx, st, c):
    v = img(cx, st, c.args[0])
    cx.emit(st, 'rect', v[3], c.args[1], c.args[2])
    return UNIT(c)


@m('drawing.draw_text_mut')
def draw_text(cx, st, c):
    v = img(cx, st, c.args[0])
    cx.emit(st, 'text', v[3], c.args[2], c.args[3], c.args[6], c.args[1])
    return UNIT(c)


@m('FontRef.try_from_slice')
def font(cx, st, c):
    # the font file is part of the crate: its validity is a constant of the build
    if c.args[0][0] == 'R' and c.args[0][1][0] == 'C' or c.args[0][0] == 'O':
        return ('E', c.dty, 0, (('O', ('font',)),))
    return NotImplemented


@m('ImageBuffer.write_to')
def write_to(cx, st, c):
    v = img(cx, st, c.args[0])
    w = c.args[1]
    ok = ('SE', cx.fresh(st, 'write_to'), c.dty)
    # the bytes behind the writer change
    cur = deref(cx, st, w)
    before = after = pos = None
    if cur[0] == 'S':
        tgt, pos = cur[2][0], cur[2][1]
        if tgt[0] == 'R':
            before = cx.read(st, tgt[1], tgt[2])
            if before[0] == 'Q':
                after = fresh_q(cx, st, 'png', before[5])
                cx.write(st, tgt[1], tgt[2], after)
        elif tgt[0] == 'Q' and w[0] == 'R':
            before, after = tgt, fresh_q(cx, st, 'png', tgt[5])
            cx.write(st, w[1], w[2], ('S', cur[1], (after,) + tuple(cur[2][1:])))
    if after is None:
        for a in c.args[1:2]:
            cx.havoc_reach(st, a, 'png')
    cx.emit(st, 'write_to', v[3], w, c.args[2], ok, before, after, pos)
    return ok


@m('Cursor.into_inner')
def cursor_inner(cx, st, c):
    v = c.args[0]
    return v[2][0] if v[0] == 'S' else NotImplemented


@m('Cursor.get_ref', 'Cursor.get_mut')
def cursor_get(cx, st, c):
    w = c.args[0]
    v = deref(cx, st, w)
    if v[0] != 'S':
        return NotImplemented
    while cx.read(st, w[1], w[2])[0] == 'R':
        w = cx.read(st, w[1], w[2])
    return ref(w[1], w[2] + (0,))


@m('Cursor.new')
def cursor(cx, st, c):
    return ('S', c.dty, (c.args[0], const(0)))


# ------------------------------------------------------------------------------------------------ randomness
@m('rand.thread_rng', 'rand.rng')
def thread_rng(cx, st, c):
    return ('O', ('rng',))


@m('IteratorRandom.choose')
def it_choose(cx, st, c):
    it = it_of(cx, st, c.args[0])
    n = iter_len(cx, st, it)
    if n is None:
        return NotImplemented
    if st.decide(eq(n)):
        return none(c.dty)
    # an arbitrary element
    if it[0] == 'S' or it[1] == 'rangeinc':
        lo = it[2][0]
        k = declare(cx.fresh(st, 'rnd'), 0, U64)
        st.assume(conj([ge(k - lo), ge(lo + n - 1 - k)]))
        cx.emit(st, 'rnd', k, lo, lo + n)
        return some(k, c.dty)
    if it[0] == 'I' and it[1] in ('seq', 'vals'):
        k = declare(cx.fresh(st, 'rnd'), 0, U64)
        st.assume(conj([ge(k - it[2][1]), ge(it[2][2] - 1 - k)]))
        cx.emit(st, 'rnd', k, it[2][1], it[2][2])
        r = it[2][0]
        return some(elem(r[1], r[2], k) if it[1] == 'seq' else cx.seq_read(st, r, k), c.dty)
    return NotImplemented


@m('SliceRandom.choose', 'IndexedRandom.choose')
def sl_choose(cx, st, c):
    base, path, lo, hi, q = seqof(cx, st, c.args[0])
    if st.decide(ge(lo - hi)):
        return none(c.dty)
    k = declare(cx.fresh(st, 'rnd'), 0, U64)
    st.assume(conj([ge(k - lo), ge(hi - 1 - k)]))
    cx.emit(st, 'rnd', k, lo, hi)
    return some(elem(base, path, k), c.dty)


@m('SliceRandom.shuffle')
def sl_shuffle(cx, st, c):
    return sort(cx, st, c)


@m('Rng.gen_range', 'Rng.random_range')
def gen_range(cx, st, c):
    b = range_bounds(cx, st, c.args[1], None)
    if b is None or b[1] is None:
        return NotImplemented
    c.oblige(st, ge(b[1] - b[0] - 1), 'range', 'gen_range of a non-empty range')
    k = declare(cx.fresh(st, 'rnd'), 0, U64)
    st.assume(conj([ge(k - b[0]), ge(b[1] - 1 - k)]))
    cx.emit(st, 'rnd', k, b[0], b[1])
    return k


@m('intrinsics.cold_path', 'hint.cold_path')
def cold(cx, st, c):
    return UNIT(c)


# ------------------------------------------------------------------------------------------------ raw pointers (addresses are integers)
@m('ptr.null_mut', 'ptr.null')
def null_ptr(cx, st, c):
    return const(0) if 'heap' in cx.opts else NotImplemented


@m('ptr.is_null')
def ptr_is_null(cx, st, c):
    return eq(c.args[0]) if isinstance(c.args[0], Poly) else NotImplemented


@m('ptr.cast', 'ptr.cast_mut', 'ptr.cast_const')
def ptr_cast(cx, st, c):
    return c.args[0] if isinstance(c.args[0], Poly) and 'heap' in cx.opts else NotImplemented


@m('ptr.eq', 'ptr.addr_eq')
def ptr_eq(cx, st, c):
    a, b = c.args
    return eq(a - b) if isinstance(a, Poly) and isinstance(b, Poly) and 'heap' in cx.opts else NotImplemented


@m('ptr.read', 'ptr.replace')
def ptr_read(cx, st, c):
    p = c.args[0]
    if not isinstance(p, Poly) or 'heap' not in cx.opts:
        return NotImplemented
    cx.heap_use(st, p, c.fr)
    v = cx.read(st, ('H',), (('i', p),))
    if c.fdef.endswith('replace'):
        cx.write(st, ('H',), (('i', p),), c.args[1])
        cx.emit(st, 'store', ('H',), (), p, (), c.args[1], None)
    return v


@m('ptr.write')
def ptr_write(cx, st, c):
    p = c.args[0]
    if not isinstance(p, Poly) or 'heap' not in cx.opts:
        return NotImplemented
    q = cx.read(st, ('H',), ())
    cx.heap_use(st, p, c.fr)
    cx.write(st, ('H',), (('i', p),), c.args[1])
    cx.emit(st, 'store', ('H',), (), p, (), c.args[1], q)
    return UNIT(c)


@m('alloc.alloc', 'alloc.alloc_zeroed')
def do_alloc(cx, st, c):
    if 'heap' not in cx.opts:
        return NotImplemented
    p = declare(cx.fresh(st, 'new'), 0, U64)
    cx.allocs.add(p.single())
    cx.emit(st, 'alloc', p)
    return p


@m('alloc.dealloc')
def do_dealloc(cx, st, c):
    if 'heap' not in cx.opts or not isinstance(c.args[0], Poly):
        return NotImplemented
    cx.emit(st, 'free', c.args[0])
    return UNIT(c)


@m('alloc.handle_alloc_error')
def do_alloc_error(cx, st, c):
    cx.emit(st, 'alloc error')
    raise Dead()
