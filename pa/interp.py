"""Abstract interpreter for the dumped MIR.

Values
  Poly                      integer, char
  formula tuple             bool
  ('S', ty, fields)         struct, tuple, closure        ('E', ty, variant, fields)   enum, known variant
  ('SE', name, ty)          enum, unknown variant         ('B', v)                     Box
  ('R', base, path, off, len)  reference (slices carry off, len)
  ('Q', off, end, base, writes, ety)  Vec / VecDeque / array contents; element i lives at off+i
  ('I', kind, fields)       iterator                      ('IMG', w, h, name)          image
  ('STR', term)             str / String                  ('FN', key, ty)              function item
  ('O', term)               anything else
Path elements: int (field), ('v', variant, field), ('i', Poly), 'box'."""
import time
from . import lin
from .lin import Poly, const, sym, declare, ge, eq, ne, neg, conj, disj, imp, T, F, Facts, fsubst, fsyms

FORMULA = {'T', 'F', 'ge', 'eq', 'ne', 'b', 'nb', 'and', 'or'}
MAXLEN = 1 << 31
U64 = (1 << 64) - 1


def is_bool(v):
    return isinstance(v, tuple) and v[0] in FORMULA


class Fork(Exception):
    def __init__(self, f):
        self.f = f


class Dead(Exception):
    """the current path cannot happen"""


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'trace', 'cnt')

    def __init__(self, mem=None, facts=None, trace=(), cnt=0):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.trace = trace
        self.cnt = cnt

    def copy(self):
        return St(dict(self.mem), self.facts, self.trace, self.cnt)

    def event(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def assume(self, f):
        self.facts = self.facts.add(f)

    def decide(self, f):
        if f == T:
            return True
        if f == F:
            return False
        if self.facts.proves(f):
            return True
        if self.facts.proves(neg(f)):
            return False
        raise Fork(f)

    def known(self, f):
        """True / False / None"""
        if f == T or self.facts.proves(f):
            return True
        if f == F or self.facts.proves(neg(f)):
            return False
        return None


class LoopRec:
    __slots__ = ('fn', 'header', 'head', 'entry', 'backs', 'leaves', 'cands', 'depth', 'exits')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Frame:
    __slots__ = ('fn', 'd')

    def __init__(self, fn, d):
        self.fn, self.d = fn, d


def root_trace(tag):
    return ((), ('mark', tag))


class Interp:
    CAP = 24

    def __init__(self, prog, hooks=None, opts=None):
        self.prog = prog
        self.T = prog.T
        if not hasattr(prog, 'statics'):
            prog.statics = {}
        self.hooks = hooks or {}
        self.opts = opts or {}
        self.obl = [{}]
        self.stack = []
        self.memo = {}
        self.live = {}
        self.gty = {}
        self.arrs = {}
        self.failed = []         # states outside loops in which an obligation was not shown
        self.load_type = {}      # content -> type of its cells
        self.loads = {}          # name of a cell read -> (content, index or address)
        self.nulls = {}          # function -> address that is null where it is used
        self.allocs = set()      # addresses handed out by the allocator
        self.unchecked = set()   # functions that use one of them without having compared it with null
        self.derived = set()
        self.cap = self.opts.get('cap', self.CAP)
        self.lossy = 0      # joins that forgot what tells the paths apart
        self.used = set()
        self.havoced = set()
        self.analysed = set()
        self.loops_done = 0
        self.templates = []      # extra invariant candidates: fn(interp, loop ctx) -> formulas
        self.elem_templates = {}  # element type string -> [(leaf path, fn)]
        self.deadline = time.time() + self.opts.get('time', 700)
        from . import models
        self.models = models

    # ---------------------------------------------------------------- statics, fresh values
    def static(self, key, v):
        b = ('C', key)
        self.prog.statics[b] = v
        return b

    def fresh(self, st, hint):
        st.cnt += 1
        return '%s~%d' % (hint, st.cnt)

    def int_sym(self, t, name):
        r = self.prog.int_range(t) if t is not None else None
        if r is None:
            return declare(name, None, None)
        return declare(name, r[0], r[1])

    def len_sym(self, name):
        return declare(name, 0, self.opts.get('maxlen', MAXLEN) - 1)

    def inhabited(self, t, depth=0):
        x = self.T[t]
        if x['k'] == 'never':
            return False
        if depth > 3:
            return True
        if x['k'] == 'tuple':
            return all(self.inhabited(e, depth + 1) for e in x['elems'])
        if x['k'] == 'adt' and not x['union']:
            return any(all(self.inhabited(f[1], depth + 1) for f in v['fields']) for v in x['variants'])
        return True

    def of_type(self, t, name, st=None, depth=0):
        """the unknown value called `name` of type t (content addressed)"""
        x = self.T[t]
        k = x['k']
        if k == 'int' or k == 'char':
            return self.int_sym(t, name)
        if k == 'bool':
            return ('b', name)
        if k == 'tuple':
            return ('S', t, tuple(self.of_type(e, '%s.%d' % (name, i), st, depth) for i, e in enumerate(x['elems'])))
        if k == 'str':
            return ('STR', ('s', name))
        if k == 'array' and x['n'] is not None:
            return ('Q', const(0), const(x['n']), ('gen', name, x['of'], (), None), (), x['of'])
        if k == 'slice':
            return ('Q', const(0), self.len_sym(name + '.len'), ('gen', name, x['of'], (), None), (), x['of'])
        if k == 'ref':
            to = self.T[x['to']]
            if to['k'] == 'str':
                return ('STR', ('s', name))
            b = ('G', name)
            self.gty[b] = x['to']
            if to['k'] == 'slice':
                return ('R', b, (), const(0), self.len_sym(name + '.len'))
            return ('R', b, (), None, None)
        if k == 'closure':
            u = x.get('upvars')
            return ('S', t, tuple(self.of_type(e, '%s.%d' % (name, i), st, depth) for i, e in enumerate(self.T[u]['elems']))) if u else ('O', ('v', name))
        if k == 'fndef':
            return ('FN', x.get('inst'), t)
        if k == 'ptr' and x['to'] == self.opts.get('heap'):
            return declare(name, 1 if name.rsplit('.', 1)[-1] in self.opts.get('links', ()) else 0, U64)
        if k == 'adt' and not x['union']:
            d = x['def']
            if d in ('std::vec::Vec', 'std::collections::VecDeque'):
                e = x['args'][0]
                return ('Q', const(0), self.len_sym(name + '.len'), ('gen', name, e, (), None), (), e)
            if d == 'std::string::String':
                return ('STR', ('s', name))
            if d == 'std::boxed::Box':
                if self.T[x['args'][0]]['k'] == 'str':
                    return ('STR', ('s', name))
                if self.T[x['args'][0]]['k'] == 'dyn':
                    return ('O', ('v', name))
                return ('B', self.of_type(x['args'][0], name + '.*', st, depth + 1))
            if d == 'image::ImageBuffer':
                return ('IMG', declare(name + '.w', 0, (1 << 32) - 1), declare(name + '.h', 0, (1 << 32) - 1), name)
            if x['enum']:
                vs = [i for i, v in enumerate(x['variants']) if all(self.inhabited(f[1]) for f in v['fields'])]
                if len(vs) == 1:
                    return ('E', t, vs[0], tuple(self.of_type(f[1], '%s.%d' % (name, i), st, depth + 1)
                                                 for i, f in enumerate(x['variants'][vs[0]]['fields'])))
                return ('SE', name, t)
            if depth < 6 and (x.get('local') or d.startswith('std::') or d.startswith('image::color') or d.startswith('imageproc::rect')):
                return ('S', t, tuple(self.of_type(f[1], '%s.%s' % (name, f[0]), st, depth + 1) for f in x['variants'][0]['fields']))
        return ('O', ('v', name, t))

    def havoc(self, st, t, hint):
        return self.of_type(t, self.fresh(st, hint), st)

    def typed(self, v, t):
        """gives an opaque value the structure of its type"""
        if isinstance(v, tuple) and v[0] == 'O' and t is not None:
            k = self.T[t]['k']
            if k in ('int', 'char', 'bool', 'tuple') or (k == 'adt' and not self.T[t]['union']) or k == 'ptr' and self.T[t]['to'] == self.opts.get('heap'):
                return self.of_type(t, 'o' + repr(v[1]))
        return v

    def discr_sym(self, name, t):
        n = len(self.T[t]['variants'])
        return declare(name + '.#', 0, n - 1)

    # ---------------------------------------------------------------- memory
    def base_value(self, st, base):
        v = st.mem.get(base)
        if v is None:
            if base[0] == 'C':
                return self.prog.statics[base]
            t = self.gty.get(base)
            if t is None:
                raise Unsupported('read of unset %r' % (base,))
            if base[0] == 'GS':
                v = ('Q', const(0), declare(base[1] + '.n', 0, MAXLEN - 1), ('gen', base[1] + '*', t, (), None), (), t)
            else:
                v = self.of_type(t, base[1], st)
        return v

    def read(self, st, base, path, ty=None):
        v = self.walk(st, self.base_value(st, base), path)
        return self.typed(v, ty) if ty is not None else v

    def walk(self, st, v, path):
        for n, e in enumerate(path):
            k = v[0] if isinstance(v, tuple) else None
            if k == 'S' or k == 'I':
                v = v[2][e] if isinstance(e, int) and e < len(v[2]) else ('O', ('proj', v, e))
            elif k == 'E':
                if isinstance(e, tuple) and e[0] == 'v':
                    if e[1] != v[2]:
                        raise Dead()
                    v = v[3][e[2]]
                else:
                    v = v[3][e]
            elif k == 'SE':
                if not (isinstance(e, tuple) and e[0] == 'v'):
                    raise Unsupported('field of an enum without downcast')
                f = self.T[v[2]]['variants'][e[1]]['fields'][e[2]]
                v = self.of_type(f[1], '%s.%s.%d' % (v[1], self.T[v[2]]['variants'][e[1]]['name'], e[2]), st)
            elif k == 'B':
                if e != 'box':
                    return ('O', ('proj', v, e))
                v = v[1]
            elif k == 'Q':
                if not (isinstance(e, tuple) and e[0] == 'i'):
                    return ('O', ('proj', v[3][:2], e))
                return self.seq_read(st, v, e[1], path[n + 1:])
            elif k == 'O':
                v = ('O', ('proj', v[1], e))
            elif k == 'R' and e == 0:
                pass          # the pointer inside a Box, Unique or NonNull
            else:
                v = ('O', ('proj', v, e))
        return v

    def elem_base(self, st, q, p):
        b = q[3]
        if b[0] == 'fill':
            return b[1]
        if b[0] == 'arr':
            c = p.const
            n = len(b[1])
            if c is not None:
                if 0 <= c < n:
                    return b[1][c]
                raise Dead()
            if n and all(x == b[1][0] for x in b[1]):
                return b[1][0]
            if 0 < n <= 6:
                for i in range(n - 1):
                    if st.decide(eq(p - i)):
                        return b[1][i]
                return b[1][n - 1]
            if n and all(isinstance(x, Poly) and x.const is not None for x in b[1]):
                nm = 'arr%d[%r]' % (self.arrs.setdefault(b[1], len(self.arrs)), p)
                return declare(nm, min(x.const for x in b[1]), max(x.const for x in b[1]))
            return self.typed(('O', ('arr%d' % self.arrs.setdefault(b[1], len(self.arrs)), repr(p))), q[5])
        if b[0] == 'aff':
            return ('R', b[1], b[2] + (('i', b[3] + b[4] * p),), None, None)
        if b[0] == 'ext':
            if st.decide(ge(b[1][2] - p - 1)):
                return self.seq_read(st, b[1], p)
            return b[2]
        if b[0] == 'gen':
            name, ety, invs, tmpl = b[1], b[2], b[3], b[4]
            if tmpl is not None:
                ix = declare('%s[%r].i' % (name, p), 0, MAXLEN)
                v = ('R', tmpl[0], tmpl[1] + (('i', ix),) + tmpl[2], None, None)
            elif self.T[ety]['k'] == 'ref' and self.T[self.T[ety]['to']]['k'] != 'str':
                gb = ('GS', name)
                self.gty[gb] = self.T[ety]['to']
                to = self.T[self.T[ety]['to']]
                if to['k'] == 'slice':
                    v = ('R', gb, (('i', p),), const(0), self.len_sym('%s*[%r].len' % (name, p)))
                else:
                    v = ('R', gb, (('i', p),), None, None)
            else:
                if self.opts.get('loads'):
                    self.loads['%s[%r]' % (name, p)] = (name, p)
                    self.load_type[name] = ety
                if ety == self.opts.get('heap'):
                    # the links of a node are addresses of nodes
                    self.loads['%s[%r]' % (name, p)] = (name, p)
                    for f in self.opts.get('links', ()):
                        declare('%s[%r].%s' % (name, p, f), 1, U64)
                v = self.of_type(ety, '%s[%r]' % (name, p), st)
            if invs:
                f0 = st.facts
                for inv in invs:
                    v = inv.refine(self, st, v, p)
                f1 = st.facts
                for k in ('ge', 'eq', 'ne'):
                    self.derived.update((k, x) for x in getattr(f1, k)[len(getattr(f0, k)):])
                self.derived.update(f1.ors[len(f0.ors):])
            return v
        raise Unsupported('sequence base ' + b[0])

    def seq_read(self, st, q, p, rest=()):
        pend = []
        for idx, wp, val in reversed(q[4]):
            m = min(len(wp), len(rest))
            if wp[:m] != rest[:m] and not any(isinstance(a, tuple) and a[0] == 'i' for a in wp[:m] + rest[:m]):
                continue
            d = idx - p
            c = d.const
            if c is not None:
                same = c == 0
            else:
                same = st.decide(eq(d))
            if not same:
                continue
            if len(wp) <= len(rest) and wp == rest[:len(wp)]:
                v = self.walk(st, val, rest[len(wp):])
                break
            pend.append((wp, val))
        else:
            v = None
        if v is None or pend:
            if pend:
                # partial overwrites: rebuild the element
                e = self.elem_base(st, q, p) if v is None else None
                if e is None:
                    raise Unsupported('overlapping partial writes')
                for wp, val in reversed(pend):
                    e = self.update(st, e, wp, val)
                return self.walk(st, e, rest)
            v = self.walk(st, self.elem_base(st, q, p), rest)
        return v

    def update(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = v[0] if isinstance(v, tuple) else None
        if k == 'S' or k == 'I':
            fs = list(v[2])
            fs[e] = self.update(st, fs[e], rest, new)
            return (k, v[1], tuple(fs))
        if k == 'SE' and isinstance(e, tuple) and e[0] == 'v':
            fs = self.T[v[2]]['variants'][e[1]]['fields']
            nm = self.T[v[2]]['variants'][e[1]]['name']
            v = ('E', v[2], e[1], tuple(self.of_type(f[1], '%s.%s.%d' % (v[1], nm, i), st) for i, f in enumerate(fs)))
            k = 'E'
        if k == 'E':
            if isinstance(e, tuple):
                if e[1] != v[2]:
                    raise Dead()
                e = e[2]
            fs = list(v[3])
            fs[e] = self.update(st, fs[e], rest, new)
            return ('E', v[1], v[2], tuple(fs))
        if k == 'B':
            return ('B', self.update(st, v[1], rest, new))
        if k == 'Q':
            p = e[1]
            if any(isinstance(a, tuple) and a[0] == 'i' for a in rest):
                # a write inside a nested sequence: rewrite the whole inner value
                j = next(i for i, a in enumerate(rest) if isinstance(a, tuple) and a[0] == 'i')
                inner = self.seq_read(st, v, p, rest[:j])
                return self.update(st, v, (e,) + rest[:j], self.update(st, inner, rest[j:], new))
            ws = tuple(w for w in v[4] if not (w[0] == p and w[1][:len(rest)] == rest))
            return ('Q', v[1], v[2], v[3], ws + ((p, rest, new),), v[5])
        if v == ('O', ('uninit',)):
            return new
        return ('O', ('upd', self.fresh(st, 'u')))

    def write(self, st, base, path, v):
        if base[0] == 'C':
            raise Unsupported('write to a constant')
        if not path:
            st.mem[base] = v
        else:
            st.mem[base] = self.update(st, self.base_value(st, base), path, v)

    # ---------------------------------------------------------------- places and operands
    def place_ty(self, fn, pl):
        t = fn.locals[pl['local']]
        for e in pl['projection']:
            x = self.T[t]
            if e == 'Deref':
                t = x['to'] if 'to' in x else x['args'][0]
            elif isinstance(e, dict) and 'Field' in e:
                t = e['Field'][1]
            elif isinstance(e, dict) and ('Index' in e or 'ConstantIndex' in e):
                t = x['of']
        return t

    def heap_use(self, st, p, fr):
        self.emit(st, 'deref', p)
        if p.single() in self.allocs and st.known(ne(p)) is not True:
            self.unchecked.add(self.site(fr))
        if p.const == 0 or st.known(ne(p)) is False:
            self.nulls.setdefault(self.site(fr), repr(p))
            raise Dead()
        st.assume(ne(p))        # what is dereferenced is an address: anything else is ruled out by the caller's contract
        if st.facts.dead:
            raise Dead()

    def resolve(self, st, fr, pl):
        """place -> (base, path, off, len); off/len for a dereferenced slice"""
        base, path, off, ln = ('L', fr.d, pl['local']), (), None, None
        var = None
        t = fr.fn.locals[pl['local']]
        for e in pl['projection']:
            x = self.T[t]
            if e == 'Deref':
                v = self.read(st, base, path)
                if isinstance(v, tuple) and v[0] == 'R':
                    base, path, off, ln = v[1], v[2], v[3], v[4]
                elif isinstance(v, tuple) and v[0] == 'B':
                    path = path + ('box',)
                elif isinstance(v, tuple) and v[0] == 'STR':
                    base, path = base, path
                elif isinstance(v, Poly) and x['k'] == 'ptr' and 'heap' in self.opts:
                    self.heap_use(st, v, fr)
                    base, path, off, ln = ('H',), (('i', v),), None, None
                else:
                    b = ('G', 'deref' + repr(v))
                    to = x['to'] if 'to' in x else x['args'][0]
                    self.gty.setdefault(b, to)
                    base, path, off, ln = b, (), None, None
                t = x['to'] if 'to' in x else x['args'][0]
            elif isinstance(e, dict) and 'Field' in e:
                if var is not None:
                    path = path + (('v', var, e['Field'][0]),)
                    var = None
                else:
                    path = path + (e['Field'][0],)
                t = e['Field'][1]
            elif isinstance(e, dict) and 'Downcast' in e:
                var = e['Downcast']
            elif isinstance(e, dict) and 'Index' in e:
                i = self.read(st, ('L', fr.d, e['Index']), ())
                path = path + (('i', (off + i) if off is not None else i),)
                off = ln = None
                t = x['of']
            elif isinstance(e, dict) and 'ConstantIndex' in e:
                c = e['ConstantIndex']
                if c['from_end']:
                    n = ln if ln is not None else self.seq_len(self.read(st, base, path))
                    i = n - c['offset']
                else:
                    i = const(c['offset'])
                path = path + (('i', (off + i) if off is not None else i),)
                off = ln = None
                t = x['of']
            elif isinstance(e, dict) and 'Subslice' in e:
                c = e['Subslice']
                n = ln if ln is not None else self.seq_len(self.read(st, base, path))
                o = off if off is not None else const(0)
                off = o + c['from']
                ln = (n - c['to'] if c['from_end'] else const(c['to'])) - c['from']
            else:
                pass
        return base, path, off, ln

    @staticmethod
    def seq_len(q):
        return q[2] - q[1]

    def read_place(self, st, fr, pl):
        base, path, off, ln = self.resolve(st, fr, pl)
        return self.read(st, base, path, self.place_ty(fr.fn, pl))

    def operand(self, st, fr, o):
        if 'Constant' in o:
            v = self.prog.constant(o['Constant'], self)
            if isinstance(v, tuple) and v[0] == 'O':
                return self.typed(v, o['Constant']['const_']['ty'])
            return v
        pl = o.get('Copy') or o.get('Move')
        return self.read_place(st, fr, pl)

    def op_ty(self, fr, o):
        if 'Constant' in o:
            return o['Constant']['const_']['ty']
        return self.place_ty(fr.fn, o.get('Copy') or o.get('Move'))

    # ---------------------------------------------------------------- rvalues
    def as_int(self, st, v):
        """bool or int value as a Poly"""
        if isinstance(v, Poly):
            return v
        if is_bool(v):
            return const(1) if st.decide(v) else const(0)
        raise Unsupported('integer expected, got %r' % (v,))

    def wrap(self, st, p, rng, hint):
        """p reduced to the range of its type"""
        lo, hi = rng
        c = p.const
        if c is not None:
            if lo <= c <= hi:
                return p
            m = hi - lo + 1
            return const((c - lo) % m + lo)
        if st.facts.proves(conj([ge(p - lo), ge(const(hi) - p)])):
            return p
        r = declare('wrap(%r;%d;%d)' % (p, lo, hi), lo, hi)
        st.assume(imp(conj([ge(p - lo), ge(const(hi) - p)]), eq(r - p)))
        return r

    def compare(self, st, op, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return {'Lt': lambda: ge(b - a - 1), 'Le': lambda: ge(b - a), 'Gt': lambda: ge(a - b - 1),
                    'Ge': lambda: ge(a - b), 'Eq': lambda: eq(a - b), 'Ne': lambda: ne(a - b)}[op]()
        if is_bool(a) and is_bool(b):
            same = disj([conj([a, b]), conj([neg(a), neg(b)])])
            if op == 'Eq':
                return same
            if op == 'Ne':
                return neg(same)
            if op == 'Lt':
                return conj([neg(a), b])
            if op == 'Gt':
                return conj([a, neg(b)])
            if op == 'Le':
                return disj([neg(a), b])
            return disj([a, neg(b)])
        if op in ('Eq', 'Ne'):
            if a == b and not (isinstance(a, tuple) and a[0] == 'O' and 'nan' in repr(a)):
                return T if op == 'Eq' else F
            k = tuple(sorted([repr(a), repr(b)]))
            f = ('b', 'eq(%s,%s)' % k)
            return f if op == 'Eq' else neg(f)
        return ('b', '%s(%r,%r)' % (op, a, b))

    def binop(self, st, fr, op, a, b, ta):
        rng = self.prog.int_range(ta)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return self.compare(st, op, a, b)
        if is_bool(a) and is_bool(b):
            if op == 'BitAnd':
                return conj([a, b])
            if op == 'BitOr':
                return disj([a, b])
            if op == 'BitXor':
                return disj([conj([a, neg(b)]), conj([neg(a), b])])
        if op == 'Cmp':
            t = self.prog.bystr.get('std::cmp::Ordering')
            if t is None or not (isinstance(a, Poly) and isinstance(b, Poly)):
                raise Unsupported('Cmp')
            if st.decide(ge(b - a - 1)):
                return ('E', t, 0, ())
            return ('E', t, 1, ()) if st.decide(eq(a - b)) else ('E', t, 2, ())
        if op == 'Offset' or not (isinstance(a, Poly) and isinstance(b, Poly)) or rng is None:
            return ('O', (op, a, b))
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(st, a + b, rng, 'add')
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(st, a - b, rng, 'sub')
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(st, a * b, rng, 'mul')
        if op in ('Div', 'Rem'):
            if rng[0] < 0 and not st.facts.proves(conj([ge(a), ge(b - 1)])):
                return declare('%s(%r,%r)' % (op, a, b), rng[0], rng[1])
            st.assume(ge(b - 1))      # a zero divisor panics before
            q, r = lin.divmod_syms(a, b)
            return q if op == 'Div' else r
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            cb, ca = b.const, a.const
            if ca is not None and cb is not None:
                v = {'BitAnd': lambda: ca & cb, 'BitOr': lambda: ca | cb, 'BitXor': lambda: ca ^ cb,
                     'Shl': lambda: ca << cb, 'Shr': lambda: ca >> cb, 'ShlUnchecked': lambda: ca << cb, 'ShrUnchecked': lambda: ca >> cb}[op]()
                return self.wrap(st, const(v), rng, 'b')
            if rng[0] >= 0 and cb is not None:
                if op == 'BitAnd' and (cb & (cb + 1)) == 0:
                    return lin.divmod_syms(a, const(cb + 1))[1]
                if op.startswith('Shl') and cb < 64:
                    return self.wrap(st, a * (1 << cb), rng, 'shl')
                if op.startswith('Shr') and cb < 64:
                    return lin.divmod_syms(a, const(1 << cb))[0]
            v = declare('%s(%r,%r)' % (op, a, b), rng[0], rng[1])
            if rng[0] >= 0:
                if op == 'BitAnd':
                    st.assume(conj([ge(a - v), ge(b - v)]))
                if op == 'BitOr':
                    st.assume(conj([ge(v - a), ge(v - b), ge(a + b - v)]))
                if op.startswith('Shr'):
                    st.assume(ge(a - v))
            return v
        raise Unsupported('binary operation ' + op)

    def rvalue(self, st, fr, rv, dty):
        fn = fr.fn
        if 'Use' in rv:
            return self.operand(st, fr, rv['Use'][0] if isinstance(rv['Use'], list) else rv['Use'])
        if 'Ref' in rv or 'AddressOf' in rv:
            pl = rv['Ref'][2] if 'Ref' in rv else rv['AddressOf'][1]
            base, path, off, ln = self.resolve(st, fr, pl)
            t = self.place_ty(fn, pl)
            if self.T[t]['k'] == 'str':
                v = self.read(st, base, path)
                return v
            if self.T[t]['k'] == 'slice' and ln is None:
                q = self.read(st, base, path)
                if q[0] == 'Q':
                    return ('R', base, path, q[1], q[2] - q[1])
            return ('R', base, path, off, ln)
        if 'CheckedBinaryOp' in rv:
            op, x, y = rv['CheckedBinaryOp']
            a, b = self.operand(st, fr, x), self.operand(st, fr, y)
            lo, hi = self.prog.int_range(self.op_ty(fr, x))
            if not (isinstance(a, Poly) and isinstance(b, Poly)):
                a, b = self.as_int(st, a), self.as_int(st, b)
            p = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]()
            over = disj([ge(const(lo - 1) - p), ge(p - hi - 1)])
            return ('S', dty, (p, over))
        if 'BinaryOp' in rv:
            op, x, y = rv['BinaryOp']
            a, b = self.operand(st, fr, x), self.operand(st, fr, y)
            return self.binop(st, fr, op, a, b, self.op_ty(fr, x))
        if 'UnaryOp' in rv:
            op, x = rv['UnaryOp']
            if op == 'PtrMetadata':
                v = self.operand(st, fr, x)
                if v[0] == 'R' and v[4] is not None:
                    return v[4]
                if v[0] == 'R':
                    q = self.read(st, v[1], v[2])
                    if isinstance(q, tuple) and q[0] == 'Q':
                        return q[2] - q[1]
                if v[0] == 'STR':
                    return self.models.str_len(self, v)
                return declare('meta(%r)' % (v,), 0, MAXLEN)
            v = self.operand(st, fr, x)
            if op == 'Not':
                if is_bool(v):
                    return neg(v)
                rng = self.prog.int_range(self.op_ty(fr, x))
                return const(rng[1]) - v if rng[0] == 0 else const(-1) - v
            if op == 'Neg':
                if isinstance(v, Poly):
                    return self.wrap(st, -v, self.prog.int_range(self.op_ty(fr, x)), 'neg')
                return ('O', ('neg', v))
            raise Unsupported('unary ' + op)
        if 'Discriminant' in rv:
            v = self.read_place(st, fr, rv['Discriminant'])
            return self.discriminant(v, dty)
        if 'Len' in rv:
            base, path, off, ln = self.resolve(st, fr, rv['Len'])
            if ln is not None:
                return ln
            return self.seq_len(self.read(st, base, path))
        if 'Cast' in rv:
            kind, x, t = rv['Cast']
            v = self.operand(st, fr, x)
            return self.cast(st, fr, kind, v, self.op_ty(fr, x), t)
        if 'Aggregate' in rv:
            kind, ops = rv['Aggregate']
            vs = tuple(self.operand(st, fr, o) for o in ops)
            if kind == 'Tuple':
                return ('S', dty, vs)
            if 'Adt' in kind:
                var = kind['Adt'][1]
                x = self.T[dty]
                if x['union']:
                    return vs[0]
                if x['enum']:
                    return ('E', dty, var, vs)
                return ('S', dty, vs)
            if 'Closure' in kind:
                return ('S', dty, vs)
            if 'Array' in kind:
                return ('Q', const(0), const(len(vs)), ('arr', vs), (), self.T[dty]['of'])
            if 'RawPtr' in kind:
                a, b = vs
                if a[0] == 'R' and isinstance(b, Poly):
                    return ('R', a[1], a[2], a[3] if a[3] is not None else const(0), b)
                return a
            raise Unsupported('aggregate %r' % (kind,))
        if 'Repeat' in rv:
            v = self.operand(st, fr, rv['Repeat'][0])
            n = self.T[dty]['n']
            return ('Q', const(0), const(n), ('fill', v), (), self.T[dty]['of'])
        if 'CopyForDeref' in rv:
            return self.read_place(st, fr, rv['CopyForDeref'])
        if 'ThreadLocalRef' in rv:
            return ('O', ('tls', self.fresh(st, 'tls')))
        raise Unsupported('rvalue %r' % (list(rv) if isinstance(rv, dict) else rv,))

    def discriminant(self, v, ty=None):
        """the discriminant of an enum value, read as an integer of type ty"""
        x = self.T[ty] if ty is not None else {}
        w = x.get('bits', 64)

        def value(d):
            d = int(d) % (1 << w)
            if d >= 1 << (w - 1) and x.get('signed', True):
                if ty is None:
                    raise Unsupported('cast of a negative discriminant')
                d -= 1 << w
            return d
        if v[0] == 'E':
            if v[1] is None:
                return const(v[2])
            return const(value(self.T[v[1]]['variants'][v[2]]['discr']))
        if v[0] == 'SE':
            ds = [value(x['discr']) for x in self.T[v[2]]['variants']]
            if any(d != ds[0] + i for i, d in enumerate(ds)):
                raise Unsupported('discriminants that are not consecutive')
            return self.discr_sym(v[1], v[2]) + ds[0]
        if v[0] == 'O':
            return declare('discr(%r)' % (v,), 0, None)
        raise Unsupported('discriminant of %r' % (v[0],))

    def variant_is(self, v, i):
        """formula: the enum value v is variant i"""
        if v[0] == 'E':
            return T if v[2] == i else F
        if v[0] == 'SE':
            return eq(self.discr_sym(v[1], v[2]) - i)
        raise Unsupported('variant of %r' % (v,))

    def cast(self, st, fr, kind, v, ft, t):
        ks = kind if isinstance(kind, str) else str(kind)
        rng = self.prog.int_range(t)
        if 'IntToInt' in ks:
            if is_bool(v):
                return const(1) if st.decide(v) else const(0)
            if isinstance(v, Poly):
                return self.wrap(st, v, rng, 'cast')
            if v[0] in ('E', 'SE'):
                return self.discriminant(v)
            return declare('cast(%r)' % (v,), rng[0], rng[1])
        if 'FloatToInt' in ks:
            return declare('f2i(%r,%d)' % (v, t), rng[0], rng[1])
        if 'IntToFloat' in ks or 'FloatToFloat' in ks:
            return ('O', ('f', v))
        if 'Unsize' in ks:
            x = self.T[t]
            to = self.T[x['to']] if 'to' in x else None
            if to and to['k'] == 'slice' and v[0] == 'R':
                q = self.read(st, v[1], v[2])
                if isinstance(q, tuple) and q[0] == 'Q':
                    return ('R', v[1], v[2], q[1], q[2] - q[1])
            return v
        if 'Transmute' in ks:
            if isinstance(v, Poly) and rng and self.prog.int_range(ft) == rng:
                return v
            a, b = self.T[ft], self.T[t]
            if isinstance(v, tuple) and v[0] == 'R' and b['k'] in ('ref', 'ptr', 'adt'):
                return v
            if isinstance(v, tuple) and v[0] == 'STR':
                return v
            if isinstance(v, Poly) and rng:
                return self.wrap(st, v, rng, 'tr')
            return self.typed(('O', ('transmute', v, t)), t)
        return v

    def emit(self, st, kind, *a):
        if kind in self.opts.get('events', ()):
            st.event(kind, *a)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, f, kind, fr, sp, text):
        """f must hold here; returns False when it cannot"""
        ok = st.known(f)
        if ok is not True and self.by_cases(st, f):
            ok = True
            st.assume(f)
        site = self.site(fr)
        key = (kind, site, sp)
        cur = self.obl[-1].get(key)
        if ok is True:
            if cur is None:
                self.obl[-1][key] = (True, text)
        else:
            self.obl[-1][key] = (False, text + ' (%s): cannot show %s' % (sp.split('/')[-1], fmt(f)))
            if len(self.obl) == 1:
                self.failed.append(st.copy())
            st.assume(f)
            if st.facts.dead or st.known(f) is not True and st.facts.infeasible():
                raise Dead()
        return ok is True

    def by_cases(self, st, f):
        """f holds in each of the cases a check splits the state into (from facts it shows elsewhere)"""
        split = self.opts.get('split')
        if split is None:
            return False
        cs = split(self, st, f)
        return cs is not None and all(c.known(f) is True or c.facts.infeasible() for c in cs)

    def panic(self, st, fr, sp, text):
        """reached a panic: the path must be infeasible"""
        if st.facts.infeasible() or self.by_cases(st, F):
            return
        if len(self.obl) == 1:
            self.failed.append(st.copy())
        self.obl[-1][('panic', self.site(fr), sp)] = (False, '%s (%s) is reachable: %s' % (text, sp.split('/')[-1], self.path_text(st)))

    def path_text(self, st):
        its = st.facts.items()
        return ' & '.join(fmt(f) for f in its[-6:])

    def site(self, fr):
        for f in reversed(self.stack):
            if f.local:
                return f.short()
        return fr.fn.short()

    # ---------------------------------------------------------------- running functions
    def liveness(self, fn):
        """locals whose address is never taken and which are dead at a block's entry"""
        r = self.live.get(fn.key)
        if r is not None:
            return r
        taken = set()
        n = len(fn.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def plread(b, pl):
            if pl['local'] not in dfn[b]:
                use[b].add(pl['local'])
            for e in pl['projection']:
                if isinstance(e, dict) and 'Index' in e and e['Index'] not in dfn[b]:
                    use[b].add(e['Index'])

        def opread(b, o):
            if isinstance(o, dict):
                pl = o.get('Copy') or o.get('Move')
                if pl:
                    plread(b, pl)

        def scan(b, x):
            if isinstance(x, dict):
                if 'Copy' in x or 'Move' in x:
                    opread(b, x)
                    return
                if 'local' in x and 'projection' in x:
                    plread(b, x)
                    return
                if 'Constant' in x:
                    return
                for k, v in x.items():
                    if k != 'sp':
                        scan(b, v)
            elif isinstance(x, list):
                for y in x:
                    scan(b, y)

        def plwrite(b, pl):
            if not pl['projection']:
                dfn[b].add(pl['local'])
            else:
                plread(b, pl)
        for b, blk in enumerate(fn.blocks):
            for s in blk['st']:
                if 'Assign' in s:
                    pl, rv = s['Assign']
                    if isinstance(rv, dict) and ('Ref' in rv or 'AddressOf' in rv):
                        q = rv['Ref'][2] if 'Ref' in rv else rv['AddressOf'][1]
                        if 'Deref' not in q['projection']:
                            taken.add(q['local'])
                    scan(b, rv)
                    plwrite(b, pl)
                elif 'SetDiscriminant' in s:
                    scan(b, s['SetDiscriminant'])
                elif 'Intrinsic' in s:
                    scan(b, s['Intrinsic'])
            t = blk['t']
            if 'Call' in t:
                scan(b, t['Call']['args'])
                opread(b, t['Call']['func'])
                plwrite(b, t['Call']['destination'])
            elif 'SwitchInt' in t:
                opread(b, t['SwitchInt']['discr'])
            elif 'Assert' in t:
                scan(b, t['Assert']['cond'])
                scan(b, t['Assert']['msg'])
            elif 'Return' in t:
                use[b].add(0)
            # drops do not keep a value alive for the analysis
        cfg = fn.cfg
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(cfg.order):
                out = set()
                for s in cfg.succ[b]:
                    out |= livein[s]
                ni = use[b] | (out - dfn[b])
                if ni != livein[b]:
                    livein[b] = ni
                    ch = True
        r = (livein, taken)
        self.live[fn.key] = r
        return r

    def run(self, fn, args, st):
        """analyses fn on the given state; [(state, return value)]"""
        return self.exec_fn(st, fn, args, 0)

    def exec_fn(self, st, fn, args, d):
        if time.time() > self.deadline:
            raise Unsupported('analysis time exceeded')
        if d > 60:
            raise Unsupported('call depth')
        self.stack.append(fn)
        if fn.local:
            self.analysed.add(fn.name)
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.mem[('L', d, i + 1)] = a
            starts = [st]
            if getattr(fn, 'synth', False):
                from .models import settle
                for i, a in enumerate(args):
                    if isinstance(a, tuple) and a[0] == 'I':
                        starts = [y for x in starts for y in settle(self, x, ('L', d, i + 1), (), d + 1, fn.call)]
            res = ([], [], [])
            for x in starts:
                one = self.exec_body(Frame(fn, d), [(0, x)], None, None)
                for i in range(3):
                    res[i].extend(one[i])
            assert not res[1]
            out = []
            for s in res[2]:
                v = s.mem.get(('L', d, 0))
                if v is None:
                    v = self.prog.zst(fn.locals[0])
                for b in [b for b in s.mem if b[0] in ('L', 'X') and b[1] >= d]:
                    del s.mem[b]
                out.append((s, v))
            return self.merge_results(out)
        finally:
            self.stack.pop()

    def merge_results(self, rs):
        if len(rs) <= self.opts.get('ret_cap', 0):
            return rs
        out = []
        for s, v in rs:
            for i, (s2, v2) in enumerate(out):
                if v == v2 and s.trace == s2.trace and s.mem == s2.mem and self.can_merge(s, s2):
                    out[i] = (self.join_facts(s, s2), v)
                    break
            else:
                out.append((s, v))
        return out

    def can_merge(self, a, b):
        return True

    def join_facts(self, a, b):
        """state with the memory of a and what holds in either"""
        fa, fb = a.facts, b.facts
        m = fa.meet(fb)
        da = [f for f in fa.items() if f not in set(m.items())]
        db = [f for f in fb.items() if f not in set(m.items())]
        # facts of one side that the other implies
        keep = []
        for f in da:
            if f[0] != 'or' and len(da) + len(db) < 14 and fb.proves(f):
                keep.append(f)
        for f in db:
            if f[0] != 'or' and len(da) + len(db) < 14 and fa.proves(f):
                keep.append(f)
        for f in keep:
            m = m.add(f)
        da = [f for f in da if f not in keep]
        db = [f for f in db if f not in keep]
        da = [f for f in da if f not in self.derived]
        db = [f for f in db if f not in self.derived]
        for drop in (('or',), ('or', 'ge')):
            if len(da) > 5:
                da = [f for f in da if f[0] not in drop]
            if len(db) > 5:
                db = [f for f in db if f[0] not in drop]
        if da and db and len(da) <= 5 and len(db) <= 5:
            m = m.add(disj([conj(da), conj(db)]))
        elif da and db:
            self.lossy += 1
        return St(a.mem, m, a.trace, max(a.cnt, b.cnt))

    def merge_bucket(self, fn, d, b, states):
        if len(states) <= 1:
            return states
        out = []
        # syntactic duplicates first
        for s in states:
            for i, s2 in enumerate(out):
                if s.trace == s2.trace and s.mem == s2.mem:
                    if s.facts.key() == s2.facts.key():
                        break
            else:
                out.append(s)
        if len(out) <= self.cap:
            return out
        res = []
        for s in out:
            for i, s2 in enumerate(res):
                if s.trace == s2.trace and s.mem == s2.mem:
                    res[i] = self.join_facts(s2, s)
                    break
            else:
                res.append(s)
        if len(res) > 400:
            raise Unsupported('too many paths in %s (%d)' % (fn.name, len(res)))
        return res

    def prune(self, fr, b, st):
        livein, taken = self.liveness(fr.fn)
        li = livein[b]
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == fr.d and k[2] not in li and k[2] not in taken]:
            del st.mem[k]

    def exec_body(self, fr, starts, region, header):
        """runs blocks of `region` (None: all) from the given (block, state); back edges to `header` are collected.
        -> (exits [(block, state)], backs [state], returns [state])"""
        fn = fr.fn
        synth = getattr(fn, 'synth', False)
        cfg = fn.cfg
        buckets = {}
        exits, backs, rets = [], [], []

        def put(b, s, first=False):
            if header is not None and b == header and not first:
                if not synth:
                    self.prune(fr, b, s)
                backs.append(s)
            elif region is not None and b not in region:
                exits.append((b, s))
            else:
                buckets.setdefault(b, []).append(s)
        for b, s in starts:
            put(b, s, True)
        while buckets:
            b = min(buckets, key=lambda x: cfg.rpo[x])
            states = buckets.pop(b)
            if not synth:
                for s in states:
                    self.prune(fr, b, s)
            states = self.merge_bucket(fn, fr.d, b, states)
            if b in cfg.loops and b != header:
                states = self.join_entries(states)
                for s in states:
                    ex, rt = self.analyze_loop(fr, b, s)
                    for nb, ns in ex:
                        put(nb, ns)
                    rets.extend(rt)
                continue
            for s in states:
                for nb, ns in self.exec_block(fr, b, s):
                    if nb == 'ret':
                        rets.append(ns)
                    else:
                        put(nb, ns)
        return exits, backs, rets

    def join_entries(self, states):
        """loop entries with equal memory and trace become one"""
        out = []
        for s in states:
            for i, s2 in enumerate(out):
                if s.trace == s2.trace and s.mem == s2.mem:
                    out[i] = self.join_facts(s2, s)
                    break
            else:
                out.append(s)
        return out

    def forking(self, st, f):
        """runs f on copies of st, splitting on every undecided question; yields (state, result)"""
        work = [st]
        out = []
        n = 0
        while work:
            s0 = work.pop()
            s = s0.copy()
            try:
                r = f(s)
            except Fork as k:
                n += 1
                if n > 200:
                    raise Unsupported('too many case splits at one statement')
                a, b = s0.copy(), s0.copy()
                a.assume(k.f)
                b.assume(neg(k.f))
                work.append(b)
                work.append(a)
                continue
            except Dead:
                continue
            out.append((s, r))
        return out

    def exec_block(self, fr, b, st):
        fn = fr.fn
        if getattr(fn, 'synth', False):
            return self.exec_synth(fr, b, st)
        blk = fn.blocks[b]
        states = [st]
        for s in blk['st']:
            nxt = []
            for x in states:
                try:
                    nxt.extend(self.exec_stmt(fr, x, s))
                except Unsupported as e:
                    if not getattr(e, 'at', None):
                        e.at = (fn.name, s.get('sp'))
                    raise
            states = nxt
        out = []
        for x in states:
            try:
                out.extend(self.exec_term(fr, x, blk['t']))
            except Unsupported as e:
                if not getattr(e, 'at', None):
                    e.at = (fn.name, blk['t'].get('sp'))
                raise
        return out

    def exec_stmt(self, fr, st, s):
        if 'StorageDead' in s:
            st.mem.pop(('L', fr.d, s['StorageDead']), None)
            return [st]
        if 'Assign' in s:
            pl, rv = s['Assign']

            def go(x):
                v = self.rvalue(x, fr, rv, self.place_ty(fr.fn, pl))
                if not pl['projection']:
                    x.mem[('L', fr.d, pl['local'])] = v
                else:
                    base, path, off, ln = self.resolve(x, fr, pl)
                    self.store(x, fr, base, path, v)
                if 'assign' in self.hooks:
                    self.hooks['assign'](self, x, fr, pl, rv, v, s)
            return [x for x, _ in self.forking(st, go)]
        if 'SetDiscriminant' in s:
            def go2(x):
                pl = s['SetDiscriminant']['place']
                base, path, _, _ = self.resolve(x, fr, pl)
                t = self.place_ty(fr.fn, pl)
                self.write(x, base, path, ('E', t, s['SetDiscriminant']['variant_index'], tuple()))
            return [x for x, _ in self.forking(st, go2)]
        if 'Intrinsic' in s and isinstance(s['Intrinsic'], dict) and 'Assume' in s['Intrinsic']:
            def go3(x):
                v = self.operand(x, fr, s['Intrinsic']['Assume'])
                if is_bool(v):
                    x.assume(v)
            return [x for x, _ in self.forking(st, go3)]
        return [st]

    def ref_template(self, q):
        """(base, prefix, suffix) shared by every reference in a sequence, or None"""
        tm = []

        def one(v):
            if not (isinstance(v, tuple) and v[0] == 'R' and v[4] is None):
                return False
            ix = [i for i, e in enumerate(v[2]) if isinstance(e, tuple) and e[0] == 'i']
            if not ix:
                return False
            tm.append((v[1], v[2][:ix[-1]], v[2][ix[-1] + 1:]))
            return True
        b = q[3]
        if b[0] == 'aff':
            tm.append((b[1], b[2], ()))
        elif b[0] == 'gen':
            if b[4] is None:
                return None
            tm.append(b[4])
        elif b[0] == 'arr':
            if not all(one(v) for v in b[1]):
                return None
        elif b[0] == 'fill':
            if not one(b[1]):
                return None
        else:
            return None
        for _, wp, v in q[4]:
            if wp != () or not one(v):
                return None
        return tm[0] if tm and all(t == tm[0] for t in tm) else None

    def store(self, st, fr, base, path, v):
        if base[0] == 'PX':
            self.emit(st, 'put', base[1], base[2], base[3], v)
            return
        if base[0] == 'G' and str(base[1]).startswith('deref') and base not in st.mem:
            raise Unsupported('write through an unknown pointer')
        if 'store' in self.opts.get('events', ()):
            for k, e in enumerate(path):
                if isinstance(e, tuple) and e[0] == 'i':
                    q = self.read(st, base, path[:k])
                    if isinstance(q, tuple) and q[0] == 'Q':
                        st.event('store', base, path[:k], e[1], path[k + 1:], v, q)
                    break
        self.write(st, base, path, v)

    def exec_term(self, fr, st, t):
        sp = t.get('sp', '')
        if 'Goto' in t:
            return [(t['Goto']['target'], st)]
        if 'Return' in t:
            return [('ret', st)]
        if 'Unreachable' in t:
            return []
        if 'Drop' in t:
            if 'drop' in self.hooks and not t.get('drop_noop'):
                self.hooks['drop'](self, st, fr, t)
            return [(t['Drop']['target'], st)]
        if 'SwitchInt' in t:
            out = []
            tg = t['SwitchInt']['targets']

            def go(x):
                v = self.operand(x, fr, t['SwitchInt']['discr'])
                if is_bool(v):
                    r = 1 if x.decide(v) else 0
                    for c, b in tg['branches']:
                        if int(c) == r:
                            return b
                    return tg['otherwise']
                if not isinstance(v, Poly):
                    raise Unsupported('switch on %r' % (v,))
                bits = self.T[self.op_ty(fr, t['SwitchInt']['discr'])]
                m = 1 << bits.get('bits', 64) if bits['k'] == 'int' else 1 << 64
                for c, b in tg['branches']:
                    c = int(c)
                    if bits.get('signed') and c >= m // 2:
                        c -= m
                    if x.decide(eq(v - c)):
                        return b
                return tg['otherwise']
            for x, b in self.forking(st, go):
                out.append((b, x))
            return out
        if 'Assert' in t:
            a = t['Assert']
            msg = a['msg'] if isinstance(a['msg'], str) else list(a['msg'])[0]

            def go(x):
                v = self.operand(x, fr, a['cond'])
                f = v if a['expected'] else neg(v)
                self.oblige(x, f, msg, fr, sp, msg)
            return [(a['target'], x) for x, _ in self.forking(st, go)]
        if 'Call' in t:
            return self.exec_call(fr, st, t)
        if 'FalseEdge' in t:
            return [(t['FalseEdge']['real_target'], st)]
        if 'Resume' in t or 'Abort' in t:
            return []
        raise Unsupported('terminator %r' % (list(t),))

    # ---------------------------------------------------------------- calls
    def exec_call(self, fr, st, t):
        c = t['Call']
        out = []
        dest = c['destination']
        dty = self.place_ty(fr.fn, dest)

        def evalargs(x):
            f = self.operand(x, fr, c['func'])
            return f, [self.operand(x, fr, a) for a in c['args']]
        for x, (f, args) in self.forking(st, evalargs):
            call = Call(self, fr, t, args, dty)
            call.func = f
            for y, v in self.dispatch(x, call):
                if c['target'] is None:
                    continue

                def fin(z, v=v):
                    base, path, _, _ = self.resolve(z, fr, dest)
                    self.write(z, base, path, v)
                    if 'ret' in self.hooks:
                        self.hooks['ret'](self, z, fr, call, v)
                for z, _ in self.forking(y, fin):
                    out.append((c['target'], z))
        return out

    def dispatch(self, st, call):
        """[(state, value)]"""
        if call.fdef.endswith(('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')) and len(call.args) == 2:
            tup = call.args[1]
            if not (isinstance(tup, tuple) and tup[0] == 'S'):
                raise Unsupported('closure call with arguments %r' % (tup,))
            return self.call_value(st, call.args[0], list(tup[2]), call.fr.d + 1, call)
        h = self.hooks.get(('fn', call.cname)) or self.hooks.get(('fn', call.cname.split('::')[-1]) if call.is_local else None)
        if h is not None:
            r = self.invoke_model(st, call, h)
            if r is not NotImplemented:
                return r
        if h is None and not call.is_local:
            h = self.hooks.get(('model', self.models.key_of(call.fdef)))
            if h is not None:
                r = self.invoke_model(st, call, h)
                if r is not NotImplemented:
                    return r
        m = self.models.lookup(call)
        if m is not None:
            r = self.invoke_model(st, call, m)
            if r is not NotImplemented:
                self.used.add(call.cname)
                return r
        key = call.callee
        if key is None and isinstance(call.func, tuple) and call.func[0] == 'FN':
            key = call.func[1]
        fn = self.prog.fns.get(key) if key else None
        if fn is not None and fn.has_body and (fn.local or self.models.interpretable(fn)):
            return self.call_fn(st, fn, call.args, call.fr.d + 1, call)
        if call.target is None:
            self.panic(st, call.fr, call.sp, 'panic: ' + call.cname.split('::')[-1])
            return []
        return self.unknown_call(st, call)

    def call_fn(self, st, fn, args, d, call=None):
        if fn in self.stack:
            h = self.hooks.get('recursion')
            if h:
                return h(self, st, fn, args, call)
            return self.summary_havoc(st, fn, args, call)
        return self.exec_fn(st, fn, args, d)

    def summary_havoc(self, st, fn, args, call):
        st = st.copy()
        for a in args:
            self.havoc_reach(st, a, fn.short())
        return [(st, self.havoc(st, fn.locals[0], 'rec_' + fn.short()))]

    def havoc_reach(self, st, a, hint, ty=None):
        """everything a mutable reference may lead to changes, except lengths of slices"""
        if isinstance(a, tuple) and a[0] in ('S', 'I'):
            for x in a[2]:
                self.havoc_reach(st, x, hint)
        elif isinstance(a, tuple) and a[0] == 'E':
            for x in a[3]:
                self.havoc_reach(st, x, hint)
        elif isinstance(a, tuple) and a[0] == 'B':
            self.havoc_reach(st, a[1], hint)
        elif isinstance(a, tuple) and a[0] == 'R' and a[1][0] != 'C':
            v = self.base_value(st, a[1])
            w = self.walk(st, v, a[2])
            self.write(st, a[1], a[2], self.havoc_value(st, w, hint, keep_len=a[3] is not None))

    def havoc_value(self, st, w, hint, keep_len=False):
        if isinstance(w, Poly):
            y = declare(self.fresh(st, hint), 0, U64)
            return y
        if is_bool(w):
            return ('b', self.fresh(st, hint))
        k = w[0]
        if k == 'Q':
            n = self.fresh(st, hint)
            tm = None
            if w[5] is not None and self.T[w[5]]['k'] == 'ref':
                tm = self.ref_template(w)
            if keep_len:
                return ('Q', w[1], w[2], ('gen', n, w[5], (), tm), (), w[5])
            return ('Q', const(0), self.len_sym(n + '.len'), ('gen', n, w[5], (), tm), (), w[5])
        if k == 'S':
            return ('S', w[1], tuple(self.havoc_value(st, f, hint) for f in w[2]))
        if k == 'E':
            return self.of_type(w[1], self.fresh(st, hint), st)
        if k == 'SE':
            return ('SE', self.fresh(st, hint), w[2])
        if k == 'B':
            return ('B', self.havoc_value(st, w[1], hint))
        if k == 'IMG':
            return w
        if k == 'R':
            return w
        if k == 'FN':
            return w
        return ('O', ('havoc', self.fresh(st, hint)))

    def unknown_call(self, st, call):
        if call.target is None:
            return []
        st = st.copy()
        self.havoced.add(call.cname)
        for a, t in zip(call.args, call.argtys):
            x = self.T[t]
            if x['k'] == 'ref' and not x.get('mut'):
                continue
            self.havoc_reach(st, a, 'unk')
        return [(st, self.havoc(st, call.dty, 'ret_' + call.cname.split('::')[-1]))]

    def invoke_model(self, st, call, m):
        res = []
        outs = self.forking(st, lambda x: m(self, x, call))
        for x, r in outs:
            if r is NotImplemented:
                return NotImplemented
            res.extend(self.finish_model(x, r, call))
        return res

    def finish_model(self, x, r, call):
        if isinstance(r, Tail):
            rs = self.run_target(x, r.fn, r.args, call.fr.d + 1, call)
            if r.post is None:
                return rs
            out = []
            for y, v in rs:
                for z, w in self.forking(y, lambda s, v=v: r.post(s, v)):
                    out.extend(self.finish_model(z, w, call))
            return out
        if isinstance(r, Multi):
            out = []
            for y, v in r.results:
                out.extend(self.finish_model(y, v, call))
            return out
        return [(x, r)]

    def run_target(self, st, f, args, d, call=None):
        """calls a function value / Fn / synthetic function"""
        if isinstance(f, tuple):
            return self.call_value(st, f, args, d, call)
        if getattr(f, 'synth', False):
            return self.exec_fn(st, f, args, d)
        return self.call_fn(st, f, args, d, call)

    def call_value(self, st, f, args, d, call=None):
        """calls a closure or function item with untupled arguments"""
        n = 0
        v = f
        while isinstance(v, tuple) and v[0] == 'R':
            v2 = self.read(st, v[1], v[2])
            f = v
            v = v2
            n += 1
        if v[0] == 'FN':
            fn = self.prog.fns.get(v[1])
            if fn is not None and fn.local and fn.has_body or fn is not None and fn.has_body and self.models.interpretable(fn):
                return self.call_fn(st, fn, args, d, call)
            if fn is not None:
                fc = FakeCall(self, call, fn, args)
                return self.dispatch(st, fc)
            t = self.T[v[2]] if len(v) > 2 else None
            raise Unsupported('call of function item %r' % (t and t['s'],))
        if v[0] == 'S' and self.T[v[1]]['k'] == 'closure':
            x = self.T[v[1]]
            for k in ('ref', 'mut', 'once'):
                fn = self.prog.fns.get(x.get(k) or '')
                if fn is not None and fn.has_body and fn.kind == 'Item':
                    break
            else:
                raise Unsupported('closure without body ' + x['s'])
            st = st.copy()
            selft = self.T[fn.locals[1]]
            if selft['k'] == 'ref':
                if f[0] == 'R':
                    self_ = f
                else:
                    b = ('X', d, st.cnt)
                    st.cnt += 1
                    st.mem[b] = v
                    self_ = ('R', b, (), None, None)
            else:
                self_ = v
            return self.call_fn(st, fn, [self_] + list(args), d, call)
        raise Unsupported('call of %r' % (v[:2],))

    # ---------------------------------------------------------------- synthetic functions
    def exec_synth(self, fr, b, st):
        op = fr.fn.code[b]
        k = op[0]
        if k == 'goto':
            return [(op[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'do':          # ('do', f(interp, st, fr), next)
            return [(op[2], x) for x, _ in self.forking(st, lambda s: op[1](self, s, fr))]
        if k == 'if':          # ('if', f -> formula, then, else)
            return [(op[2] if r else op[3], x) for x, r in self.forking(st, lambda s: s.decide(op[1](self, s, fr)))]
        if k == 'call':        # ('call', f -> (function value, args) , dest local, next)
            out = []
            for x, (f, args) in self.forking(st, lambda s: op[1](self, s, fr)):
                for y, v in self.run_target(x, f, args, fr.d + 1, fr.fn.call):
                    y.mem[('L', fr.d, op[2])] = v
                    out.append((op[3], y))
            return out
        if k in ('next', 'nextb'):        # ('next', f -> iterator ref, dest local, next): Option as ('E', None, 0|1, ...)
            out = []
            for x, r in self.forking(st, lambda s: op[1](self, s, fr)):
                for y, v in self.models.iter_next(self, x, r, fr.d + 1, fr.fn.call, k == 'nextb'):
                    y.mem[('L', fr.d, op[2])] = v
                    out.append((op[3], y))
            return out
        raise Unsupported('synthetic op ' + k)

    # ---------------------------------------------------------------- loops
    def analyze_loop(self, fr, hdr, S0):
        from . import loops
        return loops.analyze(self, fr, hdr, S0)


class Call:
    """a call being modelled"""

    def __init__(self, cx, fr, t, args, dty):
        self.cx, self.fr, self.t, self.args, self.dty = cx, fr, t, args, dty
        self.fdef = t.get('fdef') or ''
        self.cname = t.get('cname') or self.fdef or '?'
        self.callee = t.get('callee')
        self.sp = t.get('sp', '')
        self.targs = t.get('targs', [])
        self.argtys = [cx.op_ty(fr, a) for a in t['Call']['args']]
        self.target = t['Call']['target']
        self.is_local = 'puzzle_utils' in self.cname

    def oblige(self, st, f, kind, text):
        return self.cx.oblige(st, f, kind, self.fr, self.sp, text)


class FakeCall(Call):
    """a call made by a model through a function value"""

    def __init__(self, cx, call, fn, args):
        self.cx, self.fr, self.args = cx, call.fr, list(args)
        self.t = call.t
        self.fdef = self.cname = fn.name
        self.callee = fn.key
        self.sp = call.sp
        self.targs = []
        self.dty = fn.locals[0] if fn.has_body else None
        self.argtys = fn.locals[1:1 + fn.argc] if fn.has_body else []
        self.target = 0
        self.is_local = fn.local
        self.func = ('FN', fn.key)


class Tail:
    """result of a model: the value of calling fn(args), passed through post(state, value)"""

    def __init__(self, fn, args, post=None):
        self.fn, self.args, self.post = fn, args, post


class Multi:
    def __init__(self, results):
        self.results = results


class Synth:
    """synthetic function: code is {block: op}"""
    synth = True
    local = False
    has_body = True

    def __init__(self, name, code, call):
        self.name = self.key = name
        self.code = code
        self.call = call
        self.locals = [None] * 32
        from .mir import Cfg
        succ = []
        for b in range(len(code)):
            op = code[b]
            succ.append({'goto': lambda: [op[1]], 'ret': lambda: [], 'do': lambda: [op[2]], 'if': lambda: [op[2], op[3]],
                         'call': lambda: [op[3]], 'next': lambda: [op[3]], 'nextb': lambda: [op[3]]}[op[0]]())
        self.cfg = Cfg(succ)

    def short(self):
        return self.name


def fmt(f):
    if isinstance(f, Poly):
        return repr(f)
    k = f[0]
    if k == 'ge':
        return '(%r >= 0)' % f[1]
    if k == 'eq':
        return '(%r = 0)' % f[1]
    if k == 'ne':
        return '(%r != 0)' % f[1]
    if k == 'b':
        return str(f[1])
    if k == 'nb':
        return '!' + str(f[1])
    if k == 'and':
        return '(' + ' & '.join(fmt(x) for x in f[1]) + ')'
    if k == 'or':
        return '(' + ' | '.join(fmt(x) for x in f[1]) + ')'
    return k
