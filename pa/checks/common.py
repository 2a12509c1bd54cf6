"""Shared parts of the checks built on the abstract interpreter."""
import time
from ..mir import Program
from ..interp import Interp, St, Unsupported, Dead, is_bool, fmt, MAXLEN, U64
from ..lin import Poly, const, sym, declare, ge, eq, ne, neg, conj, disj, imp, T, F
from .. import lin, models, loops

TRUST = ['rustc translates the source to MIR faithfully',
         'the models of std, image, imageproc, ab_glyph and rand functions in pa/models.py describe what those functions do',
         'collections have fewer than 2^31 elements and allocation succeeds']


def program(d):
    if not hasattr(program, 'cache') or program.cache[0] is not d:
        program.cache = (d, Program(d))
    return program.cache[1]


class Run:
    """the analysis of one function from an unknown state"""

    def __init__(self, d, name, hooks=None, events=(), assume=None, setup=None, time_=600, args=None, opts=None):
        self.prog = program(d)
        self.fn = self.prog.one(name) if isinstance(name, str) else name
        self.error = None
        self.results = []
        self.args = []
        if self.fn is None:
            self.error = 'function %s not found' % name
            return
        self.cx = cx = Interp(self.prog, dict(hooks or {}), dict({'events': set(events), 'time': time_}, **(opts or {})))
        if setup:
            setup(cx)
        st = St()
        fn = self.fn
        self.args = args(cx, fn, st) if args else [cx.of_type(fn.locals[i + 1], 'a%d' % i) for i in range(fn.argc)]
        if assume:
            for f in assume(cx, st, self.args):
                st.assume(f)
        try:
            self.results = cx.run(fn, self.args, st)
        except Unsupported as e:
            self.error = 'not analysable: %s at %s' % (e, getattr(e, 'at', None))

    def report(self, r, panics=True, safe_unknown=(), kinds=None):
        """common obligations: the analysis finished, nothing unmodelled, no panic"""
        name = self.fn.short() if self.fn else '?'
        r.soft = False
        if self.error:
            r.undecided(name, self.error)
            return False
        r.note('functions analysed', {f for f in self.cx.analysed})
        r.note('models used', self.cx.used)
        unk = {u for u in self.cx.havoced if u not in safe_unknown}
        r.soft = bool(unk)
        if unk:
            r.undecided(name, 'calls without a model: %s' % sorted(unk))
        else:
            r.ok('modelled', name, 'every call is modelled or analysed')
        if panics:
            for (kind, site, sp), (ok, text) in sorted(self.cx.obl[0].items()):
                if kinds is None or kind in kinds:
                    r.check(ok, kind, '%s (from %s)' % (site, name), text)
        return True


def segments(results):
    """Every straight stretch of execution: (state, events) for each result and each loop iteration."""
    out, seen = [], set()

    def visit(st, kind, rec):
        ev = [e for e in st.events() if e[0] != 'mark']
        out.append((kind, rec, st, ev))
        for e in ev:
            if e[0] == 'loop' and id(e[1]) not in seen:
                seen.add(id(e[1]))
                for b in e[1].backs:
                    visit(b, 'iteration', e[1])
    for st, v in results:
        visit(st, 'end', None)
    return out


def tyname(cx, t):
    return cx.T[t]['s'] if t is not None else ''


def tail(s):
    return s.split('::')[-1]


def field(cx, t, name):
    """index of a struct field by name"""
    for i, f in enumerate(cx.T[t]['variants'][0]['fields']):
        if f[0] == name:
            return i
    return None


def variant(cx, t, name):
    for i, v in enumerate(cx.T[t]['variants']):
        if v['name'] == name:
            return i
    return None


def vname(cx, st, v):
    """name of the variant of an enum value, if the path fixes it"""
    if v[0] == 'E':
        return cx.T[v[1]]['variants'][v[2]]['name']
    if v[0] == 'SE':
        for i, x in enumerate(cx.T[v[2]]['variants']):
            if st.known(cx.variant_is(v, i)) is True:
                return x['name']
    return None


def is_ok(cx, v):
    return v[0] == 'E' and v[2] == 0


def show(f):
    return fmt(f)[:300]


def read(cx, st, q, p, rest=()):
    """element p of sequence q in (a copy of) st: (value, state with what its invariants say) or (None, st)"""
    from ..interp import Fork
    s = st.copy()
    try:
        return cx.seq_read(s, q, p, rest), s
    except (Fork, Unsupported, Dead):
        return None, st


def seq_in(cx, st, base, path):
    """the sequence stored at base/path in st"""
    from ..interp import Fork
    if base not in st.mem:
        return None
    try:
        v = cx.walk(st.copy(), st.mem[base], path)
    except (Fork, Unsupported, Dead, KeyError, IndexError, TypeError):
        return None
    return v if isinstance(v, tuple) and v[0] == 'Q' else None


def elem_name(cx, q):
    return tail(tyname(cx, q[5])) if q[5] is not None else ''


def content(q):
    """name of the unknown content of a sequence"""
    return q[3][1] if q[3][0] == 'gen' else None


def pp(p):
    """a polynomial, abbreviated"""
    import re
    s = repr(p)
    return re.sub(r'[\w]+@[^/]*/', '', s).replace('.#content', '')[:120]


def counters(cx, rec):
    """integer leaves of a loop that every iteration increases by exactly one"""
    out = []
    for l in rec.leaves:
        if l.kind != 'int' or any(isinstance(x, str) and x.startswith('#') for x in l.path):
            continue
        ok = bool(rec.backs)
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path) if l.key in b.mem else None
            ok = ok and isinstance(v, Poly) and b.facts.proves(eq(v - l.h - 1))
        if ok:
            out.append(l)
    return out


def built(cx, st, q):
    """(loop, [(state, push event)]) of the loop that fills sequence q with one push per iteration, from empty;
    st: the state, or the loops to look at"""
    name = content(q)
    for e in st if isinstance(st, list) else all_loops(st):
        for l in e.leaves:
            if l.kind == 'content' and l.name == name:
                q0 = loops.leaf(cx, e.entry, e.entry.mem[l.key], l.path[:-1]) if len(l.path) > 1 else e.entry.mem.get(l.key)
                if q0 is None or q0[0] != 'Q' or not e.entry.facts.proves(eq(q0[2] - q0[1])):
                    return None
                res = []
                for b in e.backs:
                    ps = [x for x in b.events() if x[0] in ('push', 'store') and x[1] == l.key and x[2] == l.path[:-1]]
                    if len(ps) != 1 or ps[0][0] != 'push':
                        return None
                    res.append((b, ps[0]))
                return e, res
    return None


def all_loops(st):
    out, seen = [], set()

    def visit(s):
        for e in s.events():
            if e[0] == 'loop' and id(e[1]) not in seen:
                seen.add(id(e[1]))
                out.append(e[1])
                for b in e[1].backs:
                    visit(b)
    visit(st)
    return out


def rounds(cx, rec):
    """[number of rounds made when the loop is left], from the integers that move by one in every round"""
    out = []
    for l in rec.leaves:
        if l.kind != 'int' or not isinstance(l.v0, Poly) or not rec.backs:
            continue
        ds = set()
        for b in rec.backs:
            v = loops.leaf(cx, b, b.mem[l.key], l.path)
            ds.add((v - l.h).const if isinstance(v, Poly) else None)
        if ds in ({1}, {-1}):
            out.append((l.h - l.v0) * next(iter(ds)))
    return out
