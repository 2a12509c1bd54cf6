"""The dumped program: functions with their control-flow graphs and loops, types, constants."""
import json
from .lin import const, T, F


def targets(t):
    """successors of a terminator, ignoring unwinding"""
    if 'Goto' in t:
        return [t['Goto']['target']]
    if 'SwitchInt' in t:
        tg = t['SwitchInt']['targets']
        return [b for _, b in tg['branches']] + [tg['otherwise']]
    if 'Call' in t:
        return [] if t['Call']['target'] is None else [t['Call']['target']]
    if 'Assert' in t:
        return [t['Assert']['target']]
    if 'Drop' in t:
        return [t['Drop']['target']]
    if 'FalseEdge' in t:
        return [t['FalseEdge']['real_target']]
    return []


class Cfg:
    """reverse post-order and natural loops"""

    def __init__(self, succ):
        self.succ = succ
        n = len(succ)
        order, seen = [], [False] * n
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: None for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b] if dom[p] is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(pred[x])
        self.order = order


class Fn:
    def __init__(self, prog, key, j):
        self.prog, self.key, self.j = prog, key, j
        self.name = j['name']
        self.local = j.get('local', False)
        self.crate = j.get('crate')
        self.kind = j.get('kind')
        self.has_body = 'blocks' in j
        if self.has_body:
            self.blocks = j['blocks']
            self.locals = j['locals']
            self.argc = j['argc']
            self._cfg = None
            self.names = {}
            for nm, v in j.get('names', []):
                pl = v.get('Place') if isinstance(v, dict) else None
                if pl and not pl['projection']:
                    self.names[pl['local']] = nm

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg([targets(b['t']) for b in self.blocks])
        return self._cfg

    def short(self):
        return self.name.replace('puzzle_utils::', '')

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Program:
    def __init__(self, dump):
        self.d = dump
        self.T = {int(k): v for k, v in dump['types'].items()}
        self.fns = {k: Fn(self, k, v) for k, v in dump['fns'].items()}
        self.allocs = dump['allocs']
        self._const = {}
        self.bystr = {}
        for k, v in self.T.items():
            self.bystr.setdefault(v['s'], k)
        self._lay = {}

    # -- lookups
    def local_fn(self, suffix, generic_ok=True):
        """crate-local functions whose path ends with the suffix"""
        return [f for f in self.fns.values() if f.local and f.has_body and
                (f.name == suffix or f.name.endswith('::' + suffix))]

    def one(self, suffix):
        fs = self.local_fn(suffix)
        return fs[0] if len(fs) == 1 else None

    def ty(self, t):
        return self.T[t]

    def is_adt(self, t, name):
        x = self.T[t]
        return x['k'] == 'adt' and x['def'] == name

    def layout(self, t):
        if t not in self._lay:
            l = self.T[t].get('layout')
            self._lay[t] = json.loads(l) if l else None
        return self._lay[t]

    def size(self, t):
        l = self.layout(t)
        return l['size']['num_bits'] // 8 if l else None

    def int_range(self, t):
        x = self.T[t]
        if x['k'] == 'int':
            b = x['bits']
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if x['signed'] else (0, (1 << b) - 1)
        if x['k'] == 'char':
            return (0, 0x10FFFF)
        if x['k'] == 'bool':
            return (0, 1)
        return None

    # -- constants
    def decode(self, t, data, ptrs, off, cx):
        """value of type t at offset off of the bytes `data` (provenance ptrs: {off: alloc id})"""
        x = self.T[t]
        k = x['k']
        if k == 'int' or k == 'char':
            n = self.size(t)
            bs = data[off:off + n]
            if any(b is None for b in bs) or off in ptrs:
                return None
            v = int.from_bytes(bytes(bs), 'little', signed=x.get('signed', False) if k == 'int' else False)
            return const(v)
        if k == 'bool':
            return T if data[off] else F
        if k == 'tuple':
            lay = self.layout(t)
            fs = []
            offs = self._offs(lay)
            for i, e in enumerate(x['elems']):
                fs.append(self.decode(e, data, ptrs, off + offs[i], cx))
            return None if any(f is None for f in fs) else ('S', t, tuple(fs))
        if k == 'array':
            n, e = x['n'], x['of']
            sz = self.size(e)
            vals = [self.decode(e, data, ptrs, off + i * sz, cx) for i in range(n)]
            if any(v is None for v in vals):
                return None
            return ('Q', const(0), const(n), ('arr', tuple(vals)), (), e)
        if k in ('ref', 'ptr'):
            a = ptrs.get(off)
            to = x['to']
            tk = self.T[to]['k']
            if a is None:
                if k == 'ptr' and all(b == 0 for b in data[off:off + 8]):
                    return ('O', ('null',))
                return None
            al = self.allocs.get(str(a))
            if not al or al['kind'] != 'mem':
                if al and al['kind'] == 'fn':
                    return ('FN', al['fn'])
                return ('O', ('alloc', a))
            m = al['alloc']
            if tk == 'str':
                n = int.from_bytes(bytes(data[off + 8:off + 16]), 'little')
                return ('STR', ('lit', bytes(m['bytes'][:n]).decode('utf8', 'replace')))
            ml = {o: p for o, p in m['ptrs']}
            if tk == 'slice':
                n = int.from_bytes(bytes(data[off + 8:off + 16]), 'little')
                e = self.T[to]['of']
                if not m['bytes'] and m['len']:
                    return ('R', cx.static(('blob', a), ('Q', const(0), const(n), ('gen', 'blob%d' % a, e, (), None), (), e)), (), const(0), const(n))
                sz = self.size(e)
                vals = [self.decode(e, m['bytes'], ml, i * sz, cx) for i in range(n)]
                if any(v is None for v in vals):
                    return None
                return ('R', cx.static(('alloc', a), ('Q', const(0), const(n), ('arr', tuple(vals)), (), e)), (), const(0), const(n))
            if not m['bytes'] and m['len']:
                return ('O', ('alloc', a))
            v = self.decode(to, m['bytes'], ml, 0, cx)
            if v is None:
                return ('O', ('alloc', a))
            if v[0] == 'STR' if isinstance(v, tuple) else False:
                return v
            return ('R', cx.static(('alloc', a), v), (), None, None)
        if k == 'adt':
            if x['union']:
                return None
            lay = self.layout(t)
            if lay is None:
                return None
            if not x['enum']:
                offs = self._offs(lay)
                fs = []
                for i, (_, ft) in enumerate(x['variants'][0]['fields']):
                    fs.append(self.decode(ft, data, ptrs, off + (offs[i] if i < len(offs) else 0), cx))
                return None if any(f is None for f in fs) else ('S', t, tuple(fs))
            vs = lay['variants']
            if 'Single' in vs:
                i = vs['Single']['index']
                offs = self._offs(lay)
            else:
                mu = vs['Multiple']
                to = self._offs(lay)[mu['tag_field']]
                tag = mu['tag']
                ini = tag.get('Initialized') or tag.get('Union')
                val = ini['value']
                if 'Pointer' in val:
                    n, isptr = 8, True
                else:
                    n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[val['Int']['length']]
                    isptr = False
                if any(b is None for b in data[off + to:off + to + n]):
                    return None
                raw = int.from_bytes(bytes(data[off + to:off + to + n]), 'little')
                enc = mu['tag_encoding']
                if enc == 'Direct':
                    i = None
                    for q, v in enumerate(x['variants']):
                        if int(v['discr']) % (1 << (8 * n)) == raw:
                            i = q
                else:
                    nc = enc['Niche']
                    lo, hi = nc['niche_variants']['start'], nc['niche_variants']['end']
                    rel = (raw - int(nc['niche_start'])) % (1 << (8 * n))
                    if (off + to) in ptrs:
                        i = nc['untagged_variant']
                    else:
                        i = lo + rel if rel <= hi - lo else nc['untagged_variant']
                if i is None:
                    return None
                offs = [o['num_bits'] // 8 for o in mu['variants'][i]['offsets']]
            fs = []
            for q, (_, ft) in enumerate(x['variants'][i]['fields']):
                fs.append(self.decode(ft, data, ptrs, off + offs[q], cx))
            return None if any(f is None for f in fs) else ('E', t, i, tuple(fs))
        if k in ('fndef',):
            return ('FN', x.get('inst'))
        if k == 'closure':
            return ('S', t, ())
        return None

    @staticmethod
    def _offs(lay):
        f = lay['fields']
        if 'Arbitrary' in f:
            return [o['num_bits'] // 8 for o in f['Arbitrary']['offsets']]
        return []

    def constant(self, c, cx):
        c = c['const_']
        key = c['id']
        if key in self._const:
            return self._const[key]
        t = c['ty']
        k = c['kind']
        v = None
        if k == 'ZeroSized':
            v = self.zst(t)
        elif isinstance(k, dict) and 'Allocated' in k:
            a = k['Allocated']
            ptrs = {}
            for o, p in a['provenance']['ptrs']:
                ptrs[o] = p[0] if isinstance(p, list) else p
            v = self.decode(t, a['bytes'], ptrs, 0, cx)
        elif isinstance(k, dict) and 'Ty' in k:
            tc = k['Ty']
            try:
                b = tc['kind']['Value'][1]['bytes']
                v = const(int.from_bytes(bytes(b), 'little'))
            except Exception:
                v = None
        if v is None:
            v = ('O', ('const', key, t))
        self._const[key] = v
        return v

    def zst(self, t):
        x = self.T[t]
        if x['k'] == 'fndef':
            return ('FN', x.get('inst'), t)
        if x['k'] == 'closure':
            return ('S', t, ())
        if x['k'] == 'tuple':
            return ('S', t, tuple(self.zst(e) for e in x['elems']))
        if x['k'] == 'array':
            return ('Q', const(0), const(0), ('arr', ()), (), x['of'])
        if x['k'] == 'adt' and not x['enum']:
            return ('S', t, tuple(self.zst(f[1]) for f in x['variants'][0]['fields']))
        if x['k'] == 'adt' and x['enum']:
            return ('E', t, 0, ()) if len(x['variants']) == 1 else ('O', ('zst', t))
        return ('O', ('zst', t))
