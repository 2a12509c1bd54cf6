"""Determinism: parsing, solving and printing reach no source of nondeterminism or state."""
from ..report import Report

PURE = ['parse_sudoku', 'solve_sudoku', 'print_sudoku', 'parse_nonogram_rules', 'solve_nonogram', 'print_nonogram',
        'print_nonogram_solution', 'print_maze', 'print_maze_solution']

# foreign functions that are functions of their arguments
FOREIGN_OK = ('alloc::alloc::__rust_', 'core::num::imp::libm::', 'core::core_arch::')
# caches of facts about the machine: written once with a value that does not change results
STATIC_OK = ('std_detect::detect::cache::', 'ab_glyph_rasterizer::raster::optimal_draw_line_fn::')
# std modules whose functions depend on more than their arguments
IMPURE = ('std::env::', 'std::time::', 'core::time::SystemTime', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::',
          'std::io::stdio::', 'std::io::stdin', 'std::io::stdout', 'std::io::stderr', 'std::io::_print', 'std::io::_eprint',
          'std::sys::random', 'std::sys::time', 'std::sys::env', 'std::sys::fs', 'std::sys::net', 'std::sys::process',
          'std::sys::stdio', 'std::sys::args', 'std::hash::RandomState', 'std::hash::random::', 'std::random::',
          'std::collections::hash::', 'std::os::', 'std::sync::mpsc', 'std::backtrace')
IMPURE_CRATES = ('rand', 'rand_core', 'rand_chacha', 'getrandom', 'libc')


def determinism(d, g, deep):
    r = Report('C20', 'proof', 'whole-program call-graph reachability over monomorphised MIR (effect analysis)',
               'No call path from an exported parse/solve/print function reaches randomness, the clock, the environment, files, '
               'threads, foreign code outside the allocator/libm/SIMD, or a static that can change (two one-time CPU-feature '
               'caches excepted); no crate-local body compares, orders or casts addresses to integers. Every call edge '
               '(resolved callee, drop glue, function item taken as value, vtable-free) of the monomorphised program is followed.',
               ['std functions whose MIR is not shipped (fmt internals, panicking) are judged by their module path',
                'the CPU-feature caches of std_detect and ab_glyph_rasterizer do not influence pixel values'])
    G = g['graph']
    names = {i['name'].split('::')[-1]: i for i in d['items'] if i.get('inst') and i.get('reachable_pub') and i['name'].startswith('puzzle_utils::puzzles::')}
    anchors = 0
    local_seen = set()
    for f in PURE:
        it = names.get(f)
        if not it:
            r.bad('anchor', f, 'the exported function %s was not found' % f)
            continue
        anchors += 1
        k = g['index'][it['inst']]
        pred = {k: None}
        st = [k]
        while st:
            x = st.pop()
            for c in G[x][3]:
                if isinstance(c, int) and c not in pred:
                    pred[c] = x
                    st.append(c)

        def path(x, tail):
            out = [tail]
            while x is not None:
                out.append(G[x][0])
                x = pred[x]
            return ' <- '.join(out[:12])
        bad = 0
        for x in pred:
            name, crate, flags = G[x][0], G[x][1], G[x][2]
            if 'l' in flags:
                local_seen.add(name)
            if 'f' in flags and not name.startswith(FOREIGN_OK):
                r.bad('foreign function', f + ' -> ' + name, path(x, ''))
                bad += 1
            clean = name.lstrip('<')
            if clean.startswith(IMPURE) or any(' as ' in name and p in name.split(' as ')[0] for p in ('RandomState', 'Instant', 'SystemTime')):
                r.bad('impure function', f + ' -> ' + name, path(x, ''))
                bad += 1
            if crate in IMPURE_CRATES and 'f' not in flags:
                r.bad('randomness or system access', f + ' -> ' + name, path(x, ''))
                bad += 1
            for s in (G[x][4] if len(G[x]) > 4 else []):
                if s.startswith('!') and not s[1:].startswith(STATIC_OK):
                    r.bad('mutable static', f + ' -> ' + s[1:], path(x, s))
                    bad += 1
            for c in G[x][3]:
                if isinstance(c, str) and c.startswith('?tls'):
                    r.bad('thread local', f + ' -> ' + c, path(x, c))
                    bad += 1
                if isinstance(c, str) and c.startswith('?asm') and 'l' in flags:
                    r.bad('inline assembly', f + ' -> ' + name, path(x, c))
                    bad += 1
        if not bad:
            r.ok('reachability', f, '%d functions reachable, none impure' % len(pred))
        r.note('entry points', it['name'])
    r.note('crate-local functions reached', local_seen)
    # addresses as data, in crate-local bodies
    n = 0
    T = d['types']

    def isptr(t):
        return T[str(t)]['k'] in ('ptr', 'fnptr')
    for k, f in d['fns'].items():
        if not f.get('local') or 'blocks' not in f:
            continue
        n += 1
        for b in f['blocks']:
            for s in b['st']:
                a = s.get('Assign')
                if not a:
                    continue
                rv = a[1]
                if isinstance(rv, dict) and 'Cast' in rv and str(rv['Cast'][0]) in ('PointerExposeAddress', 'PointerExposeProvenance'):
                    r.bad('address cast to integer', f['name'], s.get('sp', ''))
                if isinstance(rv, dict) and 'BinaryOp' in rv and rv['BinaryOp'][0] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                    for o in rv['BinaryOp'][1:3]:
                        pl = o.get('Copy') or o.get('Move') if isinstance(o, dict) else None
                        if pl and not pl['projection'] and isptr(f['locals'][pl['local']]):
                            r.bad('addresses ordered', f['name'], s.get('sp', ''))
            t = b['t'].get('Call')
            cn = b['t'].get('cname') or ''
            if t is not None and ('*const T' in cn or '*mut T' in cn) and any(w in cn for w in ('Ord>::', 'PartialOrd>::', 'Hash>::', 'Debug>::', 'Pointer>::', '::addr', '::expose')):
                r.bad('addresses used as data', f['name'] + ' -> ' + cn, b['t'].get('sp', ''))
    r.ok('addresses', 'crate', '%d bodies without address-dependent operations' % n)
    r.floor('exported pure functions', anchors, 9)
    r.floor('crate-local bodies', n, 60)
    # positive example: the same search must find the randomness of create_maze
    it = names.get('create_maze')
    if it:
        k = g['index'][it['inst']]
        seen = {k}
        st = [k]
        while st:
            x = st.pop()
            for c in G[x][3]:
                if isinstance(c, int) and c not in seen:
                    seen.add(c)
                    st.append(c)
        r.floor('randomness found from create_maze (positive example)', sum(G[x][1] in IMPURE_CRATES for x in seen), 1)
    return r
