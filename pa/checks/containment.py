"""Unsafe code stays inside the dancing-links module and its pointers do not leave it."""
from ..report import Report

HOME = 'structures::dancing_links'


def containment(d, g, deep):
    r = Report('C07', 'proof', 'HIR / type-system query over every item of the crate (unsafe-effect confinement)',
               'Every unsafe block, unsafe function, unsafe impl and mutable static of the crate lies in structures::dancing_links; '
               'no type outside that module holds a raw pointer; the matrix that owns the nodes is neither Clone/Copy nor Send/Sync; '
               'no exported type contains it.', ['the standard library and the dependencies are sound'])
    inside = outside = 0
    for owner, sp in d['unsafes']:
        if HOME in owner:
            inside += 1
        else:
            outside += 1
            r.bad('unsafe block', owner, 'unsafe block at %s outside %s' % (sp, HOME))
    if not outside:
        r.ok('unsafe blocks', 'crate', '%d unsafe blocks, all in %s' % (inside, HOME))
    n = 0
    for i in d['items']:
        n += 1
        if i.get('unsafe') and HOME not in i['name']:
            r.bad('unsafe fn', i['name'], i['span'])
    for i in d['impls']:
        n += 1
        if str(i.get('unsafe', 'Safe')) != 'Safe':
            r.bad('unsafe impl', '%s for %s' % (i.get('trait'), i['self']), i['span'])
        if HOME in i['self'] and 'DancingMatrix' in i['self'] and (i.get('trait') or '').split('::')[-1] in ('Clone', 'Copy', 'Send', 'Sync'):
            r.bad('owner duplicated or shared', '%s for DancingMatrix' % i['trait'], i['span'])
    for a in d['adts']:
        for v, fn, ty, vis in a['fields']:
            n += 1
            raw = '*mut' in ty or '*const' in ty or 'NonNull' in ty
            if raw and HOME not in a['name']:
                r.bad('raw pointer field', '%s.%s' % (a['name'], fn), ty)
            if HOME in a['name'] and raw and 'Public' in vis:
                r.bad('public raw pointer field', '%s.%s' % (a['name'], fn), ty)
            if a['exported'] and HOME in ty:
                r.bad('exported type contains a node owner', '%s.%s' % (a['name'], fn), ty)
    r.ok('items', 'crate', '%d items, impls and fields examined' % n)
    r.floor('unsafe blocks seen', inside, 1)
    r.floor('items examined', n, 60)
    r.note('owners of unsafe blocks', {o for o, _ in d['unsafes']})
    return r
