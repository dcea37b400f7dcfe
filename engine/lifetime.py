"""Lifetime and bounds rules on the memory events of one evaluated function.

Events come in program order with the condition under which they happen; every rule asks for an empty
region: an access outside its object, an access after the object was released, a second release, an
object that is still live at the end.
"""
from . import alg, polyhedra
from .alg import Rat, band, bor, bnot, cmp, num, leaf
from .ir import Ptr, map_leaves


def _owned(x):
    return isinstance(x, Ptr) and isinstance(x.base, tuple) and x.base[0] in ('heap', 'alloca')


def possible(c):
    """A region of the condition that is not empty (path) or None."""
    if c is alg.FALSE:
        return None
    for path, v, _ in alg.diff_values(c, alg.FALSE, ties=True, limit=50, prune=polyhedra.feasible):
        if polyhedra.feasible(path):
            return path
    return None


def where(loc):
    return '; '.join('%s:%s %s' % tuple(l[:3]) if isinstance(l, (list, tuple)) else str(l) for l in (loc or [])[:3])


def faults(ev, leaks=True, returned=alg.TRUE):
    """[(text, location)] and counts of the events looked at (leaks only where the function returns)."""
    size, freed, made, out = {}, {}, {}, []
    n = dict(objects=0, accesses=0, releases=0)

    def report(c, text, loc):
        p = possible(c)
        if p is not None:
            out.append((text + (' (when %s)' % alg.conds_str(p) if p else ''), loc))
    for e in ev.events:
        if e[0] in ('new', 'local'):
            _, base, sz, cond, loc = e
            size[base] = sz
            n['objects'] += 1
            freed.pop(base, None)
            if e[0] == 'new':
                made[base] = (cond, loc)
        elif e[0] == 'delete':
            _, p, cond, loc = e
            n['releases'] += 1
            for x in alg.leaves(p):
                c = band(cond, map_leaves(lambda y: alg.TRUE if y == x else alg.FALSE, p))
                if x is alg.UNDEF_V:
                    report(c, 'an undefined pointer is released', loc)
                if not isinstance(x, Ptr) or x.base == 'null':
                    continue
                if not (_owned(x) and x.base[0] == 'heap') or not x.off.num.is_zero():
                    report(c, 'memory that was not allocated is released', loc)
                    continue
                report(band(c, freed.get(x.base, alg.FALSE)), 'a buffer is released twice', loc)
                freed[x.base] = bor(freed.get(x.base, alg.FALSE), c)
        elif e[0] == 'touch':
            _, how, p, sz, cond, loc = e
            n['accesses'] += 1
            for x in alg.leaves(p):
                if not _owned(x) or x.base not in size:
                    continue
                c = band(cond, map_leaves(lambda y: alg.TRUE if y == x else alg.FALSE, p))
                c = band(c, cmp('gt', sz, num(0)))
                f = freed.get(x.base)
                if f is not None:
                    report(band(c, f), 'a released buffer is %s' % how, loc)
                o = num(x.off)
                report(band(c, bor(cmp('lt', o, num(0)), cmp('gt', alg.add(o, sz), size[x.base]))),
                       'a buffer of %s bytes is %s at byte %s (%s bytes)' % (
                           '/'.join(map(str, alg.leaves(size[x.base]))), how, x.off, '/'.join(map(str, alg.leaves(sz)))), loc)
    if leaks:
        for b, (c, loc) in made.items():
            report(band(band(c, returned), bnot(freed.get(b, alg.FALSE))), 'a buffer is never released', loc)
    return out, n
