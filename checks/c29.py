"""C29: generated pin meshes."""
import math
from fractions import Fraction as Fr
from engine import alg, harness, ir, vg
from engine.alg import Rat, rc, ra, R0, num, cmp, ite, band, bor, bnot
from engine.vg import IN, SKIP
from checks.c19 import LOG, Log
from checks.c20 import close

TINY = Fr(1, 10**11)


class Trig(Log):
    """Trigonometric functions of known angles are replaced by their values; mesh diagnostics are skipped."""

    def __call__(self, ev, ins, ops, st, cond):
        r = Log.__call__(self, ev, ins, ops, st, cond)
        if r is not None:
            return r
        if '::validate(' in (ins.get('dem') or ''):
            return alg.UNDEF
        n = ir.libm_name(ins['fn'])
        if n in ('sin', 'cos', 'tan') and ins['fn'] not in ev.mod.functions:
            x = vg.single(ops[0])
            v = None if x is None or not isinstance(x, Rat) else alg.subst(x, {ir.PI: rc(Fr(math.pi))})
            if v is not None and v.is_const():
                return num(rc(Fr(round(getattr(math, n)(float(v.const())) * 10**14), 10**14)))
        return None


def decimal(r):
    """Square roots of numbers as decimals."""
    m = {a: rc(Fr(math.sqrt(alg.SQRT_ARG[a].const()))) for a in r.atoms() if a in alg.SQRT_ARG and alg.SQRT_ARG[a].is_const()}
    return alg.subst(r, m) if m else r


def close_enough(a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.rat_eq(a, b) or close(decimal(a), decimal(b), TINY)
    return a == b


def value(d, good):
    """The value of a diagram on a region, apart from rounding of nearly vanishing numbers to zero: (value, diagram)."""
    d = ite(good, d, SKIP)
    ls = [x for x in alg.leaves(d) if x is not alg.SKIP_V and x is not alg.UNDEF_V]
    if not all(isinstance(x, Rat) for x in ls) or not ls:
        raise harness.CheckError('mesh data is not a number: %s' % [str(x) for x in ls if not isinstance(x, Rat)])
    big = [x for x in ls if not x.num.is_zero()]
    if not big:
        return R0, d
    return big[0], d


def accepted(ctx, what, good, names, vals, where):
    x = vg.at(good, {a.num.lead()[0][0][0]: v for a, v in zip(names, vals)})
    if x is True:
        ctx.ok(what + ': accepted when it fits')
    elif x is None:
        ctx.error('%s: acceptance at %s is undecided' % (what, vals))
    else:
        ctx.fail(what + ': accepted when it fits', 'a pin of pitch %s and radii %s is refused' % (vals[0], vals[1:]), where)


def pin(ctx, mod, name, order, na, rings, sfx):
    what = '%s pin, %d sectors, rings %s%s' % ('linear' if order == 1 else 'quadratic', na, list(rings), sfx)
    with ctx.guard(what):
        vg.fresh()
        n = len(rings)
        P, R = IN(0), [IN(1 + i) for i in range(n)]
        for x in [P] + R:
            vg.within(x, 0, None)
        log = Trig()
        r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': log, 'inf': True}, ('in', 'out'), limit=2000)
        where = r.where()
        err = log.cond('error')
        pre = alg.TRUE
        for a, b in zip(R, R[1:]):
            pre = band(pre, cmp('lt', num(a), num(b)))
        large = alg.FALSE
        for x in R:
            large = bor(large, cmp('gt', alg.mul(num(2), num(x)), num(P)))
        c = band(pre, large)
        vg.expect(ctx, what + ': a radius beyond the pitch is refused', ite(c, ite(err, num(1), num(0)), SKIP), ite(c, num(1), SKIP), where)
        for k, v in ((0, -1), (1, 0), (2, 0)):
            c = band(pre, err)
            vg.expect(ctx, what + ': nothing is added when refused (%d)' % k, ite(c, r.out(k), SKIP), ite(c, num(v), SKIP), where)
        good = band(pre, bnot(err))
        # the requested pin fits comfortably: it must be accepted
        accepted(ctx, what, good, [P] + R, [10] + [4 * (i + 1) / n for i in range(n)], where)
        nv = (1 + (sum(rings) + 1) * na + na // 2) if order == 1 else 1 + 4 * na + 3 * na * sum(rings)
        nf = na * (sum(rings) + 1)
        for k, v, t in ((0, 0, 'id'), (order, 1, 'meshes of the requested order'), (3 - order, 0, 'meshes of the other order'),
                        (3, nv, 'vertices'), (4, nf, 'faces')):
            vg.expect(ctx, '%s: %s' % (what, t), ite(good, r.out(k), SKIP), ite(good, num(v), SKIP), where)
        # vertices: their value, tiny numbers may be rounded to zero
        eps = num(rc(Fr('1e-7')))
        V, seen = [], set()
        for i in range(nv):
            xy = []
            for d in range(2):
                x, dd = value(r.out(10 + 2 * i + d), good)
                snap = ite(cmp('lt', num(x), eps), ite(cmp('gt', num(x), alg.neg(eps)), num(0), num(x)), num(x))

                def same(a, b, x=x):
                    # rounding to zero is allowed where it is tiny
                    return close_enough(a, b) or (alg.leaf_eq(b, R0) and close_enough(a, x))
                vg.expect(ctx, '%s: vertex %d %s' % (what, i, 'xy'[d]), dd, ite(good, snap, SKIP), where, eq=same, ties=False)
                xy.append(x)
                if str(x) in seen:
                    continue
                seen.add(str(x))
                for t, c in (('left of or below', cmp('lt', num(x), alg.neg(eps))), ('right of or above', cmp('gt', num(x), alg.add(num(P), eps)))):
                    c = band(good, c)
                    vg.expect(ctx, '%s: vertex %d is not %s the square (%s)' % (what, i, t, 'xy'[d]), ite(c, num(1), SKIP), ite(c, num(0), SKIP), where)
            V.append(xy)
        F = []
        per = 4 * order
        for i in range(nf):
            f = []
            for j in range(per):
                x = vg.single(ite(good, r.out(1000 + i * per + j), SKIP))
                if not isinstance(x, Rat) or not x.is_const() or not 0 <= x.const() < nv:
                    ctx.fail('%s: face %d refers to existing vertices' % (what, i), 'vertex %d of the face is %s, there are %d vertices' % (j, x, nv), where)
                    return
                f.append(int(x.const()))
            F.append(f)
            ctx.ok('%s: face %d refers to existing vertices' % (what, i))
        shape(ctx, what, F, V, order, P, where)
        areas(ctx, what, F, V, order, na, rings, P, R, where)


def sides(f, order):
    return [(f[k], f[(k + 1) % 4], f[4 + k] if order == 2 else None) for k in range(4)]


def shape(ctx, what, F, V, order, P, where):
    """Neighbouring faces share whole edges in opposite directions, the outline is the square."""
    count = {}
    for i, f in enumerate(F):
        for a, b, m in sides(f, order):
            count.setdefault((a, b), []).append((i, m))
    used = set()
    centre = [P / rc(2)] * 2
    for (a, b), l in sorted(count.items()):
        used |= {a, b} | {m for _, m in l if m is not None}
        back = count.get((b, a), [])
        if len(l) != 1 or len(back) > 1 or (back and back[0][1] != l[0][1]):
            ctx.fail('%s: edge %d-%d' % (what, a, b), 'the edge is used by faces %s in this direction and %s in the other, with mid nodes %s' % (
                [i for i, _ in l], [i for i, _ in back], sorted({m for _, m in l + back if m is not None})), where)
        elif not back:
            pts = [V[a], V[b]] + ([V[l[0][1]]] if order == 2 else [])
            on = any(all(close_enough(p[d], v) for p in pts) for d in range(2) for v in (R0, P))
            if not on:
                ctx.fail('%s: outline edge %d-%d' % (what, a, b), 'the edge belongs to one face only and does not lie on the square: %s' % [[str(x) for x in p] for p in pts], where)
            else:
                ctx.ok('%s: outline edge %d-%d lies on the square' % (what, a, b))
        else:
            ctx.ok('%s: edge %d-%d is shared' % (what, a, b))
        m = l[0][1]
        if order == 2 and a < b:
            u, w = [[x - c for x, c in zip(V[k], centre)] for k in (a, b)]
            if close_enough(u[0] * w[1], u[1] * w[0]):
                if all(close_enough(V[m][d] * rc(2), V[a][d] + V[b][d]) for d in range(2)):
                    ctx.ok('%s: radial edge %d-%d is straight' % (what, a, b))
                else:
                    ctx.fail('%s: radial edge %d-%d is straight' % (what, a, b), 'its mid node is %s between %s and %s' % tuple(
                        '(%s, %s)' % tuple(V[k]) for k in (m, a, b)), where)
    lone = sorted(set(range(len(V))) - used)
    if lone:
        ctx.fail('%s: every vertex is used' % what, 'vertices %s belong to no face' % lone, where)
    else:
        ctx.ok('%s: every vertex is used' % what)


def areas(ctx, what, F, V, order, na, rings, P, R, where):
    t = alg.atom('sym', 't')
    pi = vg.pi()
    face = []
    for f in F:
        face.append(vg.boundary_integrals([vg.edge_poly(V[a], V[b], None if m is None else V[m], t) for a, b, m in sides(f, order)], t)[0])

    def check(name, got, want):
        if close_enough(got, want):
            ctx.ok(name)
        else:
            ctx.fail(name, 'the area is\n      %s\n    but the property requires\n      %s' % (got, want), where)
    k = 0
    prev = R0
    for reg, n in enumerate(rings):
        ring = pi * (R[reg] * R[reg] - prev * prev) / rc(n)
        for i in range(n):
            for s in range(na):
                check('%s: area of face %d of ring %d of region %d' % (what, s, i, reg), face[k + s], ring / rc(na))
            k += na
        prev = R[reg]
    tot = R0
    for a in face[k:]:
        tot = tot + a
    check('%s: area outside the last ring' % what, tot, P * P - pi * R[-1] * R[-1])


def cells(ctx, mod, sfx):
    for name, order, names, ok in (('cell_lin', 1, (0, 1, 2), True), ('cell_quad', 2, (2, 0, 0), True), ('cell_missing', 1, None, False),
                                   ('cell_few', 2, None, False), ('cell_order', 3, None, False)):
        what = 'pin cell %s%s' % (name[5:], sfx)
        with ctx.guard(what):
            vg.fresh()
            P, R = IN(0), [IN(1), IN(2)]
            for x in [P] + R:
                vg.within(x, 0, None)
            log = Trig()
            r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': log, 'inf': True}, ('in', 'out'), limit=2000)
            where = r.where()
            pre = cmp('lt', num(R[0]), num(R[1]))
            err = log.cond('error')
            if not ok:
                c = pre
                vg.expect(ctx, what + ': refused', ite(c, ite(err, num(1), num(0)), SKIP), ite(c, num(1), SKIP), where)
            c = band(pre, err)
            for k, v in ((0, -1), (1, 0), (2, 0), (3, 1)):
                vg.expect(ctx, what + ': nothing is added when refused (%d)' % k, ite(c, r.out(k), SKIP), ite(c, num(v), SKIP), where)
            if not ok:
                continue
            c = band(pre, bnot(err))
            accepted(ctx, what, c, [P] + R, [10, 2, 4], where)
            idx = {2: 0, 0: 1, 1: 2}        # the model lists the materials in the order c, a, b
            want = [(0, 1), (order, 1), (3 - order, 0), (3, 2), (4, P), (5, P), (6, 4 * order), (7, 0), (8, 32)]
            for region, count in ((0, 16), (1, 8), (2, 8)):
                want += [(10 + i, idx[names[region]]) for i in range(len(want) - 9, len(want) - 9 + count)]
            for k, v in want:
                vg.expect(ctx, '%s: value %d' % (what, k), ite(c, r.out(k), SKIP), ite(c, num(v), SKIP), where)


def run(ctx):
    ctx.rule = ('Value numbering of the pin mesh generators with symbolic pitch and radii: every vertex coordinate is extracted as an '
                'expression, face areas are integrated from them and compared with the annulus they stand for; every edge is shared by '
                'exactly two faces in opposite directions or lies on the square; faces take the material of their region.')
    ctx.assumptions += ['increasing positive radii', 'numbers of sectors, regions and rings are the listed ones', 'sines and cosines of '
                        'the fixed angles are replaced by their values to 14 digits', 'coordinates below the geometric tolerance may be '
                        'rounded to zero', 'the mesh diagnostics (which only touch clockwise faces) are not followed here']
    skip = LOG + r'|::validate\('
    for asserts in (0,):
        sfx = ''
        bc = ctx.bitcode(harness.VERIF + '/probes/c29.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
        mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=skip, opaque=skip)
        for o, p in ((1, 'lin'), (2, 'quad')):
            for na, rings in ((8, (1,)), (8, (2,)), (8, (2, 1)), (16, (1, 1, 1))):
                pin(ctx, mod, '%s_%d_%s' % (p, na, ''.join(map(str, rings))), o, na, rings, sfx)
        for name in ('order0', 'order3', 'lin_na4', 'lin_na12', 'quad_na4', 'quad_na12', 'lin_count', 'quad_count'):
            with ctx.guard(name):
                vg.fresh()
                log = Trig()
                r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': log, 'inf': True}, ('in', 'out'), limit=2000)
                vg.expect(ctx, 'invalid pin request %s is refused' % name, ite(log.cond('error'), num(1), num(0)), 1, r.where())
                for k, v in ((0, -1), (1, 0), (2, 0)):
                    vg.expect(ctx, 'invalid pin request %s: nothing is added (%d)' % (name, k), r.out(k), v, r.where())
        cells(ctx, mod, sfx)
