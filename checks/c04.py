"""C04: vector, matrix and box algebra in every supported dimension and representation."""
from fractions import Fraction as Q
from engine import alg, vg
from engine.alg import rc, ra, R0, R1, Rat, num, leaf, cmp, ite, band, bor, bnot


def dmin(a, b):
    return ite(cmp('lt', num(a), num(b)), num(a), num(b))


def dmax(a, b):
    return ite(cmp('lt', num(a), num(b)), num(b), num(a))


def boolnum(d):
    return ite(d, num(1), num(0))


def run(ctx):
    ctx.rule = ('Every operator and member of the small vector, matrix and axis-aligned box types is instantiated per '
                'dimension, value-numbered from IR and compared component by component with its mathematical '
                'definition, for the SIMD and the array representation.')
    ctx.assumptions.append('real (exact) arithmetic; floating-point rounding is out of scope')
    for simd in (1, 0):
        mod = ctx.probe_module('c04.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd))
        sfx = '' if simd else ' (array Vec)'

        def start(name):
            vg.fresh()
            return vg.evaluate(ctx, mod, 'probe_' + name)
        for D in (1, 2, 3, 4):
            with ctx.guard('arith%d' % D):
                r = start('arith%d' % D)
                u = [vg.IN(i) for i in range(D)]
                v = [vg.IN(D + i) for i in range(D)]
                s = vg.IN(2 * D)
                spec = [('-u', lambda i: -u[i]), ('u+v', lambda i: u[i] + v[i]), ('u-v', lambda i: u[i] - v[i]),
                        ('u*v', lambda i: u[i] * v[i]), ('u/v', lambda i: u[i] / v[i]), ('s+u', lambda i: s + u[i]),
                        ('u+s', lambda i: u[i] + s), ('s-u', lambda i: s - u[i]), ('u-s', lambda i: u[i] - s),
                        ('s*u', lambda i: s * u[i]), ('u*s', lambda i: s * u[i]), ('u/s', lambda i: u[i] / s),
                        ('s/u', lambda i: s / u[i]), ('zero', lambda i: R0), ('u*3', lambda i: rc(3) * u[i]),
                        ('7+u', lambda i: rc(7) + u[i]), ('u/5', lambda i: u[i] * rc(Q(1, 5))),
                        ('u-2', lambda i: u[i] - rc(2)), ('u=s', lambda i: s),
                        ('midpoint', lambda i: (u[i] + v[i]) * rc(Q(1, 2)))]
                for k, (n, f) in enumerate(spec):
                    for i in range(D):
                        vg.expect(ctx, '%s in %dD [%d]%s' % (n, D, i, sfx), r.out(k * D + i), f(i), r.where())
            with ctx.guard('scal%d' % D):
                r = start('scal%d' % D)
                u = [vg.IN(i) for i in range(D)]
                v = [vg.IN(D + i) for i in range(D)]
                dot = sum((a * b for a, b in zip(u, v)), R0)
                nn = sum((a * a for a in u), R0)
                dd = sum(((a - b) * (a - b) for a, b in zip(u, v)), R0)
                sq = lambda x: alg.call('sqrt', num(x))
                for k, (n, w) in enumerate([('dot', num(dot))] * 2 + [('squared norm', num(nn))] * 2 + [('norm', sq(nn))] * 2 +
                                           [('squared distance', num(dd)), ('distance', sq(dd))]):
                    vg.expect(ctx, '%s in %dD (#%d)%s' % (n, D, k, sfx), r.out(k), w, r.where())
                for i in range(D):
                    for o in (8 + i, 8 + D + i):
                        vg.expect(ctx, 'normalized in %dD out[%d]%s' % (D, o, sfx), r.out(o), alg.div(num(u[i]), sq(nn)), r.where())
            with ctx.guard('cmp%d' % D):
                r = start('cmp%d' % D)
                u = [vg.IN(i) for i in range(D)]
                v = [vg.IN(D + i) for i in range(D)]
                eq, lt = leaf(True), leaf(False)
                for i in reversed(range(D)):
                    eq = band(cmp('eq', num(u[i]), num(v[i])), eq)
                    lt = bor(cmp('lt', num(u[i]), num(v[i])), band(cmp('eq', num(u[i]), num(v[i])), lt))
                dd = sum(((a - b) * (a - b) for a, b in zip(u, v)), R0)
                eps = vg.single(r.out(8))
                specs = [('==', eq), ('!=', bnot(eq)), ('<', lt), ('>', bnot(bor(lt, eq))), ('<=', bor(lt, eq)), ('>=', bnot(lt)),
                         ('isApprox(eps2)', cmp('lt', num(dd), num(vg.IN(2 * D)))),
                         ('isApprox', cmp('lt', num(dd), num(eps * eps)))]
                for k, (n, w) in enumerate(specs):
                    # the default squared tolerance is rounded, compare it up to rounding
                    vg.expect(ctx, '%s in %dD%s' % (n, D, sfx), r.out(k), boolnum(w), r.where())
            with ctx.guard('minmax%d' % D):
                r = start('minmax%d' % D)
                for i in range(D):
                    a, b = vg.IN(i), vg.IN(D + i)
                    vg.expect(ctx, 'min in %dD [%d]%s' % (D, i, sfx), r.out(i), dmin(a, b), r.where())
                    vg.expect(ctx, 'max in %dD [%d]%s' % (D, i, sfx), r.out(D + i), dmax(a, b), r.where())
        with ctx.guard('cross'):
            r = start('cross')
            u = [vg.IN(i) for i in range(3)]
            v = [vg.IN(3 + i) for i in range(3)]
            for o in (0, 3):
                for i in range(3):
                    j, k = (i + 1) % 3, (i + 2) % 3
                    vg.expect(ctx, '3D cross product out[%d]%s' % (o + i, sfx), r.out(o + i), u[j] * v[k] - u[k] * v[j], r.where())
            a = [vg.IN(i) for i in range(4)]
            for o in (6, 7, 8):
                vg.expect(ctx, '2D cross product / determinant out[%d]%s' % (o, sfx), r.out(o), a[0] * a[3] - a[1] * a[2], r.where())
        for M, N in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 4)):
            with ctx.guard('mat%d%d' % (M, N)):
                r = start('mat%d%d' % (M, N))
                A = lambda i, j: vg.IN(j * M + i)
                B = lambda i, j: vg.IN(M * N + j * M + i)
                for i in range(M):
                    for j in range(N):
                        k = j * M + i
                        vg.expect(ctx, 'matrix sum %dx%d(%d,%d)%s' % (M, N, i, j, sfx), r.out(k), A(i, j) + B(i, j), r.where())
                        vg.expect(ctx, 'matrix difference %dx%d(%d,%d)%s' % (M, N, i, j, sfx), r.out(M * N + k), A(i, j) - B(i, j), r.where())
                        vg.expect(ctx, 'linear matrix access %dx%d(%d)%s' % (M, N, k, sfx), r.out(2 * M * N + M + k), A(i, j), r.where())
                        vg.expect(ctx, 'zero matrix %dx%d(%d)%s' % (M, N, k, sfx), r.out(3 * M * N + M + k), R0, r.where())
                    w = sum((A(i, j) * vg.IN(M * N + j) for j in range(N)), R0)
                    vg.expect(ctx, 'matrix-vector product %dx%d[%d]%s' % (M, N, i, sfx), r.out(2 * M * N + i), w, r.where())
        for M, N, P in ((2, 2, 2), (3, 3, 3), (2, 3, 2), (3, 2, 3), (2, 2, 3), (3, 3, 2)):
            with ctx.guard('mm'):
                r = start('mm%d%d%d' % (M, N, P))
                for i in range(M):
                    for j in range(P):
                        w = sum((vg.IN(k * M + i) * vg.IN(M * N + j * N + k) for k in range(N)), R0)
                        vg.expect(ctx, 'matrix product %dx%d by %dx%d (%d,%d)%s' % (M, N, N, P, i, j, sfx), r.out(j * M + i), w, r.where())
        with ctx.guard('ident'):
            r = start('ident')
            for n, o in ((2, 0), (3, 4)):
                for i in range(n):
                    for j in range(n):
                        vg.expect(ctx, 'identity %d(%d,%d)%s' % (n, i, j, sfx), r.out(o + j * n + i), R1 if i == j else R0, r.where())
        with ctx.guard('inv'):
            r = start('inv')
            m = [vg.IN(i) for i in range(4)]
            det = m[0] * m[3] - m[1] * m[2]
            for k, w in enumerate((m[3], -m[1], -m[2], m[0])):
                vg.expect(ctx, '2x2 inverse[%d]%s' % (k, sfx), r.out(k), w / det, r.where())
        with ctx.guard('rot'):
            r = start('rot')
            c, s = alg.call('cos', num(vg.IN(0))), alg.call('sin', num(vg.IN(0)))
            for k, w in enumerate((c, s, alg.neg(s), c)):
                vg.expect(ctx, 'rotation matrix[%d]%s' % (k, sfx), r.out(k), w, r.where())
        for D in (1, 2, 3):
            with ctx.guard('box%d' % D):
                r = start('box%d' % D)
                lo = [vg.IN(i) for i in range(D)]
                hi = [vg.IN(D + i) for i in range(D)]
                s = vg.IN(4 * D)
                h = rc(Q(1, 2))
                for i in range(D):
                    for k, n, w in ((0, 'minima', lo[i]), (1, 'maxima', hi[i]), (2, 'extents', hi[i] - lo[i]), (3, 'centroid', (lo[i] + hi[i]) * h),
                                    (4, 'minima(i)', lo[i]), (5, 'maxima(i)', hi[i]), (6, 'extents(i)', hi[i] - lo[i]),
                                    (7, 'scaled minima', (lo[i] + hi[i]) * h - s * (hi[i] - lo[i]) * h),
                                    (8, 'scaled maxima', (lo[i] + hi[i]) * h + s * (hi[i] - lo[i]) * h)):
                        vg.expect(ctx, 'box %s %dD[%d]%s' % (n, D, i, sfx), r.out(k * D + i), w, r.where())
            with ctx.guard('boxu%d' % D):
                r = start('boxu%d' % D)
                g = lambda k: [vg.IN(k * D + i) for i in range(D)]
                a0, a1, b0, b1 = g(0), g(1), g(2), g(3)
                inf = r.out(6 * D)
                for i in range(D):
                    for k, n, w in ((0, 'union minima', dmin(a0[i], b0[i])), (1, 'union maxima', dmax(a1[i], b1[i])),
                                    (2, 'box with point minima', dmin(a0[i], b0[i])), (3, 'box with point maxima', dmax(a1[i], b0[i])),
                                    (4, 'empty box minima', inf), (5, 'empty box maxima', alg.neg(inf))):
                        vg.expect(ctx, '%s %dD[%d]%s' % (n, D, i, sfx), r.out(k * D + i), w, r.where())
            with ctx.guard('boxc%d' % D):
                r = start('boxc%d' % D)
                w = leaf(True)
                for i in range(D):
                    lo, hi, p = vg.IN(i), vg.IN(D + i), vg.IN(2 * D + i)
                    w = band(w, band(cmp('le', num(lo), num(p)), cmp('le', num(p), num(hi))))
                vg.expect(ctx, 'box contains point %dD%s' % (D, sfx), r.out(0), boolnum(w), r.where())
            with ctx.guard('boxi%d' % D):
                r = start('boxi%d' % D)
                w = leaf(True)
                for i in range(D):
                    a0, a1, b0, b1 = (vg.IN(k * D + i) for k in range(4))
                    w = band(w, band(cmp('le', num(a0), num(b1)), cmp('le', num(b0), num(a1))))
                vg.expect(ctx, 'boxes intersect %dD%s' % (D, sfx), r.out(0), boolnum(w), r.where())
            with ctx.guard('boxp%d' % D):
                r = start('boxp%d' % D)
                for i in range(D):
                    a, b, c = (vg.IN(k * D + i) for k in range(3))
                    vg.expect(ctx, 'bounding box of points, minima %dD[%d]%s' % (D, i, sfx), r.out(i),
                              alg.apply(lambda x: x, dmin3(a, b, c)) if False else dmin3(a, b, c), r.where())
                    vg.expect(ctx, 'bounding box of points, maxima %dD[%d]%s' % (D, i, sfx), r.out(D + i), dmax3(a, b, c), r.where())


def dmin3(a, b, c):
    return ite(band(cmp('le', num(a), num(b)), cmp('le', num(a), num(c))), num(a), dmin(b, c))


def dmax3(a, b, c):
    return ite(band(cmp('le', num(b), num(a)), cmp('le', num(c), num(a))), num(a), dmax(b, c))
