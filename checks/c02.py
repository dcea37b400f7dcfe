"""C02: areas, centroids, lengths and mean chords against exact boundary integrals."""
from fractions import Fraction as Q
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, Rat, num, leaf

POLY = {'tri': 3, 'quad': 4, 'tri6': 6, 'quad8': 8}


def edges_of(kind, V):
    n = {'tri': 3, 'quad': 4, 'tri6': 3, 'quad8': 4}[kind]
    q = kind in ('tri6', 'quad8')
    return [(V[i], V[(i + 1) % n], V[n + i] if q else None) for i in range(n)]


def dist(a, b):
    s = R0
    for x, y in zip(a, b):
        s = s + (x - y) * (x - y)
    return alg.fn('sqrt', s)


def qlen_hook(D):
    """Keep the arc length of a quadratic edge opaque: an uninterpreted function of its vertices."""
    def h(ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if '::length() const' in d:
            args = []
            stride = 8 * D
            for k in range(3 * D):
                args.append(ev.load(st, ev.gep(ops[0], num(8 * k)), 'double', 8))
            return alg.call('arclength', *args)
        return None
    return h


def run(ctx):
    ctx.rule = ('area(), centroid(), perimeter(), meanChordLength(), enclosedArea(), enclosedCentroid() and length() '
                'are value-numbered from the IR as rational functions of the vertex coordinates and compared, on every '
                'feasible branch, with the line integrals over the element boundary computed in exact arithmetic.')
    ctx.assumptions.append('real (exact) arithmetic; floating-point rounding is out of scope')
    ctx.assumptions.append('regions excluded by the library\'s own ASSERT preconditions are not compared')
    noin = r'Polytope<1, 2, 3, [23], double>::length\(\) const'
    for simd in (1, 0):
        mod = ctx.probe_module('c02.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd))
        mop = ctx.probe_module('c02.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd), noinline=noin, opaque=noin)
        sfx = '' if simd else ' (array Vec)'
        for kind, n in POLY.items():
            for variant in ('', '_gen', '_mcl'):
                if variant == '_gen' and n > 4:
                    continue
                name = 'probe_' + kind + variant
                with ctx.guard(name + sfx):
                    vg.fresh()
                    r = vg.evaluate(ctx, mop, name, hooks={'call': qlen_hook(2)})
                    V = vg.points(n, 2)
                    t = alg.atom('sym', 't')
                    ed = edges_of(kind, V)
                    A, X, Y = vg.boundary_integrals([vg.edge_poly(*e, t) for e in ed], t)
                    w = r.where()
                    P = R0
                    for a, b, m in ed:
                        if m is None:
                            P = P + dist(a, b)
                        else:
                            P = P + alg.fn('arclength', *(a + b + m))
                    if variant == '_mcl':
                        vg.expect(ctx, kind + ' mean chord length = pi*area/perimeter' + sfx, r.out(0),
                                  vg.pi() * A / P, w)
                        continue
                    vg.expect(ctx, kind + variant + ' area' + sfx, r.out(0), A, w)
                    # centroid * area = first moments
                    for d, M in ((0, X), (1, Y)):
                        vg.expect(ctx, '%s%s centroid[%d]%s' % (kind, variant, d, sfx), r.out(1 + d), M / A, w)
                    if variant == '':
                        vg.expect(ctx, kind + ' perimeter' + sfx, r.out(3), P, w)
                    ctx.sample('%s area = %s' % (kind, A))
        with ctx.guard('tri3d'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_tri3d')
            V = vg.points(3, 3)
            u = [V[1][d] - V[0][d] for d in range(3)]
            v = [V[2][d] - V[0][d] for d in range(3)]
            c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            A = alg.fn('sqrt', c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) * rc(Q(1, 2))
            vg.expect(ctx, 'triangle in space: area' + sfx, r.out(0), A, r.where())
            for d in range(3):
                vg.expect(ctx, 'triangle in space: centroid[%d]%s' % (d, sfx), r.out(1 + d),
                          (V[0][d] + V[1][d] + V[2][d]) * rc(Q(1, 3)), r.where())
            vg.expect(ctx, 'triangle in space: perimeter' + sfx, r.out(4),
                      dist(V[0], V[1]) + dist(V[1], V[2]) + dist(V[2], V[0]), r.where())
        with ctx.guard('quad3d'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_quad3d')
            V = vg.points(4, 3)
            vg.expect(ctx, 'quadrilateral in space: perimeter' + sfx, r.out(0),
                      dist(V[0], V[1]) + dist(V[1], V[2]) + dist(V[2], V[3]) + dist(V[3], V[0]), r.where())
        with ctx.guard('enclosed'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_encl')
            V = vg.points(3, 2)
            t = alg.atom('sym', 't')
            # between the edge and its chord traversed backwards; positive when the edge bulges right
            A, X, Y = vg.boundary_integrals([vg.edge_poly(V[0], V[1], V[2], t), vg.edge_poly(V[1], V[0], None, t)], t)
            vg.expect(ctx, 'area between quadratic edge and chord' + sfx, r.out(0), A, r.where())
            vg.expect(ctx, 'centroid between quadratic edge and chord [0]' + sfx, r.out(1), X / A, r.where())
            vg.expect(ctx, 'centroid between quadratic edge and chord [1]' + sfx, r.out(2), Y / A, r.where())
        for D in (1, 2, 3):
            with ctx.guard('len%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_len_line%d' % D)
                V = vg.points(2, D)
                vg.expect(ctx, 'line segment length %dD%s' % (D, sfx), r.out(0), dist(V[0], V[1]), r.where())
        for D in (2, 3):
            with ctx.guard('qlen%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_qlen%d' % D)
                V = vg.points(3, D)
                B = [rc(-3) * V[0][d] - V[1][d] + rc(4) * V[2][d] for d in range(D)]
                A2 = [rc(2) * V[0][d] + rc(2) * V[1][d] - rc(4) * V[2][d] for d in range(D)]
                dot = lambda p, q: sum((x * y for x, y in zip(p, q)), R0)
                a, b, c = rc(4) * dot(A2, A2), rc(4) * dot(A2, B), dot(B, B)
                sq = lambda x: alg.fn('sqrt', x)
                sa, sc, sabc = sq(a), sq(c), sq(a + b + c)
                # antiderivative of sqrt(a t^2 + b t + c) between 0 and 1
                L = ((rc(2) * a + b) * sabc - b * sc) / (rc(4) * a) - (b * b - rc(4) * a * c) / (rc(8) * a * sa) * (
                    alg.fn('log', rc(2) * sa * sabc + rc(2) * a + b) - alg.fn('log', rc(2) * sa * sc + b))
                straight = alg.cmp('ne', r.out(1), num(0))
                want = alg.ite(straight, leaf(dist(V[0], V[1])), leaf(L))
                vg.expect(ctx, 'arc length of a quadratic segment %dD%s' % (D, sfx), r.out(0), want, r.where(), eq=vg.log_eq)
