"""C01: nodal interpolation and Jacobian of every element kind, for all coordinates."""
from fractions import Fraction as Q
from engine import alg, vg
from engine.alg import rc, R0, R1, Rat

H = Q(1, 2)
T = Q(1, 3)
# element kind -> (parametric coordinates of the nodes, dims, polynomial space of the basis)
KINDS = {
    'line': ([(0,), (1,)], (1, 2, 3)),
    'qseg': ([(0,), (1,), (H,)], (1, 2, 3)),
    'tri': ([(0, 0), (1, 0), (0, 1)], (2, 3)),
    'quad': ([(0, 0), (1, 0), (1, 1), (0, 1)], (2, 3)),
    'tri6': ([(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)], (2, 3)),
    'quad8': ([(0, 0), (1, 0), (1, 1), (0, 1), (H, 0), (1, H), (H, 1), (0, H)], (2, 3)),
}
# degrees allowed in (r, s): exponents of the monomials spanning the element's polynomial space
SPACE = {
    'line': {(0,), (1,)},
    'qseg': {(0,), (1,), (2,)},
    'tri': {(0, 0), (1, 0), (0, 1)},
    'quad': {(0, 0), (1, 0), (0, 1), (1, 1)},
    'tri6': {(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)},
    'quad8': {(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2)},
}


def run(ctx):
    ctx.rule = ('For each element kind and dimension the IR of operator() and jacobian() is value-numbered as a '
                'polynomial in the vertex coordinates and (r, s).  Obligations: the polynomial lies in the nodal '
                'space of the element, equals node k at the parametric coordinates of node k (which fixes it '
                'uniquely), and every Jacobian column equals its formal partial derivative.')
    for simd in (1, 0):
        mod = ctx.probe_module('c01.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd))
        for kind, (nodes, dims) in KINDS.items():
            for D in dims:
                vg.fresh()
                name = 'probe_%s_%d' % (kind, D)
                r = vg.evaluate(ctx, mod, name)
                N = len(nodes)
                np = len(nodes[0])
                params = [vg.IN(N * D + k) for k in range(np)]
                pat = [next(iter(p.atoms())) for p in params]
                w = r.where()
                for d in range(D):
                    tag = '%s%dD[%d]%s' % (kind, D, d, '' if simd else ' (array Vec)')
                    F = vg.single(r.out(d))
                    if not isinstance(F, Rat) or not F.is_poly():
                        ctx.fail(tag + ' interpolation is polynomial',
                                 'the interpolation is not one polynomial: %s' % r.out(d), w)
                        continue
                    # membership in the nodal space
                    bad = None
                    for m in F.num.t:
                        e = tuple(dict(m).get(a, 0) for a in pat)
                        if e not in SPACE[kind]:
                            bad = e
                    if bad:
                        ctx.fail(tag + ' nodal space', 'monomial with parametric exponents %s' % (bad,), w)
                    else:
                        ctx.ok(tag + ' nodal space')
                    for k, nd in enumerate(nodes):
                        v = alg.subst(F, {a: rc(x) for a, x in zip(pat, nd)})
                        want = vg.IN(k * D + d)
                        if alg.rat_eq(v, want):
                            ctx.ok('%s hits node %d' % (tag, k))
                        else:
                            ctx.fail('%s hits node %d' % (tag, k),
                                     'at parametric coordinates %s the element evaluates to %s, node %d is %s' % (
                                         nd, v, k, want), w)
                    # affine reproduction (follows from the nodal conditions, stated separately)
                    for c in range(np):
                        J = r.out(D + c * D + d)
                        vg.expect(ctx, '%s Jacobian column %d' % (tag, c), J, F.diff(pat[c]), w,
                                  what='Jacobian component: ')
                    if d == 0:
                        ctx.sample('%s: F = %s' % (tag, F))
        for D in (2, 3):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_coef_%d' % D)
            for d in range(D):
                v = [vg.IN(k * D + d) for k in range(3)]
                # F(t) = c + b t + a t^2 with F(0)=v0, F(1)=v1, F(1/2)=v2
                c = v[0]
                b = rc(-3) * v[0] - v[1] + rc(4) * v[2]
                a = rc(2) * v[0] + rc(2) * v[1] - rc(4) * v[2]
                for k, want in enumerate((c, b, a)):
                    vg.expect(ctx, 'qseg%dD polynomial coefficient %d' % (D, k), r.out(k * D + d), want, r.where())
    ctx.analysed['elements'] = sum(len(d) for _, d in KINDS.values())
