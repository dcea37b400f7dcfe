"""C06: ray intersections."""
from fractions import Fraction as Q
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, Rat, num, leaf, cmp, ite, band, bor, bnot, TRUE

POLY = {'tri': (3, 1), 'quad': (4, 1), 'tri6': (6, 2), 'quad8': (8, 2)}


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def roots_hook(log):
    """The quadratic solver is replaced by its contract: two unknown parameters for the coefficients it is given."""
    def h(ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if 'solveQuadratic' in d:
            args = [o for o in ops if not any(isinstance(x, ir.Ptr) for x in alg.leaves(o))]
            k = len(log)
            s = [leaf(alg.sym('s%d_%d' % (k, i))) for i in (0, 1)]
            log.append((args, s, cond, ins.get('loc')))
            ptrs = [o for o in ops if any(isinstance(x, ir.Ptr) for x in alg.leaves(o))]
            if ptrs:
                ev.store(st, ptrs[0], s[0], 'double', 8, cond, ins.get('loc'))
                ev.store(st, ev.gep(ptrs[0], num(8)), s[1], 'double', 8, cond, ins.get('loc'))
                return alg.UNDEF
            return tuple(s)
        return None
    return h


def edge_hook(log, nv):
    """Edge intersection replaced by an unknown hit count; records the edge, ray and buffer it is given."""
    def h(ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if '::intersect(' in d:
            this = ops[0]
            verts = [ev.load(st, ev.gep(this, num(8 * k)), 'double', 8) for k in range(2 * nv)]
            flat = []
            ptrs = []
            for o in ops[1:]:
                if isinstance(o, tuple):
                    flat += list(o)
                elif any(isinstance(x, ir.Ptr) for x in alg.leaves(o)):
                    ptrs.append(o)
                else:
                    flat.append(o)
            buf = ptrs[-1]
            for p in ptrs[:-1]:
                flat += [ev.load(st, ev.gep(p, num(8 * k)), 'double', 8) for k in range(4)]
            a = alg.sym('hits%d' % len(log))
            at = next(iter(a.atoms()))
            alg.INT_ATOMS.add(at)
            alg.NONNEG.add(at)
            log.append((verts, flat, buf, leaf(a), cond, ins.get('loc')))
            return leaf(a)
        return None
    return h


def run(ctx):
    ctx.rule = ('Segment/ray intersection: the reported parameter and the hit condition are value-numbered and compared '
                'with the solution of the two curve equations (Cramer for straight, elimination for quadratic edges); the '
                'quadratic solver enters by contract (decided in C09).  Polygon intersection: the sequence of edge calls, '
                'their edges, ray and buffer positions.  Boxes: slab interval.')
    ctx.assumptions += ['real (exact) arithmetic; floating-point rounding is out of scope',
                        'rays parallel to a straight edge (zero determinant) are excluded',
                        'ray directions are unit vectors (the library asserts it)']
    for simd in (1, 0):
        cfg = ctx.config(UM2_ENABLE_SIMD_VEC=simd)
        sfx = '' if simd else ' (array Vec)'
        mod = ctx.probe_module('c06.cpp', cfg)
        with ctx.guard('line'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_line')
            V = vg.points(2, 2)
            O, D = vg.points(1, 2, 4)[0], vg.points(1, 2, 6)[0]
            v = [V[1][d] - V[0][d] for d in (0, 1)]
            u = [O[d] - V[0][d] for d in (0, 1)]
            z = cross(v, D)
            s, t = cross(u, D) / z, cross(u, v) / z
            zv = alg.cmp('eq', num(z), num(0))

            def nonpar(path):
                return not any(i == 1 and alg.rat_eq(alg.Rat(alg._VARS[x]) / z if False else Rat(alg._VARS[x]), z) or
                               (i == 1 and alg.rat_eq(Rat(alg._VARS[x]), -z)) for x, i in path)
            hit = band(band(cmp('le', num(0), num(s)), cmp('le', num(s), num(1))), cmp('le', num(0), num(t)))
            vg.expect(ctx, 'line segment: hit iff the segment parameter is in [0,1] and the ray parameter >= 0' + sfx,
                      r.out(0), ite(hit, num(1), num(0)), r.where(), assume=nonpar)
            got = ite(hit, r.out(1), vg.SKIP)
            vg.expect(ctx, 'line segment: ray parameter of the common point' + sfx, got, num(t), r.where(), assume=nonpar)
        with ctx.guard('qseg'):
            vg.fresh()
            m2 = ctx.probe_module('c06.cpp', cfg, noinline='solveQuadratic', opaque='solveQuadratic')
            log = []
            r = vg.evaluate(ctx, m2, 'probe_qseg', hooks={'call': roots_hook(log)})
            V = vg.points(3, 2)
            O, D = vg.points(1, 2, 6)[0], vg.points(1, 2, 8)[0]
            w = r.where()
            if len(log) != 1:
                ctx.error('quadratic segment: expected one call of the quadratic solver, found %d' % len(log))
            else:
                args, s, cond, loc = log[0]
                C = V[0]
                B = [rc(-3) * V[0][d] - V[1][d] + rc(4) * V[2][d] for d in (0, 1)]
                A = [rc(2) * V[0][d] + rc(2) * V[1][d] - rc(4) * V[2][d] for d in (0, 1)]
                oc = [C[d] - O[d] for d in (0, 1)]
                co = [cross(A, D), cross(B, D), cross(oc, D)]
                # the coefficients matter up to a common factor
                got = [vg.single(a) for a in args]
                nm = 'quadratic segment: solver receives the equation of the common points' + sfx
                if len(got) == 3 and all(isinstance(g, Rat) for g in got) and \
                        all(alg.rat_eq(got[i] * co[j], got[j] * co[i]) for i in range(3) for j in range(i)) and \
                        not all(alg.rat_eq(g, R0) for g in got):
                    ctx.ok(nm)
                else:
                    ctx.fail(nm, 'coefficients %s; the ray line and the segment meet where %s' % (
                        [str(g) for g in got], [str(c) for c in co]), w)
                hits = []
                for k in (0, 1):
                    sk = s[k].leaf
                    Rk = sum(((oc[d] + sk * (B[d] + sk * A[d])) * D[d] for d in (0, 1)), R0)
                    ok = band(band(cmp('le', num(0), num(sk)), cmp('le', num(sk), num(1))), cmp('le', num(0), num(Rk)))
                    hits.append((ok, Rk))
                cnt = alg.add(ite(hits[0][0], num(1), num(0)), ite(hits[1][0], num(1), num(0)))
                vg.expect(ctx, 'quadratic segment: number of hits' + sfx, r.out(0), cnt, w)
                both = band(hits[0][0], hits[1][0])
                first = ite(hits[0][0], num(hits[0][1]), ite(hits[1][0], num(hits[1][1]), vg.SKIP))
                second = ite(both, num(hits[1][1]), vg.SKIP)

                # the set of reported parameters, in any order
                def setdiff():
                    a = alg.diff_values(r.out(1), first)
                    b = alg.diff_values(r.out(2), second)
                    if not a and not b:
                        return None
                    swapped = ite(both, num(hits[1][1]), first)
                    second2 = ite(both, num(hits[0][1]), vg.SKIP)
                    if not alg.diff_values(r.out(1), swapped) and not alg.diff_values(r.out(2), second2):
                        return None
                    return (a or b)[0]
                d = setdiff()
                nm = 'quadratic segment: reported parameters are those of the valid common points' + sfx
                if d is None:
                    ctx.ok(nm)
                else:
                    ctx.fail(nm, 'when %s the code reports %s, expected %s' % (alg.conds_str(d[0]), d[1], d[2]), w)
        for kind, (n, p) in POLY.items():
            with ctx.guard(kind):
                vg.fresh()
                rx = r'Polytope<1, [12], [23], 2, double>::intersect\('
                m3 = ctx.probe_module('c06.cpp', cfg, noinline=rx, opaque=rx)
                log = []
                r = vg.evaluate(ctx, m3, 'probe_' + kind, hooks={'call': edge_hook(log, p + 1)})
                V = vg.points(n, 2)
                ne = n // p
                w = r.where()
                nm = kind + ': every edge is intersected once, in some order' + sfx
                want = {tuple(str(x) for j in ([i, (i + 1) % ne] + ([ne + i] if p == 2 else [])) for x in V[j]) for i in range(ne)}
                got = [tuple(str(vg.single(x)) for x in l[0]) for l in log]
                if sorted(got) == sorted(want):
                    ctx.ok(nm)
                else:
                    bad = [g for g in got if g not in want] or [g for g in got if got.count(g) > 1] or list(want - set(got))
                    ctx.fail(nm, 'edges intersected: %s; offending edge %s' % (len(got), bad[:1]), w)
                tot = num(0)
                ray = [vg.IN(2 * n + k) for k in range(4)]
                for i, (verts, flat, buf, cnt, cond, loc) in enumerate(log):
                    bp = vg.single(buf)
                    exp = alg.add(num(8), alg.mul(num(8), tot))
                    nm = '%s: edge call %d writes after the hits so far%s' % (kind, i, sfx)
                    if isinstance(bp, ir.Ptr) and bp.base == 'out' and not alg.diff_values(leaf(bp.off), exp):
                        ctx.ok(nm)
                    else:
                        ctx.fail(nm, 'buffer position is %s, expected out+%s' % (bp, vg.single(exp)), w)
                    nm = '%s: edge call %d uses the ray given%s' % (kind, i, sfx)
                    if [str(vg.single(x)) for x in flat] == [str(x) for x in ray]:
                        ctx.ok(nm)
                    else:
                        ctx.fail(nm, 'ray passed on: %s' % [str(vg.single(x)) for x in flat], w)
                    tot = alg.add(tot, cnt)
                vg.expect(ctx, kind + ': returns the total number of hits' + sfx, r.out(0), tot, w)
        for D in (1, 2, 3):
            with ctx.guard('box%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_box%d' % D)
                tmin, tmax = num(0), num(rc(10**8))
                mn = lambda a, b: ite(cmp('lt', a, b), a, b)
                mx = lambda a, b: ite(cmp('lt', a, b), b, a)
                for i in range(D):
                    o, inv = vg.IN(2 * D + i), vg.IN(4 * D + i)
                    t1, t2 = num((vg.IN(i) - o) * inv), num((vg.IN(D + i) - o) * inv)
                    tmin = mx(tmin, mn(t1, t2))
                    tmax = mn(tmax, mx(t1, t2))
                miss = cmp('gt', tmin, tmax)
                if D < 3:
                    vg.expect(ctx, 'box %dD: entry parameter%s' % (D, sfx), r.out(0), ite(miss, num(-1), tmin), r.where(), ties=D < 2)
                    vg.expect(ctx, 'box %dD: exit parameter%s' % (D, sfx), r.out(1), ite(miss, num(-1), tmax), r.where(), ties=D < 2)
            with ctx.guard('boxr%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_boxr%d' % D)
                for k in (0, 1):
                    vg.expect(ctx, 'box %dD: both overloads agree [%d]%s' % (D, k, sfx), r.out(k), r.out(2 + k), r.where())
                for i in range(D):
                    d = vg.IN(3 * D + i)
                    vg.expect(ctx, 'inverse direction %dD[%d]%s' % (D, i, sfx), r.out(4 + i), R1 / d, r.where())
                    vg.expect(ctx, 'point on ray %dD[%d]%s' % (D, i, sfx), r.out(4 + D + i), vg.IN(2 * D + i) + vg.IN(4 * D) * d, r.where())
