"""C09: statistics and root solvers."""
from fractions import Fraction as Q
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, Rat, num, leaf, cmp, ite, band, bor, bnot

INVALID = rc(10**16)


def sum_hook(n):
    """Recursive sums over strictly shorter ranges enter by the induction hypothesis."""
    def h(ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if 'Sum' in d or '::sum' in d:
            b, e = vg.single(ops[0]), vg.single(ops[1])
            if isinstance(b, ir.Ptr) and isinstance(e, ir.Ptr) and b.base == e.base and (e.off - b.off).is_const() and b.off.is_const():
                k0, k1 = int(b.off.const()) // 8, int(e.off.const()) // 8
                if 0 < k1 - k0 < n:
                    return leaf(sum((vg.IN(k) for k in range(k0, k1)), R0))
        return None
    return h


def solve_hook(log):
    def h(ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if 'solveQuadratic' in d:
            ptrs = [o for o in ops if any(isinstance(x, ir.Ptr) for x in alg.leaves(o))]
            args = [o for o in ops if o not in ptrs]
            s = [leaf(alg.sym('q%d' % i)) for i in (0, 1)]
            log.append((args, cond))
            if ptrs:
                ev.store(st, ptrs[0], s[0], 'double', 8, cond, ins.get('loc'))
                ev.store(st, ev.gep(ptrs[0], num(8)), s[1], 'double', 8, cond, ins.get('loc'))
                return alg.UNDEF
            return tuple(s)
        return None
    return h


def run(ctx):
    ctx.rule = ('Statistics of 1-8 elements (and sums of 128-257 elements, recursive halves by induction) compared with their '
                'definition.  Quadratic solver: on every region of the sign diagram each reported root satisfies the equation, '
                'roots are ascending, their number follows the discriminant.  Cubic solver: the deflated quadratic handed to the '
                'quadratic solver is the exact quotient by the reported root.')
    ctx.assumptions += ['real (exact) arithmetic', 'convergence of the Newton iteration of the cubic solver is not decided: the '
                        'root it ends with is taken as a root']
    mod = ctx.probe_module('c09.cpp')
    for n in (1, 2, 3, 4, 5, 8):
        X = [vg.IN(k) for k in range(n)]
        for what in ('sum', 'mean', 'median', 'variance', 'stddev'):
            if what in ('variance', 'stddev') and n not in (2, 3, 4, 5):
                continue
            with ctx.guard('%s%d' % (what, n)):
                vg.fresh()
                X = [vg.IN(k) for k in range(n)]
                r = vg.evaluate(ctx, mod, 'probe_%s%d' % (what, n), hooks={'call': sum_hook(n)})
                S = sum(X, R0)
                mean = S / rc(n)
                if what == 'sum':
                    want = S
                elif what == 'mean':
                    want = mean
                elif what == 'median':
                    want = X[n // 2] if n % 2 else (X[n // 2] + X[n // 2 - 1]) / rc(2)
                else:
                    want = sum(((x - mean) * (x - mean) for x in X), R0) / rc(n - 1)
                    if what == 'stddev':
                        want = alg.fn('sqrt', want)
                vg.expect(ctx, '%s of %d elements' % (what, n), r.out(0), want, r.where())
    for n in (128, 129, 130, 257):
        with ctx.guard('bigsum%d' % n):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_bigsum%d' % n, hooks={'call': sum_hook(n)}, limit=300)
            vg.expect(ctx, 'sum of %d elements' % n, r.out(0), sum((vg.IN(k) for k in range(n)), R0), r.where())
    with ctx.guard('disc'):
        vg.fresh()
        r = vg.evaluate(ctx, mod, 'probe_disc')
        a, b, c = [vg.IN(k) for k in range(3)]
        vg.expect(ctx, 'discriminant', r.out(0), b * b - rc(4) * a * c, r.where())
    with ctx.guard('quadratic'):
        vg.fresh()
        r = vg.evaluate(ctx, mod, 'probe_quadratic')
        a, b, c = [vg.IN(k) for k in range(3)]
        disc = b * b - rc(4) * a * c
        w = r.where()
        o = [r.out(0), r.out(1)]
        for i in (0, 1):
            res = alg.apply(lambda x: R0 if alg.rat_eq(x, INVALID) else a * x * x + b * x + c, ('res',), o[i])
            vg.expect(ctx, 'quadratic: root %d satisfies the equation' % i, res, num(0), w)
            isinv = alg.apply(lambda x: rc(1 if alg.rat_eq(x, INVALID) else 0), ('isinv',), o[i])
            real = ite(cmp('eq', num(a), num(0)),
                       ite(cmp('eq', num(b), num(0)), num(1), num(i)),
                       ite(cmp('lt', num(disc), num(0)), num(1), num(0)))
            vg.expect(ctx, 'quadratic: root %d is reported exactly when it exists' % i, isinv, real, w)
        both = band(cmp('ne', num(a), num(0)), cmp('ge', num(disc), num(0)))
        s = ite(both, alg.add(o[0], o[1]), vg.SKIP)
        vg.expect(ctx, 'quadratic: the two roots sum to -b/a', s, -b / a, w)
        gt = ite(cmp('gt', o[0], o[1]), num(1), num(0))
        gt = ite(both, gt, num(0))
        vg.expect(ctx, 'quadratic: roots ascend', gt, num(0), w, eq=sorted_eq)
    with ctx.guard('cubic'):
        vg.fresh()
        mc = ctx.probe_module('c09.cpp', noinline='solveQuadratic', opaque='solveQuadratic')
        log = []
        r = vg.evaluate(ctx, mc, 'probe_cubic', hooks={'call': solve_hook(log), 'havoc': True})
        a, b, c, d = [vg.IN(k) for k in range(4)]
        w = r.where()
        if len(log) != 1:
            ctx.error('cubic: expected one call of the quadratic solver, found %d' % len(log))
            return
        args = [ite(log[0][1], x, vg.SKIP) for x in log[0][0]]
        q = [alg.sym('q%d' % i) for i in (0, 1)]
        # all reported roots: the two of the quadratic and x
        outs = [r.out(i) for i in range(3)]
        tot = alg.add(alg.add(outs[0], outs[1]), outs[2])
        x = alg.sub(tot, num(q[0] + q[1]))
        lead = ite(cmp('eq', num(a), num(0)), num(b), num(a))
        vg.expect(ctx, 'cubic: leading coefficient of the deflated quadratic', args[0], lead, w)
        za = cmp('eq', num(a), num(0))
        zd = cmp('eq', num(d), num(0))
        # (X - x)(A X^2 + B X + C) = a X^3 + b X^2 + c X + d, given that x is a root
        rest = alg.neg(alg.mul(x, alg.add(alg.mul(num(a), alg.mul(x, x)), alg.add(alg.mul(num(b), x), num(c)))))

        def on_root(v, xv):
            """Normal form of v modulo the equation of the root."""
            at = next(iter(d.atoms()))
            return alg.subst(v, {at: -(xv * (a * xv * xv + b * xv + c))})
        for i, (nm, f0, f1) in enumerate((('linear', c, lambda X: a * X + b), ('constant', d, lambda X: (a * X + b) * X + c))):
            def leafcheck(v, X):
                if v is alg.UNDEF_V or X is alg.UNDEF_V:
                    return rc(1)
                if alg.rat_eq(X, R0):
                    return R0 if alg.rat_eq(v, b if i == 0 else c) else R1
                return R0 if alg.rat_eq(on_root(v, X), on_root(f1(X), X)) else R1
            bad = alg.apply(leafcheck, ('deflate', i), args[1 + i], x)
            bad = ite(za, ite(cmp('eq', args[1 + i], num(f0)), num(0), num(1)), bad)
            vg.expect(ctx, 'cubic: %s coefficient of the deflated quadratic' % nm, bad, num(0), w)
        gone = ite(za, ite(cmp('eq', x, num(INVALID)), num(0), num(1)), ite(zd, ite(cmp('eq', x, num(0)), num(0), num(1)), num(0)))
        vg.expect(ctx, 'cubic: third root when the equation is quadratic or has root zero', gone, num(0), w)
        asc = bor(cmp('gt', outs[0], outs[1]), cmp('gt', outs[1], outs[2]))
        asc = ite(asc, num(1), num(0))
        vg.expect(ctx, 'cubic: roots ascend', asc, num(0), w)


def sorted_eq(x, y):
    return alg.leaf_eq(x, y)
