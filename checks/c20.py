"""C20: material composition builders."""
from fractions import Fraction as Fr
from engine import alg, harness, ir, vg
from engine.alg import rc, ra, R0, num, cmp, ite, band, bor
from engine.vg import IN, SKIP
from engine.ir import Unsupported
from checks.c19 import LOG, Log

NAV = Fr('0.602214076')
# AME atomic masses and the natural abundances the documentation of the builder lists
MASS = {92234: '234.040946', 92235: '235.043923', 92236: '236.045562', 92238: '238.050783', 8016: '15.9949146',
        64152: '151.919786', 64154: '153.920861', 64155: '154.922618', 64156: '155.922118', 64157: '156.923956',
        64158: '157.924019', 64160: '159.927049', 1001: '1.0078250', 94239: '239.0521634'}
MASS = {k: Fr(v) for k, v in MASS.items()}
GD = {64152: '0.20', 64154: '2.18', 64155: '14.80', 64156: '20.47', 64157: '15.65', 64158: '24.84', 64160: '21.86'}
GD = {k: Fr(v) / 100 for k, v in GD.items()}
TOL = Fr(1, 50000)


def close(a, b, tol=TOL):
    """Equality of rational functions up to the accuracy of the tabulated constants."""
    if not (isinstance(a, alg.Rat) and isinstance(b, alg.Rat)):
        return a == b
    p, q = (a.num * b.den).t, (b.num * a.den).t
    if not p and not q:
        return True
    top = max(abs(Fr(c)) for t in (p, q) for c in t.values())
    for m in set(p) | set(q):
        x, y = Fr(p.get(m, 0)), Fr(q.get(m, 0))
        if abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > Fr(1, 10**12) * top:
            return False
    return True


class Text(Log):
    """Character classification and number conversion of the C library."""

    def byte(self, ev, st, p, k):
        v = vg.single(ev.load_at(st, p.base, p.off + rc(k), 'i8', 1))
        if v is None or not isinstance(v, alg.Rat):
            raise Unsupported('character of a number is not a single value')
        return v

    def __call__(self, ev, ins, ops, st, cond):
        r = Log.__call__(self, ev, ins, ops, st, cond)
        if r is not None:
            return r
        d = (ins.get('dem') or '').split('(')[0]
        if d in ('isalpha', 'isdigit'):
            def f(x):
                if not x.is_const():
                    # the letters of the symbol are inputs
                    return num(1 if d == 'isalpha' else 0)
                c = chr(int(x.const()))
                return num(int(c.isalpha() if d == 'isalpha' else c.isdigit()))
            return ir.map_leaves(f, ops[0])
        if d in ('strtol', '__isoc23_strtol'):
            p = vg.single(ops[0])
            if p is None:
                raise Unsupported('number text is not a single object')
            n = k = 0
            while True:
                c = self.byte(ev, st, p, k)
                if not c.is_const() or not 48 <= c.const() <= 57:
                    break
                n, k = 10 * n + int(c.const()) - 48, k + 1
            e = vg.single(ops[1])
            if isinstance(e, ir.Ptr) and e.base != ('null',):
                ev.store(st, ops[1], alg.leaf(ir.Ptr(p.base, p.off + rc(k))), 'ptr', 8, cond, ins.get('loc'))
            return num(n)
        return None


def density_of(r, z, most):
    """Sum of the number densities listed under a nuclide."""
    n = r.out(0)
    tot = num(0)
    for i in range(most):
        have = band(cmp('gt', n, num(i)), cmp('eq', r.out(2 + 2 * i), num(z)))
        if have is not alg.FALSE:
            tot = alg.add(tot, ite(have, r.out(3 + 2 * i), num(0)))
    return tot


def composition(ctx, what, r, want, pre, most):
    """want: nuclide -> number density diagram."""
    log = r.log
    n = num(len(want))
    vg.expect(ctx, what + ': number of nuclides', ite(pre, r.out(0), SKIP), ite(pre, n, SKIP), r.where())
    vg.expect(ctx, what + ': number of densities', ite(pre, r.out(1), SKIP), ite(pre, n, SKIP), r.where())
    for z, w in sorted(want.items()):
        vg.expect(ctx, '%s: number density of %d' % (what, z), ite(pre, density_of(r, z, most), SKIP), ite(pre, w, SKIP),
                  r.where(), eq=close)
    bad = ite(pre, ite(log.cond('error'), num(1), num(0)), SKIP)
    vg.expect(ctx, what + ': no error is reported', bad, 0, r.where(), what='(1: reported) ')
    vg.accepts(ctx, what, r, pre)


def conserved(ctx, what, r, zs, pre, most, rho):
    """Sum of N_i m_i over the nuclides equals density times Avogadro's number."""
    tot = num(0)
    for z in zs:
        tot = alg.add(tot, alg.mul(density_of(r, z, most), num(rc(MASS[z]))))
    vg.expect(ctx, what + ': mass of the nuclides', ite(pre, tot, SKIP), ite(pre, alg.mul(num(rho), num(rc(NAV))), SKIP),
              r.where(), eq=close)


def run(ctx):
    ctx.rule = ('Global value numbering of the composition builders: the number density of every nuclide is extracted as a rational '
                'function of density, enrichment and fractions and compared coefficient by coefficient with the definition; '
                'the conditions under which an error is reported are compared as sign diagrams.')
    ctx.assumptions += ['0 < density, 0 < enrichment, 0 <= gadolinia fraction < 1, enrichment small enough for a positive U-238 fraction',
                        'constants are compared to a relative accuracy of 2e-5 (atomic masses are tabulated to five or six digits)',
                        'exact arithmetic in place of rounding']
    for asserts in (1, 0):
        sfx = '' if asserts else ' (assertions off)'
        bc = ctx.bitcode(harness.VERIF + '/probes/c20.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
        mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=LOG, opaque=LOG)

        def ev(name, args, *boxes):
            vg.fresh()
            for x, lo, hi in boxes:
                vg.within(IN(x), lo, hi)
            log = Text()
            full = 'probe_' + name
            r = vg.evaluate(ctx, mod, full, {'call': log, 'setup': vg.static_init(mod, full)}, args, limit=1000)
            r.log = log
            return r
        # uranium dioxide with and without gadolinia
        for nm in ('uo2', 'uo2zero', 'uo2plain'):
            with ctx.guard(nm):
                what = {'uo2': 'uranium dioxide with gadolinia', 'uo2zero': 'uranium dioxide with no gadolinia', 'uo2plain': 'uranium dioxide'}[nm] + sfx
                r = ev(nm, ('in', 'out'), (0, 0, None), (1, 0, Fr(49, 50)), (2, 0, 1))
                rho, w = IN(0), IN(1)
                g = IN(2) if nm == 'uo2' else R0
                f = {92234: w * rc(Fr('0.0089')), 92235: w, 92236: w * rc(Fr('0.0046'))}
                f[92238] = rc(1) - f[92234] - w - f[92236]
                inv = R0
                for z, x in f.items():
                    inv = inv + x / rc(MASS[z])
                mu = rc(1) / inv
                n = (rc(1) - g) * rho * rc(NAV) / (mu + rc(2 * MASS[8016]))
                mgd = sum(GD[z] * MASS[z] for z in GD)
                ngad = g * rho * rc(NAV) / rc(2 * mgd + 3 * MASS[8016])
                want = {z: x / rc(MASS[z]) / inv * n for z, x in f.items()}
                want[8016] = rc(2) * n + rc(3) * ngad
                if nm == 'uo2':
                    for z in GD:
                        want[z] = rc(2 * GD[z]) * ngad
                composition(ctx, what, r, {z: num(x) for z, x in want.items()}, alg.TRUE, 12)
                conserved(ctx, what, r, want, alg.TRUE, 12, rho)
        # atom fractions of named nuclides
        with ctx.guard('at'):
            r = ev('at', ('in', 'out'), (0, 0, None), (1, 0, 1), (2, 0, 1), (3, 0, 1))
            zs = (1001, 8016, 92235)
            fr = [IN(1), IN(2), IN(3)]
            m = R0
            for z, x in zip(zs, fr):
                m = m + x * rc(MASS[z])
            pre = alg.TRUE
            composition(ctx, 'atom fractions of H1, O16, U235' + sfx, r, {z: num(x * IN(0) * rc(NAV) / m) for z, x in zip(zs, fr)}, pre, 3)
            conserved(ctx, 'atom fractions of H1, O16, U235' + sfx, r, zs, pre, 3, IN(0))
        with ctx.guard('sym'):
            r = ev('sym', ('in', 'out'), (0, 0, None), (1, 0, None), (2, 0, 1))
            pre = alg.TRUE
            composition(ctx, 'named nuclides by density and by weight fraction' + sfx, r,
                        {92235: num(IN(1)), 94239: num(IN(2) * IN(0) * rc(NAV) / rc(MASS[94239]))}, pre, 2)
        # adding nuclides: stored in order, refused when invalid or repeated
        with ctx.guard('add'):
            r = ev('add', ('in', 'out', 'z0', 'z1', 'z2'))
            zs = [num(ra(alg.atom('sym', 'z%d' % i))) for i in range(3)]
            ds = [num(IN(i)) for i in range(3)]
            bad = alg.FALSE
            for i in range(3):
                bad = bor(bad, bor(cmp('le', zs[i], num(0)), cmp('le', ds[i], num(0))))
                for j in range(i):
                    bad = bor(bad, cmp('eq', zs[i], zs[j]))
            one = lambda c: ite(c, num(1), num(0))
            vg.expect(ctx, 'three nuclides: error exactly when invalid or repeated' + sfx, one(r.log.cond('error')), one(bad), r.where(),
                      what='(1: reported) ')
            ok = alg.bnot(bad)
            for k, w in ((0, num(3)), (1, num(3))):
                vg.expect(ctx, 'three nuclides: sizes (%d)%s' % (k, sfx), ite(ok, r.out(k), SKIP), ite(ok, w, SKIP), r.where())
            for i in range(3):
                vg.expect(ctx, 'three nuclides: identifier %d%s' % (i, sfx), ite(ok, r.out(2 + 2 * i), SKIP), ite(ok, zs[i], SKIP), r.where())
                vg.expect(ctx, 'three nuclides: density %d%s' % (i, sfx), ite(ok, r.out(3 + 2 * i), SKIP), ite(ok, ds[i], SKIP), r.where())
            vg.accepts(ctx, 'three nuclides' + sfx, r, ok)
        if not asserts:
            continue
        # weight fraction of any nuclide of the mass table; any other identifier is an error
        with ctx.guard('wt'):
            tab = ev('masses', ('out',))
            n = int(vg.single(tab.out(0)).const())
            keys = [(int(vg.single(tab.out(1 + 2 * i)).const()), vg.single(tab.out(2 + 2 * i)).const()) for i in range(n)]
            r = ev('wt', ('in', 'out', 'z'), (0, 0, None), (1, 0, 1))
            za = alg.atom('sym', 'z')
            seen = alg.FALSE
            for k, m in keys:
                seen = bor(seen, cmp('eq', num(ra(za)), num(k)))
                for j, w in ((0, num(1)), (1, num(1)), (2, num(k)), (3, num(IN(0) * IN(1) * rc(NAV) / rc(Fr(m))))):
                    vg.expect(ctx, 'weight fraction of %d (%d)' % (k, j), vg.fixed(r.out(j), {za: rc(k)}), w, r.where(),
                              eq=close if j == 3 else None)
            one = lambda c: ite(c, num(1), num(0))
            vg.expect(ctx, 'weight fraction: error exactly for identifiers without a mass', one(r.log.cond('error')),
                      one(alg.bnot(seen)), r.where(), what='(1: reported) ')
            vg.accepts(ctx, 'weight fraction', r, seen)
