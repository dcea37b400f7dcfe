"""C19: cross-section algebra."""
from engine import alg, harness, vg
from engine.alg import rc, ra, R0, R1, num, leaf, cmp, ite, band, bor
from engine.vg import IN, SKIP

LOG = 'um2::logger::(error|warn|info|debug|printMessage)'
FIELDS = ('a', 'f', 'nuf', 'tr', 's', 'ss')


class Log:
    """Diagnostics are recorded, not modelled: (level, condition, location)."""

    def __init__(self):
        self.calls = []

    def __call__(self, ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if 'um2::logger::' in d:
            name = d.split('um2::logger::', 1)[1].split('<')[0].split('(')[0]
            self.calls.append((name, cond, ins.get('loc')))
            return alg.UNDEF
        return None

    def cond(self, *names):
        c = alg.FALSE
        for n, x, _ in self.calls:
            if n in names:
                c = bor(c, x)
        return c


def nxs(G):
    return 5 * G + G * G


class XS:
    """Symbolic cross section read from in[start...]."""

    def __init__(self, v):
        self.v = v

    @staticmethod
    def read(start, G):
        return XS([num(IN(start + k)) for k in range(nxs(G))])

    def map(self, f, *o):
        return XS([f(x, *[y.v[k] for y in o]) for k, x in enumerate(self.v)])


def name(k, G):
    if k < 5 * G:
        return '%s[%d]' % (FIELDS[k // G], k % G)
    k -= 5 * G
    return 'ss(%d,%d)' % (k % G, k // G)


def gate(c, x, y):
    return x.map(lambda p, q: ite(c, p, q), y)


def interp(T, temps, xs):
    """Linear in sqrt(T) between the bracketing tabulated temperatures, constant outside."""
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        t0, t1 = num(temps[i]), num(temps[i + 1])
        q = [alg.call('sqrt', x) for x in (num(T), t0, t1)]
        d = alg.div(alg.sub(q[0], q[1]), alg.sub(q[2], q[1]))
        lin = xs[i].map(lambda p, p1: alg.add(p, alg.mul(d, alg.sub(p1, p))), xs[i + 1])
        r = gate(cmp('lt', num(T), t1), lin, r)
    return gate(cmp('le', num(T), num(temps[0])), xs[0], r) if len(xs) > 1 else r


def ordered(T, temps):
    """Precondition: positive, strictly increasing temperatures."""
    c = alg.TRUE
    for a in [T] + list(temps):
        (m, _), = a.num.t.items()
        alg.POSITIVE.add(m[0][0])
    for a, b in zip(temps, temps[1:]):
        c = band(c, cmp('lt', num(a), num(b)))
    return c


def flag(n):
    return cmp('ne', num(ra(alg.atom('sym', n))), num(0))


def same(ctx, what, r, xs, G, pre, macro, fissile):
    for k in range(nxs(G)):
        vg.expect(ctx, '%s: %s' % (what, name(k, G)), ite(pre, r.out(k), SKIP), ite(pre, xs.v[k], SKIP), r.where())
    k = nxs(G)
    one = lambda c: ite(c, num(1), num(0))
    vg.expect(ctx, what + ': macroscopic flag', ite(pre, r.out(k), SKIP), ite(pre, one(macro), SKIP), r.where())
    if fissile is not None:
        vg.expect(ctx, what + ': fissile flag', ite(pre, r.out(k + 1), SKIP), ite(pre, one(fissile), SKIP), r.where())
    for j in range(8):
        vg.expect(ctx, what + ': group count and array sizes (%d)' % j, ite(pre, r.out(k + 2 + j), SKIP), ite(pre, num(G), SKIP), r.where())


def run(ctx):
    ctx.rule = ('Global value numbering of the cross-section code with loops peeled at fixed numbers of groups, temperatures and nuclides: '
                'every component of every result equals the definition (interpolation linear in sqrt(T), number-density sum, mean, '
                'area-weighted mean) for all data; the conditions under which validation reports are compared as sign diagrams.')
    ctx.assumptions += ['tabulated temperatures are positive and strictly increasing, all tables of a nuclide carry the same flags',
                        'diagnostic output is an effect outside the value claim']
    for asserts in (1, 0):
        mod = ctx.probe_module('c19.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts), pipe=harness.PIPE_LOOPS, noinline=LOG, opaque=LOG)
        sfx = '' if asserts else ' (assertions off)'
        ARGS = ('in', 'out', 'm', 'f')
        for T, G in ((1, 2), (2, 1), (2, 2), (3, 2), (4, 1)):
            with ctx.guard('interp%dx%d' % (T, G)):
                vg.fresh()
                temps = [IN(1 + i) for i in range(T)]
                pre = ordered(IN(0), temps)
                log = Log()
                r = vg.evaluate(ctx, mod, 'probe_interp%dx%d' % (T, G), {'call': log}, ARGS)
                xs = [XS.read(1 + T + i * nxs(G), G) for i in range(T)]
                what = 'interpolation, %d temperatures, %d groups%s' % (T, G, sfx)
                same(ctx, what, r, interp(IN(0), temps, xs), G, pre, flag('m'), flag('f'))
                vg.accepts(ctx, what, r, pre)
        for G in (1, 2, 3):
            with ctx.guard('collapse%d' % G):
                vg.fresh()
                log = Log()
                r = vg.evaluate(ctx, mod, 'probe_collapse%d' % G, {'call': log}, ARGS)
                x = XS.read(0, G).v
                mean = [R0] * 6
                tot = [num(0)] * 6
                for k, v in enumerate(x):
                    j = min(k // G, 5)
                    tot[j] = alg.add(tot[j], v)
                want = XS([alg.div(t, num(G)) for t in tot])
                same(ctx, 'collapse of %d groups%s' % (G, sfx), r, want, 1, alg.TRUE, flag('m'), flag('f'))
                pre = alg.TRUE
                for g in range(G):
                    s = num(0)
                    for h in range(G):
                        s = alg.add(s, x[5 * G + G * g + h])
                    pre = band(pre, cmp('eq', x[4 * G + g], s))
                vg.accepts(ctx, 'collapse of %d groups%s' % (G, sfx), r, pre)
            with ctx.guard('total%d' % G):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_total%d' % G, {'call': Log()}, ARGS)
                x = XS.read(0, G).v
                for g in range(G):
                    vg.expect(ctx, 'total of group %d of %d%s' % (g, G, sfx), r.out(g), alg.add(x[g], x[4 * G + g]), r.where())
            with ctx.guard('validate%d' % G):
                vg.fresh()
                log = Log()
                r = vg.evaluate(ctx, mod, 'probe_validate%d' % G, {'call': log}, ARGS)
                x = XS.read(0, G).v
                neg, pos = alg.FALSE, alg.FALSE
                for k, v in enumerate(x):
                    neg = bor(neg, cmp('lt', v, num(0)))
                    if G <= k < 3 * G:
                        pos = bor(pos, cmp('gt', v, num(0)))
                nf = alg.bnot(flag('f'))
                m = flag('m')
                one = lambda c: ite(c, num(1), num(0))
                vg.expect(ctx, 'validation errors, %d groups%s' % (G, sfx), one(log.cond('error')),
                          one(band(alg.bnot(m), band(pos, nf))), r.where(), what='(1: reported) ')
                vg.expect(ctx, 'validation warnings, %d groups%s' % (G, sfx), one(log.cond('warn')),
                          one(band(m, bor(neg, band(pos, nf)))), r.where(), what='(1: reported) ')
        for G in (1, 2):
            with ctx.guard('populate%d' % G):
                vg.fresh()
                T = IN(0)
                dens = [IN(1), IN(2), IN(3)]
                for d in dens:
                    (m, _), = d.num.t.items()
                    alg.POSITIVE.add(m[0][0])
                pre, p, nuc = alg.TRUE, 4, []
                for nt in (2, 3, 2, 1):
                    temps = [IN(p + i) for i in range(nt)]
                    p += nt
                    pre = band(pre, ordered(T, temps))
                    xs = [XS.read(p + i * nxs(G), G) for i in range(nt)]
                    p += nt * nxs(G)
                    nuc.append(interp(T, temps, xs))
                log = Log()
                r = vg.evaluate(ctx, mod, 'probe_populate%d' % G, {'call': log}, ('in', 'out', 'f0', 'f1', 'f2'))
                want = nuc[3].map(lambda x, y, z: alg.add(alg.add(alg.mul(x, num(dens[0])), alg.mul(y, num(dens[1]))),
                                                          alg.mul(z, num(dens[2]))), nuc[0], nuc[1])
                fis = bor(flag('f0'), bor(flag('f1'), flag('f2')))
                what = 'material of three nuclides, %d groups%s' % (G, sfx)
                same(ctx, what, r, want, G, pre, alg.TRUE, fis)
                vg.accepts(ctx, what, r, pre)
