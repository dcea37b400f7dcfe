"""C07: Morton codes."""
from fractions import Fraction as Q
from engine import alg, bits, ir, vg
from engine.alg import rc, R0, R1, leaf, num
from engine.bits import BV

PRE = dict(f32=(32, 4), d32=(32, 8), d64=(64, 8))


def code(dims, nbits, w, src):
    """Expected code: bit k of coordinate d at position dims*k + d."""
    b = [0] * w
    for k in range(nbits):
        for d in range(dims):
            b[dims * k + d] = ('b', src(d), k)
    return BV(b)


def run(ctx):
    ctx.rule = ('Bit-provenance analysis of the compiled encode/decode functions: bit dims*k+d of a code is bit k of '
                'coordinate d and every other bit is 0; decoding reads exactly those positions.  Checked for the portable and the '
                'BMI2 build, 32 and 64 bits, 2 and 3 dimensions, and for the floating-point front ends.')
    ctx.assumptions += ['coordinates are within the documented maximum, codes within the positions an encoding can set',
                        'conversion between reals and integers is exact (floating-point rounding is out of scope)']
    for bmi in (1, 0):
        cfg = ctx.config(UM2_ENABLE_BMI2=bmi)
        sfx = ' (BMI2)' if bmi else ' (portable)'
        mod = ctx.probe_module('c07.cpp', cfg)
        for w in (32, 64):
            with ctx.guard('max%d' % w):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_max_%d' % w)
                for i, dims in enumerate((2, 3)):
                    vg.expect(ctx, 'largest %d-bit coordinate in %dD%s' % (w, dims, sfx), r.out(i, size=w // 8), rc(2**(w // dims) - 1), r.where())
            for dims in (2, 3):
                nb = w // dims
                with ctx.guard('enc%d_%d' % (dims, w)):
                    vg.fresh()
                    sz = w // 8
                    name = 'xyz'
                    h = {'initial': lambda ev, base, off, ty: leaf(bits.source(name[int(off.const()) // sz], w, nb)) if base == 'in' else None,
                         'float_bits': nb}
                    r = vg.evaluate(ctx, mod, 'probe_enc%d_%d' % (dims, w), hooks=h, cls=bits.BitEvaluator)
                    vg.expect(ctx, 'encode %dD %d bits%s' % (dims, w, sfx), bv(r.out(0, size=sz), w), leaf(code(dims, nb, w, lambda d: name[d])), r.where(), eq=same)
                    vg.accepts(ctx, 'encode %dD %d bits%s' % (dims, w, sfx), r)
                with ctx.guard('dec%d_%d' % (dims, w)):
                    vg.fresh()
                    h = {'initial': lambda ev, base, off, ty: leaf(bits.source('code', w, nb * dims)) if base == 'in' else None, 'float_bits': nb}
                    r = vg.evaluate(ctx, mod, 'probe_dec%d_%d' % (dims, w), hooks=h, cls=bits.BitEvaluator)
                    for d in range(dims):
                        want = BV([('b', 'code', dims * k + d) if k < nb else 0 for k in range(w)])
                        vg.expect(ctx, 'decode %dD %d bits, coordinate %d%s' % (dims, w, d, sfx), bv(r.out(d, size=sz), w), leaf(want), r.where(), eq=same)
        for nm, (w, fs) in PRE.items():
            for dims in (2, 3):
                nb = w // dims
                mx = rc(2**nb - 1)
                with ctx.guard('enc%d_%s' % (dims, nm)):
                    vg.fresh()
                    X = [vg.IN(d, size=fs) for d in range(dims)]
                    for x in X:
                        alg.NONNEG.add(next(iter(x.atoms())))
                    r = vg.evaluate(ctx, mod, 'probe_enc%d_%s' % (dims, nm), hooks={'float_bits': nb}, cls=bits.BitEvaluator)
                    vg.expect(ctx, 'encode %dD unit cube %s%s' % (dims, nm, sfx), bv(r.out(0, size=w // 8), w),
                              leaf(code(dims, nb, w, lambda d: 'int(%s)' % (X[d] * mx))), r.where(), eq=same)
                    pre = alg.TRUE
                    for x in X:
                        pre = alg.band(pre, alg.band(alg.cmp('ge', num(x), num(0)), alg.cmp('le', num(x), num(1))))
                    vg.accepts(ctx, 'encode %dD unit cube %s%s' % (dims, nm, sfx), r, pre)
                with ctx.guard('dec%d_%s' % (dims, nm)):
                    vg.fresh()
                    h = {'initial': lambda ev, base, off, ty: leaf(bits.source('code', w, nb * dims)) if base == 'in' else None, 'float_bits': nb}
                    r = vg.evaluate(ctx, mod, 'probe_dec%d_%s' % (dims, nm), hooks=h, cls=bits.BitEvaluator)
                    for d in range(dims):
                        want = None
                        for ww in (w, 64, 32):
                            b = BV([('b', 'code', dims * k + d) if k < nb else 0 for k in range(ww)])
                            a = alg.ra(alg.atom('bits', b))
                            got = vg.single(r.out(d, size=fs))
                            if want is None or (got is not None and got.atoms() == a.atoms()):
                                want = a / mx
                        vg.expect(ctx, 'decode %dD unit cube %s, coordinate %d%s' % (dims, nm, d, sfx), r.out(d, size=fs), want, r.where())


def bv(d, w):
    return alg.apply(lambda x: bits.const(x.const(), w) if isinstance(x, alg.Rat) and x.is_const() else x, ('cbv', w), d)


def same(x, y):
    return x is alg.SKIP_V or y is alg.SKIP_V or x == y
