"""C08: modular rays."""
from fractions import Fraction as Q
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, num, leaf, cmp, ite, band

ARGS = ('in', 'ii', 'out', 'io')


def atom_of(r):
    return next(iter(r.atoms()))


def setup(half):
    """Box with positive width and height, angle b or pi - b with b in (0, pi/2), positive spacing."""
    vg.fresh()
    sym = {}
    for n in ('W', 'H', 's', 'b'):
        sym[n] = alg.sym(n)
        alg.POSITIVE.add(atom_of(sym[n]))
    b = sym['b']
    alg.assume_positive(vg.pi() - b * rc(2))
    alg.assume_positive(vg.pi() - b)
    for f in ('sin', 'cos'):
        sym[f] = alg.fn(f, b)
        alg.POSITIVE.add(atom_of(sym[f]))
    sym['x0'], sym['y0'] = vg.IN(0), vg.IN(1)
    vals = {16: sym['x0'] + sym['W'], 24: sym['y0'] + sym['H'], 32: (vg.pi() - b) if half else b, 40: sym['s']}

    def initial(ev, base, off, ty):
        if base == 'in' and off.is_const() and int(off.const()) in vals:
            return leaf(vals[int(off.const())])
        return None
    return sym, {'initial': initial}


def run(ctx):
    ctx.rule = ('Value-number the ray-parameter constructor and the ray generator: the rays on a face are ceil(length*|sin or cos|/spacing), '
                'spacing times count is the face length, the direction is the unit vector with tangent spacing_y/spacing_x (mirrored '
                'beyond 90 degrees), and ray i starts at the (i + 1/2)-th position of the bottom face or, after those, of the side face.')
    ctx.assumptions += ['angle in (0, pi) other than pi/2, positive spacing, box with positive extents; exact arithmetic']
    mod = ctx.probe_module('c08.cpp')
    for half in (0, 1):
        nm = ('angle below 90 degrees', 'angle above 90 degrees')[half]
        with ctx.guard('params' + nm):
            S, h = setup(half)
            r = vg.evaluate(ctx, mod, 'probe_params', args=ARGS, hooks=h)
            w = r.where()
            nx = alg.fn('ceil', S['W'] * S['sin'] / S['s'])
            ny = alg.fn('ceil', S['H'] * S['cos'] / S['s'])
            vg.accepts(ctx, '%s: parameters' % nm, r)
            vg.expect(ctx, '%s: rays on the x face' % nm, r.out(0, 'io', 4), nx, w)
            vg.expect(ctx, '%s: rays on the y face' % nm, r.out(1, 'io', 4), ny, w)
            vg.expect(ctx, '%s: total rays' % nm, r.out(2, 'io', 4), nx + ny, w)
            vg.expect(ctx, '%s: x spacing times x rays is the width' % nm, alg.mul(r.out(0), num(nx)), S['W'], w)
            vg.expect(ctx, '%s: y spacing times y rays is the height' % nm, alg.mul(r.out(1), num(ny)), S['H'], w)
            dx, dy = r.out(2), r.out(3)
            vg.expect(ctx, '%s: direction is a unit vector' % nm, alg.add(alg.mul(dx, dx), alg.mul(dy, dy)), R1, w)
            sx, sy = S['W'] / nx, S['H'] / ny
            sg = rc(-1 if half else 1)
            vg.expect(ctx, '%s: tangent of the direction is spacing_y/spacing_x' % nm, alg.mul(dy, num(sx)), alg.mul(dx, num(sy * sg)), w)
            vg.expect(ctx, '%s: rays go up' % nm, ite(cmp('gt', dy, num(0)), num(1), num(0)), 1, w)
            vg.expect(ctx, '%s: rays go towards the angle\'s side' % nm, ite(cmp('gt', alg.mul(dx, num(sg)), num(0)), num(1), num(0)), 1, w)
        with ctx.guard('ray' + nm):
            S, h = setup(half)
            i = alg.atom('in', 'ii', Q(0))
            alg.INT_ATOMS.add(i)
            alg.NONNEG.add(i)
            i = ra(i)
            r = vg.evaluate(ctx, mod, 'probe_ray', args=ARGS, hooks=h)
            w = r.where()
            nx = alg.fn('ceil', S['W'] * S['sin'] / S['s'])
            ny = alg.fn('ceil', S['H'] * S['cos'] / S['s'])
            sx, sy = S['W'] / nx, S['H'] / ny
            hf = rc(Q(1, 2))
            onx = cmp('lt', num(i), num(nx))
            inside = band(cmp('ge', num(i), num(0)), cmp('lt', num(i), num(nx + ny)))
            vg.accepts(ctx, '%s: every index below the total' % nm, r, inside)
            W1 = S['x0'] + S['W']
            if half:
                ox = ite(onx, num(S['x0'] + sx * (i + hf)), num(W1))
            else:
                ox = ite(onx, num(W1 - sx * (i + hf)), num(S['x0']))
            oy = ite(onx, num(S['y0']), num(S['y0'] + sy * (i - nx + hf)))
            g = lambda v: ite(inside, v, vg.SKIP)
            vg.expect(ctx, '%s: ray origin x' % nm, g(r.out(4)), g(ox), w)
            vg.expect(ctx, '%s: ray origin y' % nm, g(r.out(5)), g(oy), w)
            vg.expect(ctx, '%s: ray direction x' % nm, g(r.out(6)), g(r.out(2)), w)
            vg.expect(ctx, '%s: ray direction y' % nm, g(r.out(7)), g(r.out(3)), w)
