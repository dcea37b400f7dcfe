"""C05: grids and partitions."""
from fractions import Fraction as Q
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, num, leaf, cmp, ite, band, bor
from engine.harness import CheckError

ARGS = ('in', 'ii', 'out', 'io')
EPS = Q(1, 10**6)


def II(k):
    a = alg.atom('in', 'ii', Q(4 * k))
    alg.INT_ATOMS.add(a)
    return ra(a)


def atom_of(r):
    return next(iter(r.atoms()))


def regular(D):
    """Inputs of a regular grid: minima, spacing > 0, cells > 0, index inside."""
    m = [vg.IN(d) for d in range(D)]
    s = [vg.IN(D + d) for d in range(D)]
    n = [II(d) for d in range(D)]
    for x in s + n:
        alg.POSITIVE.add(atom_of(x))
    return m, s, n


def flat(idx, n):
    f, k = R0, R1
    for i, c in zip(idx, n):
        f = f + i * k
        k = k * c
    return f


def describe(ctx, r, nm, D, mn, mx, n, idx, lo, hi):
    w = r.where()
    o = r.out
    io = lambda k: r.out(k, 'io', 4)
    for d in range(D):
        e = mx[d] - mn[d]
        for k, what, v in ((0, 'minima', mn), (1, 'maxima', mx), (2, 'extents', None), (3, 'bounding box minima', mn),
                           (4, 'bounding box maxima', mx), (5, 'minima(i)', mn), (6, 'maxima(i)', mx), (7, 'extents(i)', None),
                           (8, 'minima of the cell box', lo), (9, 'maxima of the cell box', hi)):
            vg.expect(ctx, '%s: %s[%d]' % (nm, what, d), o(k * D + d), e if v is None else v[d], w)
        vg.expect(ctx, '%s: numCells()[%d]' % (nm, d), io(d), n[d], w)
        vg.expect(ctx, '%s: numCells(%d)' % (nm, d), io(D + d), n[d], w)
    tot = R1
    for x in n:
        tot = tot * x
    vg.expect(ctx, '%s: total number of cells' % nm, io(2 * D), tot, w)
    vg.expect(ctx, '%s: flat index (vector)' % nm, io(2 * D + 1), flat(idx, n), w)
    vg.expect(ctx, '%s: flat index (arguments)' % nm, io(2 * D + 2), flat(idx, n), w)


def run(ctx):
    ctx.rule = ('Value-number every accessor of regular and rectilinear grids and partitions.  Cell box k of an axis must be '
                '[minimum + k h, minimum + (k+1) h] (regular) or [division k, division k+1] (rectilinear), the flat index '
                'sum i_d prod_{e<d} n_e, the cell of a point floor((p - minimum)/h) inside the grid and -1 outside; children are '
                'found at the flat index of their cell, the textual (top row first) layout is reversed vertically.')
    ctx.assumptions += ['real (exact) arithmetic, no integer overflow',
                        'regular grids: any number of cells; rectilinear grids: the listed numbers of divisions, any positions',
                        'grids built from cell lists: extents exceed the library distance tolerance']
    for simd in (1, 0):
        sfx = '' if simd else ' (array Vec)'
        mod = ctx.probe_module('c05.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd))
        for D in (1, 2, 3):
            with ctx.guard('reg%d' % D):
                vg.fresh()
                m, s, n = regular(D)
                idx = [II(D + d) for d in range(D)]
                r = vg.evaluate(ctx, mod, 'probe_reg%d' % D, args=ARGS)
                nm = 'regular grid %dD%s' % (D, sfx)
                pre = alg.TRUE
                for d in range(D):
                    pre = band(pre, band(cmp('le', num(0), num(idx[d])), cmp('lt', num(idx[d]), num(n[d]))))
                vg.accepts(ctx, nm, r, pre)
                lo = [m[d] + s[d] * idx[d] for d in range(D)]
                describe(ctx, r, nm, D, m, [m[d] + s[d] * n[d] for d in range(D)], n, idx, lo, [lo[d] + s[d] for d in range(D)])
                for d in range(D):
                    vg.expect(ctx, '%s: cell centroid[%d]' % (nm, d), r.out(10 * D + d), lo[d] + s[d] / rc(2), r.where())
                    vg.expect(ctx, '%s: spacing()[%d]' % (nm, d), r.out(11 * D + d), s[d], r.where())
                    vg.expect(ctx, '%s: spacing(%d)' % (nm, d), r.out(12 * D + d), s[d], r.where())
            with ctx.guard('regbox%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_regbox%d' % D, args=ARGS)
                for d in range(D):
                    nm = 'regular grid of one %dD box%s' % (D, sfx)
                    vg.expect(ctx, '%s: minima[%d]' % (nm, d), r.out(d), vg.IN(d), r.where())
                    vg.expect(ctx, '%s: spacing[%d]' % (nm, d), r.out(D + d), vg.IN(D + d) - vg.IN(d), r.where())
                    vg.expect(ctx, '%s: cells[%d]' % (nm, d), r.out(d, 'io', 4), R1, r.where())
            with ctx.guard('regpoint%d' % D):
                vg.fresh()
                m, s, n = regular(D)
                r = vg.evaluate(ctx, mod, 'probe_regpoint%d' % D, args=ARGS)
                for d in range(D):
                    f = num(alg.fn('floor', (vg.IN(2 * D + d) - m[d]) / s[d]))
                    want = ite(bor(cmp('lt', f, num(0)), cmp('gt', f, num(n[d] - R1))), num(-1), f)
                    vg.expect(ctx, 'regular grid %dD%s: cell containing a point[%d]' % (D, sfx, d), r.out(d, 'io', 4), want, r.where())
            with ctx.guard('reghit%d' % D):
                vg.fresh()
                m, s, n = regular(D)
                r = vg.evaluate(ctx, mod, 'probe_reghit%d' % D, args=ARGS)
                for d in range(D):
                    f = [num(alg.fn('floor', (vg.IN((2 + h) * D + d) - m[d]) / s[d])) for h in (0, 1)]
                    out = bor(cmp('lt', f[1], num(0)), cmp('gt', f[0], num(n[d] - R1)))
                    lo = ite(cmp('lt', f[0], num(0)), num(0), f[0])
                    hi = ite(cmp('gt', f[1], num(n[d] - R1)), num(n[d] - R1), f[1])
                    nm = 'regular grid %dD%s: cells meeting a box' % (D, sfx)
                    vg.expect(ctx, '%s, first[%d]' % (nm, d), r.out(d, 'io', 4), ite(out, num(-1), lo), r.where())
                    vg.expect(ctx, '%s, last[%d]' % (nm, d), r.out(D + d, 'io', 4), ite(out, num(-1), hi), r.where())
        with ctx.guard('regflat4'):
            vg.fresh()
            m, s, n = regular(4)
            r = vg.evaluate(ctx, mod, 'probe_regflat4', args=ARGS)
            vg.expect(ctx, 'regular grid 4D%s: flat index' % sfx, r.out(0, 'io', 4), flat([II(4 + d) for d in range(4)], n), r.where())
        for D, N, cells in ((1, (4,), ((0,), (1,), (2,))), (2, (3, 4), ((0, 0), (1, 0), (0, 1), (1, 2))),
                            (3, (3, 4, 5), ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 3)))):
            for c in cells:
                with ctx.guard('rect%d_%s' % (D, c)):
                    vg.fresh()
                    div, k = [], 0
                    for d in range(D):
                        div.append([vg.IN(k + i) for i in range(N[d])])
                        k += N[d]
                    r = vg.evaluate(ctx, mod, 'probe_rect%d_%s' % (D, ''.join(map(str, c))), args=ARGS)
                    pre = alg.TRUE
                    for x in div:
                        for a, b in zip(x, x[1:]):
                            pre = band(pre, cmp('lt', num(a), num(b)))
                    vg.accepts(ctx, 'rectilinear grid %dD cell %s%s' % (D, c, sfx), r, pre)
                    describe(ctx, r, 'rectilinear grid %dD cell %s%s' % (D, c, sfx), D, [x[0] for x in div], [x[-1] for x in div],
                             [rc(len(x) - 1) for x in div], [rc(i) for i in c], [div[d][c[d]] for d in range(D)],
                             [div[d][c[d] + 1] for d in range(D)])
        for D in (1, 2, 3):
            with ctx.guard('rectbox%d' % D):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_rectbox%d' % D, args=ARGS)
                for d in range(D):
                    nm = 'rectilinear grid of one %dD box%s' % (D, sfx)
                    vg.expect(ctx, '%s: minima[%d]' % (nm, d), r.out(d), vg.IN(d), r.where())
                    vg.expect(ctx, '%s: maxima[%d]' % (nm, d), r.out(D + d), vg.IN(D + d), r.where())
                    vg.expect(ctx, '%s: cells[%d]' % (nm, d), r.out(d, 'io', 4), R1, r.where())
        for NR, NC in ((1, 1), (1, 3), (2, 2), (3, 2)):
            with ctx.guard('cells%d%d' % (NR, NC)):
                vg.fresh()
                W, H = [vg.IN(k) for k in range(NC)], [vg.IN(NC + k) for k in range(NR)]
                for x in W + H:      # extents above the tolerance
                    alg.assume_positive(x)
                r = vg.evaluate(ctx, mod, 'probe_cells%d%d' % (NR, NC), args=ARGS, hooks={'initial': shifted})
                w = r.where()
                nm = 'cells %dx%d%s' % (NR, NC, sfx)
                vg.accepts(ctx, nm, r)
                xs, ys = [R0], [R0]
                for x in W:
                    xs.append(xs[-1] + x + rc(EPS))
                for y in reversed(H):
                    ys.append(ys[-1] + y + rc(EPS))
                for j in range(NR):
                    for i in range(NC):
                        k = j * NC + i
                        for q, v in enumerate((xs[i], ys[j], xs[i + 1], ys[j + 1])):
                            vg.expect(ctx, '%s: box of cell (%d, %d)[%d]' % (nm, i, j, q), r.out(4 * k + q), v, w)
                        idv = rc((NR - 1 - j) * NC + i)
                        vg.expect(ctx, '%s: child of cell (%d, %d)' % (nm, i, j), r.out(k, 'io', 4), idv, w)
                        vg.expect(ctx, '%s: children[%d]' % (nm, k), r.out(NR * NC + k, 'io', 4), idv, w)
                vg.expect(ctx, nm + ': columns', r.out(2 * NR * NC, 'io', 4), rc(NC), w)
                vg.expect(ctx, nm + ': rows', r.out(2 * NR * NC + 1, 'io', 4), rc(NR), w)
        for order in ('3210', '2031'):
            with ctx.guard('boxes' + order):
                vg.fresh()
                for k in range(4):
                    alg.assume_positive(vg.IN(k))
                r = vg.evaluate(ctx, mod, 'probe_boxes' + order, args=ARGS, hooks={'initial': shifted})
                e = [vg.IN(k) + rc(EPS) for k in range(6)]
                xs, ys = [e[4], e[4] + e[0], e[4] + e[0] + e[1]], [e[5], e[5] + e[2], e[5] + e[2] + e[3]]
                nm = 'grid of 2x2 boxes in order %s%s' % (order, sfx)
                vg.accepts(ctx, nm, r)
                for k in range(4):
                    i, j = k % 2, k // 2
                    for q, v in enumerate((xs[i], ys[j], xs[i + 1], ys[j + 1])):
                        vg.expect(ctx, '%s: box of cell (%d, %d)[%d]' % (nm, i, j, q), r.out(4 * k + q), v, r.where())
        for kind in ('regpart', 'rectpart'):
            with ctx.guard(kind):
                vg.fresh()
                if kind == 'regpart':
                    for k in (2, 3):
                        alg.assume_positive(vg.IN(k))
                r = vg.evaluate(ctx, mod, 'probe_' + kind, args=ARGS)
                w = r.where()
                vg.accepts(ctx, kind + sfx, r)
                for k in range(18):
                    vg.expect(ctx, '%s%s: %s %d' % (kind, sfx, ('child', 'const child', 'children')[k // 6], k % 6), r.out(k, 'io', 4), II(k % 6), w)
                want = [vg.IN(k) for k in ((0, 1, 2, 3) if kind == 'regpart' else (0, 4, 3, 6))]
                for k in range(4):
                    vg.expect(ctx, '%s%s: grid[%d]' % (kind, sfx, k), r.out(k), want[k], w)
                if kind == 'rectpart':
                    for k in range(3):
                        vg.expect(ctx, '%s%s: empty after clear[%d]' % (kind, sfx, k), r.out(18 + k, 'io', 4), R0, w)


def shifted(ev, base, off, ty):
    """Extents are read as tolerance + positive unknown."""
    if base == 'in':
        return leaf(rc(EPS) + vg.IN(int(off.const()) // 8))
    return None
