"""C11: element-type tables."""
from engine import alg, vg
from engine.alg import rc, ra, num, cmp, ite, band, bor

# name: (VTK cell type, XDMF topology code, vertices); the codes are those of the VTK and XDMF file formats
TABLE = [('Vertex', 1, 1, 1), ('Line', 3, 2, 2), ('Triangle', 5, 4, 3), ('Quad', 9, 5, 4), ('QuadraticEdge', 21, 34, 3),
         ('QuadraticTriangle', 22, 36, 6), ('QuadraticQuad', 23, 37, 8)]
MESH = dict(Tri=3, Quad=4, TriQuad=7, QuadraticTri=6, QuadraticQuad=8, QuadraticTriQuad=14)


def lookup(x, pairs, other):
    d = other
    for k, v in pairs:
        d = ite(cmp('eq', x, num(k)), num(v), d)
    return d


def arg(k, size):
    a = alg.atom('in', 'in', k * size)
    alg.INT_ATOMS.add(a)
    return num(ra(a))


def run(ctx):
    ctx.rule = ('Constant-table extraction by value numbering with a symbolic argument: every conversion between element codes, vertex '
                'counts and mesh kinds equals the format tables for every value of the argument; anything else is rejected (assertion) '
                'or mapped to the invalid marker when assertions are compiled out.')
    ctx.assumptions += ['element and mesh codes are compared with the VTK and XDMF file format definitions']
    for asserts in (1, 0):
        mod = ctx.probe_module('c11.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
        sfx = '' if asserts else ' (assertions off)'

        def one(name, what, size, pairs, bad, total=False):
            with ctx.guard(name):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_' + name)
                x = arg(0, size)
                want = lookup(x, pairs, num(bad) if total or not asserts else vg.SKIP)
                got = r.out(0, size=4)
                valid = alg.FALSE
                for k, _ in pairs:
                    valid = bor(valid, cmp('eq', x, num(k)))
                if bad is None:
                    want = lookup(x, pairs, vg.SKIP)
                vg.expect(ctx, '%s%s' % (what, sfx), got, want, r.where())
                vg.accepts(ctx, '%s: every supported code%s' % (what, sfx), r, valid)
                if asserts and not total:
                    acc = ite(valid, vg.SKIP, ite(r.accepted(), num(1), num(0)))
                    vg.expect(ctx, '%s: unsupported codes are reported' % what, acc, 0, r.where(), what='(1: accepted, 0: reported) ')
        one('verts', 'vertices of an element type', 1, [(t[1], t[3]) for t in TABLE], None)
        one('infer', 'element type of a vertex count', 4, [(t[3], t[1]) for t in TABLE if t[0] != 'QuadraticEdge'], 0)
        one('x2v', 'element type of an XDMF code', 1, [(t[2], t[1]) for t in TABLE], 0)
        one('v2x', 'XDMF code of an element type', 1, [(t[1], t[2]) for t in TABLE], 0)
        pure = [(5, 3), (9, 4), (22, 6), (23, 8)]
        one('mesh1', 'mesh kind of one element type', 1, pure, 0, total=True)
        with ctx.guard('mesh0'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_mesh0')
            vg.expect(ctx, 'mesh kind without elements is invalid' + sfx, r.out(0, size=4), 0, r.where())
        with ctx.guard('mesh2'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_mesh2')
            x, y = arg(0, 1), arg(1, 1)
            want = num(0)
            for a, b, k in ((5, 9, 7), (22, 23, 14)):
                for p, q in ((a, b), (b, a)):
                    want = ite(band(cmp('eq', x, num(p)), cmp('eq', y, num(q))), num(k), want)
            vg.expect(ctx, 'mesh kind of two element types' + sfx, r.out(0, size=4), want, r.where())
            vg.accepts(ctx, 'mesh kind of two element types' + sfx, r)
        with ctx.guard('mesh3'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_mesh3')
            vg.expect(ctx, 'mesh kind of three element types is invalid' + sfx, r.out(0, size=4), 0, r.where())
            vg.accepts(ctx, 'mesh kind of three element types' + sfx, r)
        with ctx.guard('codes'):
            vg.fresh()
            r = vg.evaluate(ctx, mod, 'probe_codes')
            w = r.where() or 'include/um2/mesh/element_types.hpp'
            for k, t in enumerate([('Invalid', 0, 0, 0)] + TABLE):
                vg.expect(ctx, 'VTK code of %s%s' % (t[0], sfx), r.out(k, size=4), t[1], w)
                vg.expect(ctx, 'XDMF code of %s%s' % (t[0], sfx), r.out(8 + k, size=4), t[2], w)
            for k, (n, v) in enumerate([('Invalid', 0)] + list(MESH.items())):
                vg.expect(ctx, 'mesh code of %s%s' % (n, sfx), r.out(16 + k, size=4), v, w)
