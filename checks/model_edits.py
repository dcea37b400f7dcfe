"""Model-building requests: which are refused, what they leave behind, what they add (shared by C14 and C15)."""
from fractions import Fraction as Fr
from engine import alg, harness, vg
from engine.alg import rc, ra, num, cmp, ite, band, bor, bnot
from engine.vg import IN, SKIP
from checks.c19 import LOG, Log

KINDS = ('coarse cells', 'modules', 'lattices', 'assemblies', 'core', 'materials', 'triangle meshes', 'quadrilateral meshes',
         'quadratic triangle meshes', 'quadratic quadrilateral meshes')
CELL, RTM, LAT, ASY, CORE, QUAD = 0, 1, 2, 3, 4, 7
FACES = {3: [1], 4: [2, 1], 6: [1, 3, 2], 8: [3, 2, 2, 1]}
NMAT = 6
EPS = Fr('1e-7')


def sym(n):
    a = alg.atom('sym', n)
    alg.INT_ATOMS.add(a)
    return num(ra(a))


def lt(a, b):
    return cmp('lt', num(a), num(b))


def eq(a, b):
    return cmp('eq', num(a), num(b))


def outside(x, n):
    """Not an id of one of n parts."""
    return bor(lt(x, 0), cmp('ge', x, num(n)))


def far(a, b):
    """Further apart than the geometric tolerance."""
    d = alg.sub(num(a), num(b))
    e = num(rc(EPS))
    return bor(cmp('gt', d, e), cmp('lt', d, alg.neg(e)))


def tie(a, b):
    d = alg.sub(num(a), num(b))
    e = num(rc(EPS))
    return bor(eq(d, e), eq(d, alg.neg(e)))


def one_of(x, vals):
    c = alg.FALSE
    for v in vals:
        c = bor(c, eq(x, v))
    return c


class Edit:
    """probe, kind of part added, condition for refusal, values stored on success, precondition, new id."""

    def __init__(self, probe, what, kind, args, spec, contents=True):
        self.probe, self.what, self.kind, self.args, self.spec, self.contents = probe, what, kind, args, spec, contents


def cell(n):
    def spec():
        t, i = sym('type'), sym('id')
        mats = []
        for k in range(n):
            a = alg.atom('in', 'mats', Fr(k))
            alg.INT_ATOMS.add(a)
            mats.append(num(ra(a)))
        bad = bnot(one_of(t, FACES))
        for kind, faces in FACES.items():
            wrong = outside(i, len(faces))
            for j, f in enumerate(faces):
                if f != n:
                    wrong = bor(wrong, eq(i, j))
            bad = bor(bad, band(eq(t, kind), wrong))
        for m in mats:
            bad = bor(bad, outside(m, NMAT))
        err = bor(bor(cmp('le', num(IN(0)), num(0)), cmp('le', num(IN(1)), num(0))), band(bnot(eq(i, -1)), bad))
        new = [('extent', num(IN(0))), ('extent', num(IN(1))), ('mesh kind', t), ('mesh', i), ('number of materials', num(n))]
        return err, new + [('material', m) for m in mats], alg.TRUE
    return spec


def rtm12():
    a, b = sym('a'), sym('b')
    return bor(outside(a, 5), outside(b, 5)), [('number of x divisions', 3), ('number of y divisions', 2), ('x division', 0), ('x division', 1),
                                               ('x division', 2), ('y division', 0), ('y division', 1), ('number of cells', 2),
                                               ('left cell', a), ('right cell', b)], alg.TRUE


def rtm21():
    a, b = sym('a'), sym('b')
    return bor(outside(a, 5), outside(b, 5)), [('number of x divisions', 2), ('number of y divisions', 3), ('x division', 0), ('x division', 1),
                                               ('y division', 0), ('y division', 1), ('y division', 2), ('number of cells', 2),
                                               ('bottom cell', b), ('top cell', a)], alg.TRUE


def rtmext():
    x0, x1, y = IN(0), IN(1), IN(2)
    pre = alg.TRUE
    for v in (x0, x1, y):
        pre = band(pre, cmp('gt', num(v), num(1)))
    d = alg.sub(num(x0), num(x1))
    e = num(rc(EPS))
    pre = band(pre, bnot(bor(eq(d, e), eq(d, alg.neg(e)))))
    # the first module stays as it was: cells x0 and x1 wide
    new = [('number of x divisions', 3), ('number of y divisions', 2), ('x division', 0), ('x division', x0), ('x division', x0 + x1),
           ('y division', 0), ('y division', y), ('number of cells', 2), ('left cell', 0), ('right cell', 1)]
    return bor(cmp('gt', d, e), cmp('lt', d, alg.neg(e))), new, pre


def lattice22():
    v = [sym(n) for n in 'abcd']
    err = alg.FALSE
    for x in v:
        err = bor(err, outside(x, 2))
    a, b, c, d = v
    return err, [('origin', 0), ('origin', 0), ('spacing', 2), ('spacing', 1), ('number of columns', 2), ('number of rows', 2),
                 ('number of modules', 4), ('bottom left', c), ('bottom right', d), ('top left', a), ('top right', b)], alg.TRUE


def refused():
    return alg.TRUE, [], alg.TRUE


def heights(z, pre):
    """2D models span -1/2 to 1/2, all others start at 0."""
    h = rc(Fr(1, 2))
    flat = band(bnot(far(z[0], -h)), bnot(far(z[-1], h)))
    for a, b in ((z[0], -h), (z[-1], h), (z[0], rc(0))):
        pre = band(pre, bnot(tie(a, b)))
    err = band(bnot(flat), far(z[0], rc(0)))
    for x, y in zip(z, z[1:]):
        err = bor(err, lt(y, x))
    return err, pre


def assembly0():
    a, b = sym('a'), sym('b')
    z = [IN(0), IN(1), IN(2)]
    err, pre = heights(z, alg.TRUE)
    err = bor(bor(outside(a, 3), outside(b, 3)), err)
    # lattices 0 and 1 are one module wide and two high, lattice 2 is a single module
    err = bor(err, bor(band(eq(a, 2), bnot(eq(b, 2))), band(eq(b, 2), bnot(eq(a, 2)))))
    return err, [('number of z planes', 3)] + [('z plane', v) for v in z] + [('number of lattices', 2), ('bottom lattice', a), ('top lattice', b)], pre


def assembly(bottom, top):
    def spec():
        a = sym('a')
        z = [IN(0), IN(1)]
        err, pre = heights(z, alg.TRUE)
        err = bor(bor(outside(a, 3), err), bor(far(z[0], rc(bottom)), far(z[1], rc(top))))
        pre = band(pre, bnot(bor(tie(z[0], rc(bottom)), tie(z[1], rc(top)))))
        return err, [('number of z planes', 2)] + [('z plane', v) for v in z] + [('number of lattices', 1), ('lattice', a)], pre
    return spec


def core():
    a, b = sym('a'), sym('b')
    return bor(outside(a, 4), outside(b, 4)), [('number of x divisions', 3), ('number of y divisions', 2), ('x division', 0), ('x division', 2),
                                               ('x division', 4), ('y division', 0), ('y division', 2), ('number of assemblies', 2),
                                               ('left assembly', a), ('right assembly', b)], alg.TRUE


def rect(nx, ny):
    def spec():
        if nx <= 0 or ny <= 0:
            return refused()
        err = bor(cmp('le', num(IN(0)), num(0)), cmp('le', num(IN(1)), num(0)))
        new = [('number of vertices', (nx + 1) * (ny + 1)), ('number of faces', nx * ny)]
        for j in range(ny + 1):
            for i in range(nx + 1):
                new += [('vertex %d,%d x' % (i, j), IN(0) * rc(Fr(i, nx))), ('vertex %d,%d y' % (i, j), IN(1) * rc(Fr(j, ny)))]
        for j in range(ny):
            for i in range(nx):
                v = j * (nx + 1) + i
                new += [('face %d,%d vertex %d' % (i, j, k), w) for k, w in enumerate((v, v + 1, v + nx + 2, v + nx + 1))]
        return err, new, alg.TRUE
    return spec


AB = ('in', 'out', 'a', 'b', 'c', 'd')
EDITS = [
    Edit('cell1', 'coarse cell with 1 material', CELL, ('in', 'out', 'type', 'id', 'mats'), cell(1)),
    Edit('cell2', 'coarse cell with 2 materials', CELL, ('in', 'out', 'type', 'id', 'mats'), cell(2)),
    Edit('cell3', 'coarse cell with 3 materials', CELL, ('in', 'out', 'type', 'id', 'mats'), cell(3)),
    Edit('rtm12', 'module of one row', RTM, AB, rtm12),
    Edit('rtm21', 'module of one column', RTM, AB, rtm21),
    Edit('rtmext', 'module of other extents', RTM, AB, rtmext, False),
    Edit('lattice22', 'lattice', LAT, AB, lattice22),
    Edit('latticeragged', 'lattice with rows of different lengths', LAT, AB, refused),
    Edit('assembly0', 'first assembly', ASY, AB, assembly0),
    Edit('assembly1', 'further assembly', ASY, AB, assembly(0, 3)),
    Edit('assembly2', 'further assembly of a flat model', ASY, AB, assembly(Fr(-1, 2), Fr(1, 2))),
    Edit('assemblycount', 'assembly with a missing z plane', ASY, AB, refused),
    Edit('core', 'core', CORE, AB, core),
    Edit('core2', 'second core', CORE, AB, refused),
] + [Edit('rect' + n, 'rectangular mesh of %d x %d faces' % (x, y), QUAD, AB, rect(x, y))
     for n, x, y in (('11', 1, 1), ('21', 2, 1), ('23', 2, 3), ('01', 0, 1), ('m1', -1, 1), ('10', 1, 0), ('1m', 1, -1))]


def module(ctx, asserts=0):
    bc = ctx.bitcode(harness.VERIF + '/probes/c15.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
    return ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=LOG, opaque=LOG)


def evaluate(ctx, mod, e):
    vg.fresh()
    log = Log()
    r = vg.evaluate(ctx, mod, 'probe_' + e.probe, {'call': log}, e.args, limit=1000)
    r.log = log
    return r


def frame(ctx, mod):
    """Refused requests change nothing; accepted ones add exactly one part and keep the others."""
    for e in EDITS:
        with ctx.guard(e.what):
            r = evaluate(ctx, mod, e)
            _, _, pre = e.spec()
            err = r.log.cond('error')
            where = r.where()
            old = [r.out(10 + k) for k in range(10)]

            def on(c, v):
                return ite(band(pre, c), num(v), SKIP)
            for k, name in enumerate(KINDS):
                vg.expect(ctx, '%s, refused: number of %s' % (e.what, name), on(err, r.out(k)), on(err, old[k]), where)
                add = alg.add(old[k], num((2 if e.kind == CORE else 1) if k == e.kind else 0))
                vg.expect(ctx, '%s, accepted: number of %s' % (e.what, name), on(bnot(err), r.out(k)), on(bnot(err), add), where)
            vg.expect(ctx, '%s: returned id when refused' % e.what, on(err, r.out(20)), on(err, -1), where)
            if not e.contents:
                continue
            n = vg.single(r.out(21))
            if n is None or not n.is_const():
                raise harness.CheckError('number of old values is not known')
            for i in range(int(n.const())):
                vg.expect(ctx, '%s: earlier part value %d' % (e.what, i), on(alg.TRUE, r.out(100 + i)), on(alg.TRUE, r.out(500 + i)), where)


def content(ctx, mod):
    """Requests are refused exactly when an id, count or size is invalid; otherwise exactly what was asked for is stored."""
    for e in EDITS:
        with ctx.guard(e.what):
            r = evaluate(ctx, mod, e)
            err, new, pre = e.spec()
            where = r.where()
            got = ite(pre, ite(r.log.cond('error'), num(1), num(0)), SKIP)
            vg.expect(ctx, '%s: refused exactly when invalid' % e.what, got, ite(pre, ite(err, num(1), num(0)), SKIP), where,
                      what='(1: reported as an error, 0: accepted) ')
            good = band(pre, bnot(err))
            if good is alg.FALSE:
                continue
            idx = num(0) if e.kind == CORE else r.out(10 + e.kind)
            vg.expect(ctx, '%s: returned id' % e.what, ite(good, r.out(20), SKIP), ite(good, idx, SKIP), where)
            c = pre if e.probe == 'rtmext' else good
            for i, (name, v) in enumerate(new):
                vg.expect(ctx, '%s: %s (%d)' % (e.what, name, i), ite(c, r.out(30 + i), SKIP), ite(c, num(v), SKIP), where)
