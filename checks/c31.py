"""C31: imported cell meshes, powers of regions and sources of faces."""
import re
from fractions import Fraction as Fr
from engine import alg, harness, lifetime, vg
from engine.alg import num, rc
from engine.vg import IN
from checks.c17 import compare_strings, sort_numbers
from checks.c19 import LOG, Log

C = [(0, 0), (1, 0), (1, 1), (0, 1), (Fr(1, 2), 0), (1, Fr(1, 2)), (Fr(1, 2), 1), (0, Fr(1, 2)), (Fr(1, 2), Fr(1, 2))]
FACES = [[[0, 1, 2], [2, 3, 0]], [[0, 1, 2, 3]], [[0, 1, 2, 4, 5, 8], [2, 3, 0, 6, 7, 8]], [[0, 1, 2, 3, 4, 5, 6, 7]]]
NV = [4, 4, 9, 8]
KINDS = ['tri', 'quad', 'tri6', 'quad8']
MESH_TYPE = [3, 4, 6, 8]
ORDER = [3, 0, 2, 1, 2, 0]
CELL_OF = [2, 0, 3, 1, 4, 5]
AT = [[0, 2, 4, 3, 14, 6, 1, 9, 12, 15], [6, 4, 2, 20, 0, 5, 16, 18, 3, 1], [0, 16, 2, 14, 1, 15, 6, 4, 20, 5], [0, 4, 2, 30, 1, 3, 20, 28, 18, 33]]
READ = r'um2::PolytopeSoup::read\('
CALLS = (r'um2::mpact::Model::|um2::PolytopeSoup::|um2::FaceVertexMesh<.*>::(FaceVertexMesh|validate|boundingBox|populate|sort|operator)|'
         r'^(addCell|cellsFile|powersFile|sourceFile|threeMaterials|dump)|um2::Vector<.*>::(Vector|~Vector|operator=|emplace|push|resize|reserve|insert)|'
         r'um2::String::(String|~String|operator=|compare|substr)|um2::Material::|um2::XSec::|um2::mpact::|std::sort<|incrementASCIINumber|um2::isConvex|'
         r'um2::Polytope<2, .*>::(area|centroid|isConvex|hasSelf)')


def evaluate(ctx, mod, name):
    log = Log()

    def h(ev, ins, ops, st, cond):
        if re.match(READ, ins.get('dem') or ''):
            ev.descend('probe_file', ins, [ops[0]], st, cond)
            return alg.UNDEF
        for f in (log, compare_strings, sort_numbers):
            r = f(ev, ins, ops, st, cond)
            if r is not None:
                return r
    r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': h, 'mem': True}, ('in', 'out'), limit=2000)
    r.log = log
    bad, n = lifetime.faults(r.ev, returned=r.accepted())
    ctx.analysed['memory accesses'] = ctx.analysed.get('memory accesses', 0) + n['accesses']
    if bad:
        ctx.fail('%s: memory' % name, '; '.join(t for t, _ in bad[:3]), lifetime.where(bad[0][1]) or r.where())
    else:
        ctx.ok('%s: memory' % name)
    return r


def quiet(ctx, r, name, want):
    e = r.log.cond('error')
    what = '%s: %s' % (name, 'reported' if want else 'nothing reported')
    if e is (alg.TRUE if want else alg.FALSE):
        ctx.ok(what)
    else:
        ctx.fail(what, 'reported when %s' % str(e)[:200], r.where())


def compare(ctx, r, want):
    for k, (name, w) in enumerate(want):
        if not vg.expect(ctx, name, r.out(k), num(rc(w) if not isinstance(w, alg.Rat) else w), r.where()) and k > 400:
            break


def imported(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'import')
    want, first, data = [], 0, {}
    for c, k in enumerate(ORDER):
        n = len(FACES[k])
        mats = [(i + c) % 3 for i in range(first, first + n)]
        first += n
        data[CELL_OF[c]] = (c, k, mats)
    count = {}
    ids = {}
    for i in range(6):
        k = data[i][1]
        ids[i] = count.get(k, 0)
        count[k] = ids[i] + 1
    for i in range(6):
        c, k, mats = data[i]
        n = 'imported cell %d: ' % i
        want += [(n + 'mesh kind', MESH_TYPE[k]), (n + 'mesh', ids[i]), (n + 'number of materials', len(mats))]
        want += [(n + 'material of face %d' % f, m) for f, m in enumerate(mats)]
        want += [(n + 'number of vertices', NV[k]), (n + 'number of faces', len(FACES[k]))]
        for f, vs in enumerate(FACES[k]):
            for j, v in enumerate(vs):
                want += [(n + '%s of vertex %d of face %d' % (d, j, f), s * x) for d, s, x in zip('xy', (1 + c, 2 + c), C[v])]
    want += [('imported meshes of kind %s' % KINDS[k], count[k]) for k in range(4)]
    compare(ctx, r, want)
    quiet(ctx, r, 'import', False)


def region_sets(faces):
    """Connected sets of faces (lists of vertex positions)."""
    left, out = list(range(len(faces))), []
    while left:
        new = [left.pop(0)]
        for f in new:
            for g in list(left):
                if set(faces[f]) & set(faces[g]):
                    new.append(g)
                    left.remove(g)
        out.append(sorted(new))
    return out


def powers(ctx, mod, k, layout):
    name = KINDS[k] + ('_%d' % layout if layout else '')
    vg.fresh()
    faces = []
    for c in AT[layout]:
        faces += [[(c % 7 + C[v][0], c // 7 + C[v][1]) for v in vs] for vs in FACES[k]]
    for i in range(len(faces)):
        alg.assume_positive(IN(i))
    r = evaluate(ctx, mod, 'powers_' + name)
    on = [i for i in range(len(faces)) if i % 4 != 3]
    want = []
    for s in region_sets([faces[i] for i in on]):
        s = [on[i] for i in s]
        n = 4 if k % 2 else 3
        area, mx, my, p = Fr(0), Fr(0), Fr(0), rc(0)
        for f in s:
            vs = faces[f][:n]
            a = sum((x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(vs, vs[1:] + vs[:1])), Fr(0)) / 2
            area += a
            mx += a * sum(x for x, _ in vs) / n
            my += a * sum(y for _, y in vs) / n
            p = p + IN(f) * rc(a)
        want.append((p, mx / area, my / area))
    where = r.where()
    vg.expect(ctx, 'powers (%s): number of regions' % name, r.out(0), num(rc(len(want))), where)
    got = [tuple(r.out(1 + 3 * i + j) for j in range(3)) for i in range(len(want))]
    for p, x, y in want:
        g = next((g for g in got if g[0] is num(p)), None)
        what = 'powers (%s): region with %d terms' % (name, str(p).count('+') + 1)
        if g is None:
            ctx.fail(what, 'no region has the power %s; the powers are %s' % (p, ' / '.join(str(g[0])[:120] for g in got)), where)
        else:
            ctx.ok(what)
            vg.expect(ctx, what + ': centroid x', g[1], num(rc(x)), where)
            vg.expect(ctx, what + ': centroid y', g[2], num(rc(y)), where)
    quiet(ctx, r, 'powers ' + name, False)


def source(ctx, mod, k):
    vg.fresh()
    r = evaluate(ctx, mod, 'source_' + KINDS[k])
    want = [('sources (%s): number' % KINDS[k], 4)]
    for f in range(4):
        m = 2 - f % 3
        for what, b in (('scattering', 52), ('fission', 50)):
            want.append(('sources (%s): %s of face %d' % (KINDS[k], what, f), IN(f) * IN(b + 10 * m) + IN(10 + f) * IN(b + 10 * m + 1)))
    compare(ctx, r, want)
    quiet(ctx, r, 'sources ' + KINDS[k], False)


def refused(ctx, mod, name):
    vg.fresh()
    r = evaluate(ctx, mod, name)
    compare(ctx, r, [('sources (%s): number' % name, 0)])
    quiet(ctx, r, name, True)


def module(ctx):
    bc = ctx.bitcode(harness.VERIF + '/probes/c31.cpp', ctx.config())
    opaque = LOG + '|' + READ + r'|^(pugi|H5)'
    return ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=opaque + '|' + CALLS, opaque=opaque)


def run(ctx):
    ctx.rule = ('Value numbering of the import of cell meshes and of the extraction of powers and sources, with a soup of known shape and '
                'symbolic positions and data standing for the file: every stored mesh, material, power, centroid and source equals the '
                'sum over the faces it belongs to.')
    ctx.assumptions += ['files are read to the listed soups (their number of faces and layout are fixed; positions and data are symbolic)',
                        'powers of the faces are positive']
    mod = module(ctx)
    tasks = [('import', lambda: imported(ctx, mod))] + [('source ' + KINDS[k], lambda k=k: source(ctx, mod, k)) for k in range(4)]
    tasks += [('powers %s %d' % (KINDS[k], l), lambda k=k, l=l: powers(ctx, mod, k, l)) for k, l in ((0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (1, 2), (0, 2), (1, 3))]
    tasks += [(n, lambda n=n: refused(ctx, mod, n)) for n in ('mixed', 'lines')]
    ctx.each(tasks)
