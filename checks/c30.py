"""C30: mesh queries agree with the queries of the faces, validation reports exactly the defective meshes."""
import itertools
import re
from engine import alg, harness, lifetime, vg
from engine.alg import num, cmp, ite, band, bor, bnot
from engine.ir import map_leaves
from engine.vg import IN, SKIP
from checks.c19 import LOG, Log

# nodes per face, vertices, faces of the probe
MESHES = {'tri': (3, 5, [[0, 1, 2], [2, 3, 0], [4, 1, 3]]),
          'quad': (4, 6, [[0, 1, 2, 3], [3, 2, 4, 5], [5, 1, 0, 4]]),
          'tri6': (6, 8, [[0, 1, 2, 3, 4, 5], [7, 6, 5, 4, 3, 2], [1, 0, 2, 4, 6, 3]]),
          'quad8': (8, 10, [[0, 1, 2, 3, 4, 5, 6, 7], [9, 8, 7, 6, 5, 4, 3, 2], [1, 3, 5, 7, 9, 0, 2, 4]])}
FACE = r'um2::Polytope<2, [0-9], [0-9], 2, double>::(contains|intersect|isCCW|hasSelfIntersection)\('
BOX = r'um2::Polytope<2, 2, [0-9], 2, double>::boundingBox\('
CALLS = r'void mesh<|void validate<|checkManifoldWatertight<|checkCCWFaces<|um2::FaceVertexMesh<.*>::validate'


class Face:
    """Stands for the queries of one face; answers by the face's own vertices."""

    def __init__(self, n, conns, answer, turned=False):
        self.turned = turned      # faces may be asked again after they were turned
        self.n, self.conns, self.answer, self.args, self.asked = n, conns, answer, [], []

    def which(self, ev, st, p):
        xs = [ev.load(st, ev.gep(p, num(16 * j)), 'double', 8) for j in range(self.n)]
        for i, c in enumerate(self.conns):
            if all(x is num(IN(2 * v)) for x, v in zip(xs, c)):
                return i
        for i, c in enumerate(self.conns):
            if self.turned and set(map(id, xs)) == {id(num(IN(2 * v))) for v in c}:
                return i
        return None

    def __call__(self, ev, ins, ops, st, cond):
        m = re.search(FACE, ins.get('dem') or '') or re.search(BOX, ins.get('dem') or '')
        if not m:
            return None
        what = m.group(1) if m.groups() else 'box'
        this = ops[1] if what == 'box' else ops[0]
        i = self.which(ev, st, this)
        if i is None:
            raise harness.CheckError('a face that is not one of the mesh is asked')
        self.asked.append(i)
        self.args.append(ops)
        return self.answer(ev, ins, ops, st, cond, what, i)


def evaluate(ctx, mod, name, face=None, init=None, args=('in', 'out')):
    log = Log()

    def h(*a):
        r = log(*a)
        return r if r is not None or face is None else face(*a)
    hooks = {'call': h, 'mem': True}
    if init is not None:
        hooks['initial'] = init
    r = vg.evaluate(ctx, mod, 'probe_' + name, hooks, args, limit=2000)
    r.log = log
    bad, n = lifetime.faults(r.ev, returned=r.accepted())
    ctx.analysed['memory accesses'] = ctx.analysed.get('memory accesses', 0) + n['accesses']
    if bad:
        ctx.fail('%s: memory' % name, '; '.join(t for t, _ in bad[:3]), lifetime.where(bad[0][1]) or r.where())
    else:
        ctx.ok('%s: memory' % name)
    return r


def pair(ev, st, x, n):
    return list(x) if isinstance(x, tuple) else [ev.load(st, ev.gep(x, num(8 * j)), 'double', 8) for j in range(n)]


def find(ctx, mod, name):
    n, nv, cs = MESHES[name]
    vg.fresh()
    seen = []

    def answer(ev, ins, ops, st, cond, what, i):
        seen.append(pair(ev, st, ops[1], 2))
        return inside[i]
    inside = [cmp('gt', num(alg.sym('inside %d' % i)), num(0)) for i in range(3)]
    r = evaluate(ctx, mod, 'find_' + name, Face(n, cs, answer))
    for p in seen:
        for d in range(2):
            vg.expect(ctx, 'search (%s): the point asked for, coordinate %d' % (name, d), p[d], num(IN(100 + d)), r.where())
    for i in range(3):
        only = band(inside[i], bnot(bor(inside[(i + 1) % 3], inside[(i + 2) % 3])))
        vg.expect(ctx, 'search (%s): point in face %d only' % (name, i), ite(only, r.out(0), SKIP), num(i), r.where())
    none = bnot(bor(inside[0], bor(inside[1], inside[2])))
    vg.expect(ctx, 'search (%s): point in no face' % name, ite(none, r.out(0), SKIP), num(-1), r.where())
    # in several faces: one of them
    for i in range(3):
        is_i = map_leaves(lambda x: alg.TRUE if x == alg.rc(i) else alg.FALSE, r.out(0))
        vg.expect(ctx, 'search (%s): face %d is answered only if it contains the point' % (name, i),
                  ite(is_i, ite(inside[i], num(1), num(0)), SKIP), num(1), r.where())


def rays(ctx, mod, name):
    n, nv, cs = MESHES[name]
    for hits in ((2, 2, 2), (0, 2, 1), (3, 0, 0), (0, 0, 0), (1, 0, 4)):
        for probe in ('ray', 'rays'):
            vg.fresh()
            seen = []

            def answer(ev, ins, ops, st, cond, what, i):
                seen.append(pair(ev, st, ops[1], 4))
                for j in range(hits[i]):
                    ev.store(st, ev.gep(ops[2], num(8 * j)), num(alg.sym('hit %d of face %d' % (j, i))), 'double', 8, cond, ins.get('loc'))
                return num(hits[i])
            f = Face(n, cs, answer)
            r = evaluate(ctx, mod, '%s_%s' % (probe, name), f)
            nm = '%s (%s, hits %s)' % (probe, name, hits)
            if sorted(f.asked) != [0, 1, 2]:
                ctx.fail(nm + ': every face is asked once', 'asked %s' % f.asked, r.where())
                continue
            for p in seen:
                for d in range(4):
                    vg.expect(ctx, '%s: ray component %d' % (nm, d), p[d], num(IN(100 + d)), r.where())
            want = [num(alg.sym('hit %d of face %d' % (j, i))) for i in range(3) for j in range(hits[i])]
            o = 20 if probe == 'rays' else 1
            vg.expect(ctx, nm + ': number of crossings', r.out(0), num(len(want)), r.where())
            for k, v in enumerate(want):
                vg.expect(ctx, '%s: crossing %d' % (nm, k), r.out(o + k), v, r.where())
            if probe == 'ray':
                continue
            hit = [i for i in range(3) if hits[i]]
            vg.expect(ctx, nm + ': number of faces crossed', r.out(1), num(len(hit)), r.where())
            for k, i in enumerate(hit):
                vg.expect(ctx, '%s: face %d' % (nm, k), r.out(10 + k), num(i), r.where())
            for k in range(len(hit) + 1):
                vg.expect(ctx, '%s: offset %d' % (nm, k), r.out(2 + k), num(sum(hits[i] for i in hit[:k])), r.where())


def least(v, lo):
    m = v[0]
    for x in v[1:]:
        m = ite(cmp('lt', x, m) if lo else cmp('lt', m, x), x, m)
    return m


def boxes(ctx, mod, name):
    n, nv, cs = MESHES[name]
    vg.fresh()

    def answer(ev, ins, ops, st, cond, what, i):
        for d in range(4):
            ev.store(st, ev.gep(ops[0], num(8 * d)), num(alg.sym('box %d %d' % (i, d))), 'double', 8, cond, ins.get('loc'))
        return alg.UNDEF
    f = Face(n, cs, answer)
    r = evaluate(ctx, mod, 'box_' + name, f)
    for d in range(4):
        if n > 4:
            v = [num(alg.sym('box %d %d' % (i, d))) for i in range(3)]
        else:
            v = [num(IN(2 * i + d % 2)) for i in range(4)]
        vg.expect(ctx, 'bounding box (%s): %s %s' % (name, ('lowest', 'highest')[d // 2], 'xy'[d % 2]), r.out(d), least(v, d < 2), r.where())


def sorts(ctx, mod):
    """Faces whose stretches of the ray do not overlap come in the order of the ray, each with its crossings in order."""
    for probe, sizes, ids in (('sort', (2, 2, 1), (7, 3, 5)), ('sort2', (4, 2), (2, 9))):
        first = [sum(sizes[:k]) for k in range(len(sizes))]
        lists = [list(itertools.permutations(range(n))) for n in sizes]
        if probe == 'sort2':
            lists[0] = lists[0][::5]
        for order in itertools.permutations(range(len(sizes))):
            for stored in itertools.product(*lists):
                with ctx.guard(probe):
                    vg.fresh()
                    # an unknown start and positive steps from crossing to crossing
                    vals, along, at = {}, [], alg.sym('start')
                    for i in order:
                        for q in range(sizes[i]):
                            vals[first[i] + stored[i][q]] = at
                            along.append(num(at))
                            s = alg.sym('step %d' % len(along))
                            alg.assume_positive(s)
                            at = at + s
                    r = evaluate(ctx, mod, probe, init=lambda ev, base, off, ty: num(vals[int(off.const()) // 8]) if base == 'in' else None)
                    nm = 'crossings of faces %s stored as %s' % (order, stored)
                    for k, v in enumerate(along):
                        vg.expect(ctx, '%s: crossing %d' % (nm, k), r.out(k), v, r.where())
                    n = 0
                    for j, i in enumerate(order):
                        vg.expect(ctx, '%s: offset %d' % (nm, j), r.out(len(along) + j), num(n), r.where())
                        vg.expect(ctx, '%s: face %d' % (nm, j), r.out(10 + j), num(ids[i]), r.where())
                        n += sizes[i]
                    vg.expect(ctx, nm + ': last offset', r.out(len(along) + len(order)), num(n), r.where())


GRID = [[3 * j + i, 3 * j + i + 1, 3 * j + i + 4, 3 * j + i + 3] for j in range(2) for i in range(2)]
RING = [[4 * j + i, 4 * j + i + 1, 4 * j + i + 5, 4 * j + i + 4] for j in range(3) for i in range(3) if (i, j) != (1, 1)]
# (name, vertices, faces (linear nodes), is it reported)
VALID = [
    ('one triangle', 3, [[0, 1, 2]], False),
    ('two triangles', 4, [[0, 1, 2], [2, 3, 0]], False),
    ('a fan around a vertex', 5, [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]], False),
    ('an edge of three faces', 5, [[0, 1, 2], [1, 0, 3], [0, 1, 4]], True),
    ('the same face twice', 3, [[0, 1, 2], [0, 1, 2]], True),
    ('the same face twice, rotated', 4, [[0, 1, 2], [2, 3, 0], [3, 0, 2]], True),
    ('two overlapping faces on one edge', 4, [[0, 1, 2], [0, 1, 3]], True),
    ('two faces that do not touch', 6, [[0, 1, 2], [3, 4, 5]], True),
    ('two faces that touch in a vertex', 5, [[0, 1, 2], [0, 3, 4]], True),
    ('one quadrilateral', 4, [[0, 1, 2, 3]], False),
    ('two by two quadrilaterals', 9, GRID, False),
    ('two by two quadrilaterals, other order', 9, [GRID[k] for k in (3, 0, 2, 1)], False),
    ('an L of quadrilaterals', 9, GRID[:3], False),
    ('two diagonal quadrilaterals', 9, [GRID[0], GRID[3]], True),
    ('three by three quadrilaterals without the middle one', 16, RING, True),
    ('three quadrilaterals, one twice', 9, GRID[:3] + [GRID[1]], True),
]


def quadratic(nv, faces):
    """Mid-edge nodes shared by the faces of an edge."""
    mid, out = {}, []
    for f in faces:
        c = list(f)
        for a, b in zip(f, f[1:] + f[:1]):
            c.append(mid.setdefault(frozenset((a, b)), nv + len(mid)))
        out.append(c)
    return nv + len(mid), out


def flip(c, n):
    """The face with the opposite orientation, starting at the same vertex."""
    k = n if n <= 4 else n // 2
    a = [c[0]] + c[1:k][::-1]
    return a if n <= 4 else a + c[k:][::-1]


def validation(ctx, mods):
    for name, nv, faces, bad in VALID:
        k = len(faces[0])
        for kind, n in ((('tri', 3), ('tri6', 6)) if k == 3 else (('quad', 4), ('quad8', 8))):
            v, cs = (nv, faces) if n <= 4 else quadratic(nv, faces)
            # a clockwise face is turned first: every face, none, the first, the last
            for clockwise in sorted({(), (0,), (len(cs) - 1,), tuple(range(len(cs)))}):
                if 'twice' in name and clockwise not in ((), tuple(range(len(cs)))):
                    continue
                given = [flip(c, n) if f in clockwise else c for f, c in enumerate(cs)]
                with ctx.guard('validate_' + kind):
                    vg.fresh()
                    ints = [v, len(cs)] + [x for c in given for x in c]

                    def answer(ev, ins, ops, st, cond, what, i):
                        if what == 'hasSelfIntersection':
                            return alg.FALSE
                        if what != 'isCCW':
                            raise harness.CheckError(what)
                        return alg.FALSE if i in clockwise else alg.TRUE
                    face = Face(n, given, answer, turned=True)
                    what = '%s (%s)%s' % (name, kind, ' with clockwise faces %s' % (clockwise,) if clockwise else '')
                    try:
                        r = evaluate(ctx, mods, 'validate_' + kind, face, args=('in', 'ii', 'out'),
                                     init=lambda ev, base, off, ty: num(ints[int(off.const()) // 4]) if base == 'ii' else None)
                    except vg.NeverReturns:
                        ctx.fail(what + ': validation returns', 'it aborts', 'src/mesh/face_vertex_mesh.cpp')
                        continue
                    e = r.log.cond('error')
                    if e is (alg.TRUE if bad else alg.FALSE):
                        ctx.ok('%s: %s' % (what, 'reported' if bad else 'accepted'))
                    else:
                        ctx.fail('%s: %s' % (what, 'is not reported' if bad else 'is reported as an error'), '', r.where())
                    for f, c in enumerate(cs):
                        if f in clockwise or not bad:
                            rot(ctx, '%s: face %d after validation' % (what, f), [r.out(n * f + j) for j in range(n)], c, n, r)


def rot(ctx, what, got, c, n, r):
    """The same face, from whatever vertex it starts."""
    k = n if n <= 4 else n // 2
    turns = [[c[(s + j) % k] for j in range(k)] + ([c[k + (s + j) % k] for j in range(k)] if n > 4 else []) for s in range(k)]
    if any(all(g is num(x) for g, x in zip(got, t)) for t in turns):
        ctx.ok(what)
    else:
        ctx.fail(what, 'is %s, expected %s or a rotation of it' % (got, c), r.where())


def run(ctx):
    ctx.rule = ('Value numbering of the mesh queries with the queries of one face as recorded calls: the mesh answers the face that '
                'contains the point, lists the crossings of every face in order with matching offsets, bounds all faces; validation of '
                'listed connectivities turns clockwise faces and reports exactly those with overlaps or holes.')
    bc = ctx.bitcode(harness.VERIF + '/probes/c30.cpp', ctx.config())
    opaque = LOG + '|' + FACE + '|' + BOX
    mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=opaque + '|' + CALLS, opaque=opaque)
    for name in MESHES:
        for f in (find, rays, boxes):
            with ctx.guard('%s %s' % (f.__name__, name)):
                f(ctx, mod, name)
    sorts(ctx, mod)
    validation(ctx, mod)
