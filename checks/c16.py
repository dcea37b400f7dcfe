"""C16: the C interface returns the model's own data for the requested part."""
import re
from fractions import Fraction as Fr
from engine import alg, harness, lifetime, vg
from engine.alg import num, ra, rc, cmp, ite, band, bor, bnot
from engine.ir import Ptr
from engine.vg import IN, SKIP
from checks.c19 import LOG, Log

TRI, QUAD, TRI6, QUAD8 = 3, 4, 6, 8
N = {TRI: 3, QUAD: 4, TRI6: 6, QUAD8: 8}
# (kind, first input, vertices, faces) in the order of the probe
MESH = {(TRI, 0): (0, 4, 2), (TRI, 1): (40, 5, 3), (QUAD, 0): (80, 5, 1), (QUAD, 1): (120, 6, 2), (QUAD, 2): (160, 7, 3),
        (TRI6, 0): (200, 6, 1), (TRI6, 1): (240, 7, 2), (QUAD8, 0): (280, 8, 1), (QUAD8, 1): (320, 9, 2), (QUAD8, 2): (360, 10, 3)}
CELLS = [(TRI6, 1), (TRI, 1), (QUAD8, 2), (QUAD, 0), (TRI, 0), (QUAD, 2), (QUAD8, 1), (TRI6, 0)]
RTMS = [[[0, 1]], [[2, 3]], [[4, 5], [6, 7]], [[3, 0]]]
LATS = [[[0, 1], [3, 0], [1, 3]], [[2, 2], [2, 1], [0, 2]]]
ASYS = [[0, 1], [1, 0, 1], [0]]
CORE = [[0, 1, 2], [2, 0, 1]]
CALLS = r'um2::mpact::Model::add|^um2MPACT|^world|^cells\('
OPAQUE = LOG + r'|um2::FaceVertexMesh<.*>::(faceContaining|intersect)|um2::mpact::Model::read'


def conn(kind, mesh):
    _, nv, nf = MESH[mesh]
    return [[(f + j if f % 2 == 0 else nv + f - j) % nv for j in range(N[kind])] for f in range(nf)]


def child(rows, i, j):
    return rows[len(rows) - 1 - j][i]


def sub(a, b):
    return alg.sub(num(a), num(b))


class World:
    """Expected answers, from the inputs of the probe."""

    def parts(self):
        w = {}
        for k, v in enumerate((8, 4, 2, 3, 3, 2)):
            w[k] = ('number of parts %d' % k, num(v))
        k = 10
        for a, lat in enumerate(ASYS):
            w[k] = ('layers of assembly %d' % a, num(len(lat)))
            k += 1
        for what, ps in (('lattice', LATS), ('module', RTMS)):
            for i, rows in enumerate(ps):
                for d, n in enumerate((len(rows[0]), len(rows))):
                    w[k] = ('cells of %s %d along axis %d' % (what, i, d), num(n))
                    k += 1
        k = 40
        for i, rows in enumerate(RTMS):
            for d, n in enumerate((len(rows[0]), len(rows))):
                b = 600 + 20 * i + 10 * d
                w[k] = ('extent of module %d along axis %d' % (i, d), sub(IN(b + n), IN(b)))
                k += 1
        k = 50
        for a, lat in enumerate(ASYS):
            for j in range(len(lat)):
                w[k] = ('height of layer %d of assembly %d' % (j, a), sub(IN(800 + 10 * a + j + 1), IN(800 + 10 * a + j)))
                k += 1
        k = 100
        for i in range(3):
            for j in range(2):
                w[k] = ('assembly (%d, %d) of the core' % (i, j), num(child(CORE, i, j)))
                k += 1
        for a, lat in enumerate(ASYS):
            for j, v in enumerate(lat):
                w[k] = ('lattice %d of assembly %d' % (j, a), num(v))
                k += 1
        for what, ps in (('lattice', LATS), ('module', RTMS)):
            for n, rows in enumerate(ps):
                for i in range(len(rows[0])):
                    for j in range(len(rows)):
                        w[k] = ('part (%d, %d) of %s %d' % (i, j, what, n), num(child(rows, i, j)))
                        k += 1
        return w


def module(ctx, asserts):
    bc = ctx.bitcode(harness.VERIF + '/probes/c16.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
    return ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=OPAQUE + '|' + CALLS, opaque=OPAQUE)


ARGS = ('in', 'mats', 'out', 'ptr')


def evaluate(ctx, mod, name, call=None, mem=False, part=None):
    log = Log()

    def h(*a):
        r = log(*a)
        return r if r is not None or call is None else call(*a)
    hooks = {'call': h, 'mem': mem}
    if part is not None:
        hooks['initial'] = lambda ev, base, off, ty: num(part) if base == 'mats' else None
    r = vg.evaluate(ctx, mod, 'probe_' + name, hooks, ARGS, limit=2000)
    r.log = log
    return r


def oblige(ctx, what, holds, where='', detail=''):
    if holds:
        ctx.ok(what)
    else:
        ctx.fail(what, detail or 'it is not', where)


def memory(ctx, what, r):
    """No access outside or after the life of a buffer; nothing but the model's own memory is left."""
    bad, n = lifetime.faults(r.ev, leaks=False)
    ctx.analysed['memory accesses'] = ctx.analysed.get('memory accesses', 0) + n['accesses']
    oblige(ctx, '%s: every access stays inside its object' % what, not bad,
                   where=lifetime.where(bad[0][1]) if bad else r.where(), detail='; '.join(t for t, _ in bad[:3]))


def parts(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'parts')
    for k, (what, v) in sorted(World().parts().items()):
        vg.expect(ctx, what, r.out(k), v, r.where())


def cells(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'cells')
    w = r.where()
    for i, m in enumerate(CELLS):
        kind, (b, nv, nf) = m[0], MESH[m]
        o = 20 * i
        vg.expect(ctx, 'number of faces of cell %d' % i, r.out(o), num(nf), w)
        for d in range(2):
            vg.expect(ctx, '%s of cell %d' % (('width', 'height')[d], i), r.out(o + 1 + d), num(IN(500 + 2 * i + d)), w)
        for f, vs in enumerate(conn(kind, m)):
            mat = ra(alg.atom('in', 'mats', Fr(10 * i + f)))
            vg.expect(ctx, 'material of face %d of cell %d' % (f, i), r.out(o + 3 + f), num(mat), w)
            p = [(IN(b + 2 * v), IN(b + 2 * v + 1)) for v in vs]
            a, c = shape(kind, p)
            vg.expect(ctx, 'area of face %d of cell %d' % (f, i), r.out(o + 6 + f), num(a), w)
            for d in range(2):
                vg.expect(ctx, 'centroid of face %d of cell %d, axis %d' % (f, i, d), r.out(o + 9 + 2 * f + d), num(c[d]), w, assume=None)


def shape(kind, p):
    """Signed area and centroid of a polygon whose edges are straight or parabolas."""
    n = {TRI: 3, QUAD: 4, TRI6: 3, QUAD8: 4}[kind]
    A, M = rc(0), [rc(0), rc(0)]
    for k in range(n):
        q = [p[k], p[(k + 1) % n]] + ([p[n + k]] if kind in (TRI6, QUAD8) else [])
        x, y = [poly([v[d] for v in q]) for d in range(2)]
        dx, dy = deriv(x), deriv(y)
        # Green: area = 1/2 int (x dy - y dx), first moments = 1/3 int x (x dy - y dx), 1/3 int y (x dy - y dx)
        s = padd(pmul(x, dy), [rc(0) - c for c in pmul(y, dx)])
        A = A + integral(s) * rc(Fr(1, 2))
        M[0] = M[0] + integral(pmul(x, s)) * rc(Fr(1, 3))
        M[1] = M[1] + integral(pmul(y, s)) * rc(Fr(1, 3))
    return A, [m / A for m in M]


def poly(v):
    """Coefficients in t of the segment or parabola through v[0] (t=0), v[2] (t=1/2), v[1] (t=1)."""
    if len(v) == 2:
        return [v[0], v[1] - v[0]]
    return [v[0], v[2] * rc(4) - v[0] * rc(3) - v[1], (v[0] + v[1] - v[2] * rc(2)) * rc(2)]


def padd(a, b):
    return [(a[i] if i < len(a) else rc(0)) + (b[i] if i < len(b) else rc(0)) for i in range(max(len(a), len(b)))]


def pmul(a, b):
    r = [rc(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def deriv(a):
    return [a[i] * rc(i) for i in range(1, len(a))] or [rc(0)]


def integral(a):
    r = rc(0)
    for i, x in enumerate(a):
        r = r + x * rc(Fr(1, i + 1))
    return r


def data(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'data', mem=True)
    w = r.where()
    memory(ctx, 'face data', r)
    for i, m in enumerate(CELLS):
        kind, (b, nv, nf) = m[0], MESH[m]
        o = 100 * i
        vg.expect(ctx, 'mesh kind of cell %d' % i, r.out(o), num(kind), w)
        vg.expect(ctx, 'number of vertices of cell %d' % i, r.out(o + 1), num(nv), w)
        vg.expect(ctx, 'number of faces in the data of cell %d' % i, r.out(o + 2), num(nf), w)
        for j in range(2 * nv):
            vg.expect(ctx, 'vertex coordinate %d of cell %d' % (j, i), r.out(o + 10 + j), num(IN(b + j)), w)
        for j, v in enumerate(v for f in conn(kind, m) for v in f):
            vg.expect(ctx, 'connectivity entry %d of cell %d' % (j, i), r.out(o + 40 + j), num(v), w)


def values(ev, st, x, n):
    """The n numbers of an argument passed by value or by reference."""
    return list(x) if isinstance(x, tuple) else [ev.load(st, ev.gep(x, num(8 * j)), 'double', 8) for j in range(n)]


class Query:
    """Stands for the mesh queries: records which mesh is asked what, answers with symbols."""

    def __init__(self, n=0):
        self.calls, self.n = [], n

    def __call__(self, ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        m = re.search(r'FaceVertexMesh<.*>::(faceContaining|intersect)\(', d)
        if not m:
            return None
        k = len(self.calls)
        if m.group(1) == 'faceContaining':
            p = values(ev, st, ops[1], 2)
            self.calls.append((cond, ops[0], p))
            return num(alg.sym('face %d' % k))
        p = values(ev, st, ops[1], 4)
        for j in range(self.n):
            ev.store(st, ev.gep(ops[2], num(8 * j)), num(alg.sym('crossing %d' % j)), 'double', 8, cond, ins.get('loc'))
        self.calls.append((cond, ops[0], p))
        return num(self.n)


def find(ctx, mod, which, n=0):
    vg.fresh()
    q = Query(n)
    r = evaluate(ctx, mod, which, q)
    w = r.where()
    if len(q.calls) != 8:
        raise harness.CheckError('%s: %d mesh queries' % (which, len(q.calls)))
    for i, (cond, mesh, p) in enumerate(q.calls):
        what = '%s in cell %d' % ({'find': 'search', 'cross': 'ray'}[which], i)
        oblige(ctx, '%s: asks the mesh of that cell' % what, cond is alg.TRUE and mesh is r.out(i, 'ptr'), where=w,
                       detail='asked %s, the mesh is %s' % (mesh, r.out(i, 'ptr')))
        for j, v in enumerate(p):
            vg.expect(ctx, '%s: argument %d' % (what, j), v, num(IN(950 + len(p) * i + j)), w)
        if which == 'find':
            vg.expect(ctx, '%s: face' % what, r.out(i), num(alg.sym('face %d' % i)), w)
            continue
        vg.expect(ctx, '%s: number of crossings' % what, r.out(10 * i), num(n), w)
        vs = [num(alg.sym('crossing %d' % j)) for j in range(n)]
        for j, v in enumerate(sort(vs)):
            vg.expect(ctx, '%s: crossing %d in increasing order' % (what, j), r.out(10 * i + 1 + j), v, w)


def sort(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            c = cmp('le', v[j], v[j + 1])
            v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
    return v


def invalid(ctx, mod):
    for n in ('areas', 'find', 'centroid', 'cross', 'data'):
        with ctx.guard('cell without a mesh, ' + n):
            vg.fresh()
            q = Query()
            r = evaluate(ctx, mod, 'bad_' + n, q)
            oblige(ctx, 'cell without a mesh, %s: reported as an error' % n, r.log.cond('error') is alg.TRUE and not q.calls, where=r.where())
            if n == 'cross':
                vg.expect(ctx, 'cell without a mesh: number of crossings', r.out(0), num(-1), r.where())


def layers():
    Z = [[0, 3, 5], [0, 2, 5, 9], [0, 4]]
    out = [(l, z[k + 1] - z[k]) for a, z in zip(ASYS, Z) for k, l in enumerate(a)]
    rt = [(r, h) for l, h in out for row in LATS[l] for r in row]
    cc = [(c, h) for r, h in rt for row in RTMS[r] for c in row]
    return [sorted(set(x), key=lambda p: (p[1], p[0])) for x in (out, rt, cc)]


def heights(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'heights', mem=True)
    w = r.where()
    memory(ctx, 'heights', r)
    for what, o, ps in zip(('lattice', 'module', 'cell'), (0, 100, 200), layers()):
        vg.expect(ctx, 'number of %s heights' % what, r.out(o), num(len(ps)), w)
        for j, (i, h) in enumerate(ps):
            vg.expect(ctx, '%s of height entry %d' % (what, j), r.out(o + 1 + 2 * j), num(i), w)
            vg.expect(ctx, 'height of %s entry %d' % (what, j), r.out(o + 2 + 2 * j), num(h), w)


def misc(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'misc', mem=True)
    w = r.where()
    bad, n = lifetime.faults(r.ev)
    oblige(ctx, 'allocation and model creation: memory', not bad, where=w, detail='; '.join(t for t, _ in bad[:3]))
    for k, (what, v) in enumerate([('size of an integer', 4), ('size of a real', 8), ('value kept in allocated memory', IN(0))] +
                                  [('parts of a new model (%d)' % j, 0) for j in range(5)]):
        vg.expect(ctx, what, r.out(k), num(v), w)
    calls = []

    def read(ev, ins, ops, st, cond):
        if 'um2::mpact::Model::read' not in (ins.get('dem') or ''):
            return None
        calls.append((cond, ops))
        return alg.UNDEF
    r = evaluate(ctx, mod, 'read', read)
    ok = len(calls) == 1 and calls[0][0] is alg.TRUE and calls[0][1][0] is r.out(0, 'ptr')
    oblige(ctx, 'reading a model: the file is read into the model handed out', ok, where=r.where())


IDS = {'asy_num': 3, 'lat_num': 2, 'rtm_num': 4, 'core_x': 3, 'core_y': 2, 'asy_child': 3, 'asy_i': 2, 'lat_child': 2, 'rtm_child': 4,
       'core_neg': 1, 'lat_x': 2, 'lat_y': 3, 'lat_neg': 1, 'rtm_x': 2, 'rtm_y': 2, 'rtm_neg': 1,
       'cell_faces': 8, 'cell_width': 8, 'cell_height': 8, 'cell_areas': 8, 'rtm_width': 4, 'rtm_height': 4, 'asy_heights': 3}


def ids(ctx, mod):
    """Ids outside the model never get an answer when assertions are on."""
    for n, k in sorted(IDS.items()):
        for bad in (-1, k):
            with ctx.guard('%s(%d)' % (n, bad)):
                vg.fresh()
                returned = True
                try:
                    evaluate(ctx, mod, 'id_' + n, part=bad)
                except vg.NeverReturns:
                    returned = False
                oblige(ctx, 'part number %d of %d in %s is rejected' % (bad, k, n), not returned, where='src/um2c.cpp')


def run(ctx):
    mod = module(ctx, 0)
    for f in (parts, cells, data, heights, misc, invalid):
        with ctx.guard(f.__name__):
            f(ctx, mod)
    with ctx.guard('find'):
        find(ctx, mod, 'find')
    for n in (1, 2, 3):
        with ctx.guard('cross'):
            find(ctx, mod, 'cross', n)
    mod = module(ctx, 1)
    ids(ctx, mod)
