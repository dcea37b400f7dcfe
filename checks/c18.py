"""C18: a model read back from file re-links every part to the one it was written with."""
import re
from engine import alg, harness, vg
from engine.alg import num, rc
from engine.vg import IN
from checks import c17
from checks.c13 import compare
from checks.c16 import CELLS, MESH, N, conn, child
from checks.c17 import RTMS, MATS, Outside, evaluate, oblige
from checks.c19 import LOG
from checks.xml import Xml

MODELS = {'back': ([[[0], [1]], [[1], [0]]], [([0, 1], [0, 1, 3]), ([1, 1], [0, 2, 3])], [[1, 0], [1, 1]]),
          'front': ([[[0, 1]], [[1, 0]], [[1, 1]]], [([2, 1, 0], [0, 1, 2, 3]), ([1, 2, 1], [0, rc(1) / rc(2), 2, 3])], [[1], [0]])}
EXTENTS = [(1, 2), (1, 2), (2, 1), (2, 1)]
BOX = r'um2::FaceVertexMesh<.*>::boundingBox\('
VALID = r'um2::FaceVertexMesh<.*>::validate\('


class Boxes:
    """Bounding boxes of whole meshes (C30 decides them): lower corner a symbol, extent that of the cell."""

    def __init__(self):
        self.cells = []

    def __call__(self, ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if re.search(VALID, d):
            return alg.UNDEF
        if not re.search(BOX, d):
            return None
        x0 = self.first(ev, st, ops[1])
        if x0 is None:
            return None
        for c in range(4):
            x = x0 - alg.ra(alg.atom('in', 'in', alg.Fraction(8 * MESH[CELLS[c]][0])))
            lo = [alg.sym('lower corner of cell %d along %d' % (c, k)) for k in range(2)]
            if x.is_const():
                self.cells.append(c)
            elif (x + lo[0]).is_const():
                # moved to its own origin
                lo = [rc(0), rc(0)]
            else:
                continue
            for k in range(2):
                ev.store(st, ev.gep(ops[0], num(8 * k)), num(lo[k]), 'double', 8, alg.TRUE, None)
                ev.store(st, ev.gep(ops[0], num(16 + 8 * k)), num(lo[k] + rc(EXTENTS[c][k])), 'double', 8, alg.TRUE, None)
            return alg.UNDEF
        raise harness.CheckError('bounding box of an unknown mesh')

    def first(self, ev, st, p):
        """The first coordinate found through the pointers of the mesh object."""
        for k in range(0, 160, 8):
            try:
                q = alg.leaves(ev.load(st, ev.gep(p, num(k)), 'ptr', 8))
            except Exception:
                continue
            if len(q) == 1 and isinstance(q[0], vg.ir.Ptr) and isinstance(q[0].base, tuple) and q[0].base[0] == 'heap':
                x = alg.leaves(ev.load(st, alg.leaf(q[0]), 'double', 8))
                if len(x) == 1 and isinstance(x[0], alg.Rat) and not x[0].is_const():
                    return x[0]
        return None


def rows(want, what, r):
    want.append(('width of ' + what, num(len(r[0]))))
    want.append(('height of ' + what, num(len(r))))
    for j in range(len(r)):
        for i in range(len(r[0])):
            want.append(('part (%d, %d) of %s' % (i, j, what), num(child(r, i, j))))


def model(ctx, mod, name):
    vg.fresh()
    doc, out, boxes = Xml(), Outside(), Boxes()

    def call(*a):
        for f in (doc, boxes, out):
            x = f(*a)
            if x is not None:
                return x
    try:
        r = evaluate(ctx, mod, 'read_' + name, call, mem=False)
    except vg.NeverReturns:
        ctx.fail('model %s: reading returns' % name, 'a written model cannot be read: every path aborts', 'src/mpact/model.cpp readXDMFFile')
        return
    lats, asys, core = MODELS[name]
    want = [('number of materials', num(3))]
    for m in ('Ma', 'Mbb', 'Mc'):
        want.append(('length of the name of material %s' % m, num(len(m))))
        want += [('character %d of the name of material %s' % (k, m), num(ord(c))) for k, c in enumerate(m)]
    rows(want, 'the core', core)
    want.append(('number of assemblies', num(len(asys))))
    for i, (ls, zs) in enumerate(asys):
        want.append(('layers of assembly %d' % i, num(len(ls))))
        want += [('lattice %d of assembly %d' % (k, i), num(l)) for k, l in enumerate(ls)]
        want += [('plane %d of assembly %d' % (k, i), num(z)) for k, z in enumerate(zs)]
    want.append(('number of lattices', num(len(lats))))
    for i, l in enumerate(lats):
        rows(want, 'lattice %d' % i, l)
    want.append(('number of modules', num(len(RTMS))))
    for i, l in enumerate(RTMS):
        rows(want, 'module %d' % i, l)
    want.append(('number of cells', num(4)))
    at = {}
    for i, n, off in places(name):
        at.setdefault(i, off)
    for c in range(4):
        kind = CELLS[c][0]
        b, nv, nf = MESH[CELLS[c]]
        want += [('extent %d of cell %d' % (d, c), num(EXTENTS[c][d])) for d in range(2)]
        want.append(('number of materials of cell %d' % c, num(nf)))
        want += [('material %d of cell %d' % (k, c), num(m)) for k, m in enumerate(MATS[c])]
        want.append(('mesh kind of cell %d' % c, num(kind)))
        want.append(('vertices of cell %d' % c, num(nv)))
        for v in range(nv):
            for d in range(2):
                lo = alg.sym('lower corner of cell %d along %d' % (c, d))
                want.append(('coordinate %d of vertex %d of cell %d' % (d, v, c), num(IN(b + 2 * v + d) + rc(at[c][d]) - lo)))
        want.append(('faces of cell %d' % c, num(nf)))
        want += [('vertex %d of face %d of cell %d' % (j, f, c), num(v)) for f, vs in enumerate(conn(kind, CELLS[c])) for j, v in enumerate(vs)]
    want.append(('end of the model', num(-1)))
    compare(ctx, r, 'model %s read back' % name, want)
    oblige(ctx, 'model %s: no error is reported' % name, alg.band(r.accepted(), r.log.cond('error')) is alg.FALSE, r.where(), 'an error is reported')
    oblige(ctx, 'model %s: one bounding box for each cell' % name, sorted(boxes.cells) == [0, 1, 2, 3], r.where(), str(boxes.cells))


def places(name):
    """(cell, module, offset) in the order of writing."""
    lats, asys, core = MODELS[name]
    w, h = 2 * len(lats[0][0]), 2 * len(lats[0])
    for ay in range(len(core)):
        for ax in range(len(core[0])):
            for l in asys[child(core, ax, ay)][0]:
                for ry in range(len(lats[l])):
                    for rx in range(len(lats[l][0])):
                        r = child(lats[l], rx, ry)
                        for cy in range(len(RTMS[r])):
                            for cx in range(len(RTMS[r][0])):
                                c = child(RTMS[r], cx, cy)
                                yield c, r, (ax * w + 2 * rx + cx * EXTENTS[c][0], ay * h + 2 * ry + cy * EXTENTS[c][1])


def run(ctx):
    ctx.rule = ('Value numbering of writing a model and reading it back with the XML document and the grids kept as values: the model read '
                'has the same parts, each under its own number, with the same children, planes, materials and shifted meshes.')
    bc = ctx.bitcode(harness.VERIF + '/probes/c17.cpp', ctx.config())
    opaque = LOG + '|' + c17.FACE + '|' + c17.OUTSIDE + '|' + VALID
    mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=opaque + '|' + c17.CALLS + r'|^back\(|^front\(|^modelText\(|readXDMF|' + BOX, opaque=opaque)
    for name in MODELS:
        with ctx.guard('model ' + name):
            model(ctx, mod, name)
