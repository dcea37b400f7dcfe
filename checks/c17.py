"""C17: hierarchy traversals place every cell at the sum of its parents' offsets."""
import re
from engine import alg, harness, ir, lifetime, vg
from engine.alg import num, rc, cmp, ite, band, bor, bnot
from engine.vg import IN
from checks.c13 import Soup, compare
from checks.c16 import MESH, CELLS, N, TRI, QUAD, TRI6, QUAD8, conn, child
from checks.c19 import LOG, Log
from checks.xml import Xml

VTK = {TRI: 5, QUAD: 9, TRI6: 22, QUAD8: 23}
MATS = [[1, 0], [2, 0, 2], [0, 1, 1], [1]]
RTMS = [[[0, 1]], [[2], [3]]]
ASYS = [[0, 1], [1]]
LAYOUT = {'wide': ([[[0, 1]], [[1, 0]]], [[1], [0]]), 'tall': ([[[0], [1]], [[1], [0]]], [[0, 1]])}
FACE = r'um2::Polytope<2, [0-9], [0-9], 2, double>::(meanChordLength|area)\('
CALLS = (r'std::sort<double|um2::mpact::Model::|^world|^small|^wide\(|^tall\(|^dump\(|^list\(|^text\(|^void (setMesh|setDivs)<|um2::PolytopeSoup::|'
         r'um2::(FaceVertexMesh|Matrix)<.*>::|um2::Vector<.*>::(Vector|~Vector|operator=|emplace|push|append|resize|reserve|clear|insert|recommend)|'
         r'um2::String::(String|~String|operator=|operator\+=|compare|data|size|append|assign|substr)|um2::XSec::|um2::Material::|writeXDMFUniformGrid|operator\+|'
         r'getASCIINumber|computeCellHomogenizedXSec')
OUTSIDE = r'^(pugi::xml_[a-np-z]|H5|std::(basic_[io]?f?stream|basic_filebuf|basic_ios|basic_ostream|ios_base|locale|ostream|__cxx11::basic_string)|std::operator<<|std::basic_ostream)'

SORT = r'void std::sort<double\*>\(double\*, double\*\)'


def SYM(what, m, f):
    return alg.sym('%s of face %d of mesh %d/%d' % (what, f, m[0], m[1]))


class Faces:
    """Areas and mean chord lengths of single faces are symbols (C06 decides them)."""

    def __init__(self):
        self.asked = 0

    def __call__(self, ev, ins, ops, st, cond):
        m = re.search(r'um2::Polytope<2, [0-9], ([0-9]), 2, double>::(meanChordLength|area)\(', ins.get('dem') or '')
        if not m:
            return None
        n = int(m.group(1))
        xs = [ev.load(st, ev.gep(ops[0], num(16 * j)), 'double', 8) for j in range(n)]
        for mesh, (b, nv, nf) in MESH.items():
            for f, vs in enumerate(conn(mesh[0], mesh) if N[mesh[0]] == n else ()):
                if all(x is num(IN(b + 2 * v)) for x, v in zip(xs, vs)):
                    self.asked += 1
                    return num(SYM(m.group(2), mesh, f))
        return num(alg.sym('%s of a face that is not one of the model' % m.group(2)))


def compare_strings(ev, ins, ops, st, cond):
    """Comparison of two known strings (C10 decides the comparison itself)."""
    if not re.match(r'um2::String::compare\(um2::String const&\) const', ins.get('dem') or ''):
        return None
    fs = [f for f in ('_ZNK3um26String4sizeEv', '_ZNK3um26String4dataEv') if f in ev.mod.functions]
    if len(fs) != 2:
        return None
    text = []
    for p in ops[:2]:
        n, d = (ev.descend(f, ins, [p], st.copy(), cond) for f in fs)
        n = alg.leaves(n)
        if len(n) != 1 or not isinstance(n[0], alg.Rat) or not n[0].is_const():
            return None
        cs = [ir.constval(ev.load(st, ev.gep(d, num(k)), 'i8', 1)) for k in range(int(n[0].const()))]
        if None in cs:
            return None
        text.append(cs)
    return num((text[0] > text[1]) - (text[0] < text[1]))


def evaluate(ctx, mod, name, call=None, mem=True):
    log, faces = Log(), Faces()

    def h(*a):
        for f in (log, faces, compare_strings, sort_numbers, call):
            r = f(*a) if f is not None else None
            if r is not None:
                return r
    r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': h, 'mem': mem}, ('in', 'out'), limit=2000)
    r.log = log
    if mem:
        bad, n = lifetime.faults(r.ev, returned=r.accepted())
        ctx.analysed['memory accesses'] = ctx.analysed.get('memory accesses', 0) + n['accesses']
        if bad:
            ctx.fail('%s: memory' % name, '; '.join(t for t, _ in bad[:3]), lifetime.where(bad[0][1]) or r.where())
        else:
            ctx.ok('%s: memory' % name)
    return r


def XS(m, k, g):
    return IN(1000 + 20 * m + 2 * 'afnts'.index(k) + g)


def total(m, g):
    """absorption and scattering"""
    return XS(m, 'a', g) + XS(m, 's', g)


def cells(layout):
    """(ids, occurrence counters, offset) of every cell in the order of the traversal: x fastest, z outside of x and y of a lattice."""
    lats, core = LAYOUT[layout]
    seen, out = {}, []

    def nth(kind, i):
        seen[kind, i] = seen.get((kind, i), -1) + 1
        return seen[kind, i]
    half = rc(1) / rc(2)
    for ay in range(len(core)):
        for ax in range(len(core[0])):
            a = child(core, ax, ay)
            na = nth('a', a)
            for z, l in enumerate(ASYS[a]):
                nl = nth('l', l)
                zm = (IN(800 + 10 * a + z) + IN(800 + 10 * a + z + 1)) * half
                for ry in range(len(lats[l])):
                    for rx in range(len(lats[l][0])):
                        r = child(lats[l], rx, ry)
                        nr = nth('r', r)
                        for cy in range(len(RTMS[r])):
                            for cx in range(len(RTMS[r][0])):
                                c = child(RTMS[r], cx, cy)
                                nc = nth('c', c)
                                b = 700 + 10 * l
                                x = IN(900 + ax) + IN(b) + IN(b + 2) * rc(rx) + IN(600 + 20 * r + cx)
                                y = IN(910 + ay) + IN(b + 1) + IN(b + 3) * rc(ry) + IN(600 + 20 * r + 10 + cy)
                                out.append(((a, l, r, c), (na, nl, nr, nc), (x, y, zm), z))
    return out


def mesh_soup(c):
    s = Soup()
    m = CELLS[c]
    b, nv, nf = MESH[m]
    s.v = [(IN(b + 2 * i), IN(b + 2 * i + 1), rc(0)) for i in range(nv)]
    s.e = [(VTK[m[0]], vs) for vs in conn(m[0], m)]
    return s


def soup(ctx, mod, layout):
    vg.fresh()
    r = evaluate(ctx, mod, 'soup_' + layout)
    want = Soup()
    for (a, l, rt, c), n, (x, y, z), _ in cells(layout):
        s = mesh_soup(c)
        s.v = [(p + x, q + y, z) for p, q, _ in s.v]
        ids = range(len(s.e))
        mats = MATS[c]
        xs = [(total(m, 0) + total(m, 1)) * (rc(1) / rc(2)) for m in mats]
        mcl = [SYM('meanChordLength', CELLS[c], f) for f in ids]
        for k, i, j in zip(('Assembly', 'Lattice', 'RTM', 'Coarse_Cell'), (a, l, rt, c), n):
            s.set('%s_%05d_%05d' % (k, i, j), ids)
        s.set('Material_ID', ids, [rc(m) for m in mats])
        s.set('One_Group_XS', ids, xs)
        s.set('Mean_Chord_Length', ids, mcl)
        s.set('Knudsen_Number', ids, [rc(1) / (x * m) for x, m in zip(xs, mcl)])
        want = want.plus(s.sorted())
    compare(ctx, r, 'flattened (%s)' % layout, want.sorted().dump('the model'))


def oblige(ctx, what, holds, where, detail=''):
    if holds:
        ctx.ok(what)
    else:
        ctx.fail(what, detail, where)


def quiet(ctx, r, name):
    oblige(ctx, '%s: no error is reported' % name, r.log.cond('error') is alg.FALSE, r.where(), 'reports an error')


def sort_numbers(ev, ins, ops, st, cond):
    """Sorting of known numbers; symbolic ones (only added up afterwards) stay in their order."""
    if not re.match(SORT, ins.get('dem') or ''):
        return None
    a, b = (alg.leaves(p) for p in ops[:2])
    if len(a) != 1 or len(b) != 1 or a[0].base != b[0].base or not (b[0].off - a[0].off).is_const():
        return None
    n = int((b[0].off - a[0].off).const()) // 8
    at = [ev.gep(ops[0], num(8 * k)) for k in range(n)]
    xs = [ev.load(st, p, 'double', 8) for p in at]
    if all(ir.constval(x) is not None for x in xs):
        for p, x in zip(at, sorted(xs, key=ir.constval)):
            ev.store(st, p, x, 'double', 8, cond, ins.get('loc'))
    return alg.UNDEF


class Outside:
    """Files: what is written to streams, in order; XML and HDF5 calls have no effect on the model."""

    def __init__(self):
        self.text = []

    def __call__(self, ev, ins, ops, st, cond):
        d = ins.get('dem') or ''
        if not re.search(OUTSIDE, d):
            return None
        if 'is_open' in d:
            return alg.TRUE
        m = re.search(r'_M_insert<(double|long|bool)>|operator<<\((int|double|float)\)|__ostream_insert<|operator<< ?<', d)
        if m:
            if m.group(1) or m.group(2):
                self.text.append((cond, ops[1]))
            return ops[0]
        return alg.UNDEF


def chords(ctx, mod, layout):
    vg.fresh()
    r = evaluate(ctx, mod, 'chords_' + layout)
    want = [SYM('meanChordLength', CELLS[i[3]], f) for i, _, _, _ in cells(layout) for f in range(MESH[CELLS[i[3]]][2])]
    vg.expect(ctx, 'mean chord lengths (%s): number' % layout, r.out(0), num(len(want)), r.where())
    for k, v in enumerate(want):
        vg.expect(ctx, 'mean chord lengths (%s): of face %d' % (layout, k), r.out(1 + k), num(v), r.where())
    quiet(ctx, r, 'mean chord lengths (%s)' % layout)


def volumes(ctx, mod, layout):
    vg.fresh()
    out = Outside()
    r = evaluate(ctx, mod, 'volumes_' + layout, out)
    want = [rc(0)] * 3
    for (a, l, rt, c), _, _, z in cells(layout):
        dz = IN(800 + 10 * a + z + 1) - IN(800 + 10 * a + z)
        for f, m in enumerate(MATS[c]):
            want[m] = want[m] + SYM('area', CELLS[c], f) * dz
    got = [v for c, v in out.text]
    oblige(ctx, 'material volumes (%s): one number per material' % layout, len(got) == 3, r.where(), '%d numbers' % len(got))
    for m, (g, w) in enumerate(zip(got, want)):
        vg.expect(ctx, 'material volumes (%s): material %d' % (layout, m), g, num(w), r.where())
    quiet(ctx, r, 'material volumes (%s)' % layout)


def homogenised(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'xs')
    for c, m in enumerate(CELLS[:4]):
        area = [rc(0)] * 3
        for f, i in enumerate(MATS[c]):
            area[i] = area[i] + SYM('area', m, f)
        used = alg.TRUE
        for i in set(MATS[c]):
            used = band(used, bnot(cmp('eq', num(area[i]), num(0))))
        all_ = area[0] + area[1] + area[2]

        def mean(k):
            return sum((area[i] * IN(1000 + 20 * i + k) for i in set(MATS[c])), rc(0)) / all_
        o = 30 * c
        vg.expect(ctx, 'homogenised cell %d: groups' % c, r.out(o), num(2), r.where())
        vg.expect(ctx, 'homogenised cell %d: macroscopic' % c, r.out(o + 1), num(1), r.where())
        fissile = bor(cmp('gt', num(mean(2)), num(0)), cmp('gt', num(mean(3)), num(0)))
        vg.expect(ctx, 'homogenised cell %d: fissile' % c, ite(used, r.out(o + 2), vg.SKIP), ite(fissile, num(1), num(0)), r.where())
        o += 3
        for g in range(2):
            for j, k in enumerate((g, 2 + g, 4 + g, 6 + g, 8 + g, 10 + 2 * g, 11 + 2 * g)):
                vg.expect(ctx, 'homogenised cell %d: group %d, %s' % (c, g, ('a', 'f', 'nuf', 'tr', 's', 'to 0', 'to 1')[j]),
                          ite(used, r.out(o), vg.SKIP), num(mean(k)), r.where())
                o += 1


def xdmf(ctx, mod, layout, kn, xs):
    name = 'xdmf%s_%s' % ('_kn' if kn else '_xs' if xs else '', layout)
    vg.fresh()
    doc, out = Xml(), Outside()

    def call(*a):
        x = doc(*a)
        return x if x is not None else out(*a)
    r = evaluate(ctx, mod, name, call, mem=False)
    want = []

    def text(what, t):
        want.append(('length of %s' % what, num(len(t))))
        want.extend(('character %d of %s' % (k, what), num(ord(x))) for k, x in enumerate(t))
    half = rc(1) / rc(2)
    for i, n, off, _ in cells(layout):
        a, l, rt, c = ['%s_%05d_%05d' % (k, x, j) for k, x, j in zip(('Assembly', 'Lattice', 'RTM', 'Coarse_Cell'), i, n)]
        text('the name of grid %s' % c, c)
        text('the data file of grid %s' % c, 'n.h5')
        text('the group of grid %s' % c, '/n/%s/%s/%s' % (a, l, rt))
        want.extend(('coordinate %d of the origin of grid %s' % (d, c), num(off[d])) for d in range(3))
        s = mesh_soup(i[3])
        ids, mats = range(len(s.e)), MATS[i[3]]
        s.set('Material_ID', ids, [rc(m) for m in mats])
        if kn or xs:
            for k, f in (('a', lambda m, g: XS(m, 'a', g)), ('f', lambda m, g: XS(m, 'f', g)), ('s', lambda m, g: XS(m, 's', g)), ('t', total)):
                s.set('One_Group_Avg_XS_' + k, ids, [(f(m, 0) + f(m, 1)) * half for m in mats])
        if xs:
            for g in range(2):
                s.set('Group_%05d_Total_XS' % g, ids, [total(m, g) for m in mats])
        if kn:
            mcl = [SYM('meanChordLength', CELLS[i[3]], f) for f in ids]
            s.set('Mean_Chord_Length', ids, mcl)
            s.set('Knudsen_Number', ids, [rc(1) / ((total(m, 0) + total(m, 1)) * half * k) for m, k in zip(mats, mcl)])
        want += s.sorted().dump('grid %s' % c)
    want.append(('end of the grids', num(-1)))
    compare(ctx, r, 'file (%s)' % name, want)
    quiet(ctx, r, 'file (%s)' % name)
    document(ctx, r, doc, name, layout)


def document(ctx, r, doc, name, layout):
    """The tree of grids: names, sizes, plane heights."""
    lats, core = LAYOUT[layout]
    w = r.where()
    root = doc.files.get('dir/n.xdmf')
    domain = root and root.find('Xdmf') and root.find('Xdmf').find('Domain')
    if not domain:
        ctx.fail('file (%s): Xdmf and Domain' % name, 'missing', w)
        return

    def info(n, key):
        return [c.text for c in n.children if c.tag == 'Information' and c.attrs.get('Name') == key]

    def grids(n):
        return [c for c in n.children if c.tag == 'Grid']

    def size(n, what, nx, ny):
        t = info(n, 'NX_by_NY')
        oblige(ctx, '%s: its size' % what, len(t) == 1 and [x for x in re.split(r'\D+', t[0]) if x] == [str(nx), str(ny)], w, 'written as %s' % t)

    def named(n, what):
        oblige(ctx, '%s: its name' % what, n.attrs.get('Name') == what, w, 'is %s' % n.attrs.get('Name'))
        oblige(ctx, '%s: a tree' % what, n.attrs.get('GridType') == 'Tree', w, 'GridType is %s' % n.attrs.get('GridType'))
    mats = info(domain, 'Materials')
    oblige(ctx, 'file (%s): materials' % name, len(mats) == 1 and [x.strip() for x in mats[0].split(',')] == ['Ma', 'Mbb', 'Mc'], w, str(mats))
    tree = {}
    for i, n, _, z in cells(layout):
        a, l, rt, c = ['%s_%05d_%05d' % (k, x, j) for k, x, j in zip(('Assembly', 'Lattice', 'RTM', 'Coarse_Cell'), i, n)]
        tree.setdefault((a, i[0]), {}).setdefault((l, i[1], z), {}).setdefault((rt, i[2]), []).append(c)
    top = grids(domain)
    oblige(ctx, 'file (%s): one core' % name, len(top) == 1, w, '%d grids' % len(top))
    named(top[0], 'n')
    size(top[0], 'core (%s)' % name, len(core[0]), len(core))

    def same(n, want, what):
        g = grids(n)
        oblige(ctx, '%s: number of parts' % what, len(g) == len(want), w, '%d instead of %d' % (len(g), len(want)))
        return list(zip(g, want))
    for ga, (a, ia) in same(top[0], list(tree), 'core (%s)' % name):
        named(ga, a)
        size(ga, a, len(ASYS[ia]), 1)
        ls = tree[a, ia]
        for gl, (l, il, z) in same(ga, list(ls), a):
            named(gl, l)
            size(gl, l, len(lats[il][0]), len(lats[il]))
            t = re.split(r'[,\s]+', (info(gl, 'Z') or [''])[0])
            oblige(ctx, '%s: three heights' % l, len(t) == 3 and all(re.fullmatch(r'\?\d+', x) for x in t), w, str(t))
            lo, hi = IN(800 + 10 * ia + z), IN(800 + 10 * ia + z + 1)
            for x, v, k in zip(t, (lo, (lo + hi) * (rc(1) / rc(2)), hi), ('low', 'middle', 'high')):
                vg.expect(ctx, '%s: %s height' % (l, k), doc.values[int(x[1:])], num(v), w)
            rs = ls[l, il, z]
            for gr, (rt, ir_) in same(gl, list(rs), l):
                named(gr, rt)
                size(gr, rt, len(RTMS[ir_][0]), len(RTMS[ir_]))
                for gc, c in same(gr, rs[rt, ir_], rt):
                    oblige(ctx, '%s: its name' % c, gc.attrs.get('Name') == c, w, 'is %s' % gc.attrs.get('Name'))


def cross(ctx, mod):
    vg.fresh()
    out = Outside()
    r = evaluate(ctx, mod, 'cross', out)
    want = [rc(3), rc(2)] + [IN(1000 + 20 * m + 2 * k + g) for m in range(3) for g in range(2) for k in range(5)]
    oblige(ctx, 'cross section file: all numbers', len(out.text) == len(want), r.where(), '%d numbers' % len(out.text))
    for k, ((c, g), w) in enumerate(zip(out.text, want)):
        vg.expect(ctx, 'cross section file: number %d' % k, g, num(w), r.where())
    quiet(ctx, r, 'cross section file')


def nokind(ctx, mod, name):
    vg.fresh()
    r = evaluate(ctx, mod, name + '_nokind', Outside())
    oblige(ctx, '%s: a cell of another mesh kind is reported' % name, band(r.accepted(), bnot(r.log.cond('error'))) is alg.FALSE, r.where(), 'no error is reported')


def module(ctx):
    bc = ctx.bitcode(harness.VERIF + '/probes/c17.cpp', ctx.config())
    opaque = LOG + '|' + FACE + '|' + OUTSIDE
    return ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=opaque + '|' + CALLS, opaque=opaque)


def run(ctx):
    ctx.rule = ('Value numbering of the flattening operations on a small model with symbolic coordinates, plane heights and cross '
                'sections: positions, sets, grids, volumes and mean chord lengths equal the sums over the parents.')
    mod = module(ctx)
    tasks = []
    for layout in LAYOUT:
        tasks += [('flattened ' + layout, lambda l=layout: soup(ctx, mod, l)), ('chords ' + layout, lambda l=layout: chords(ctx, mod, l)),
                  ('volumes ' + layout, lambda l=layout: volumes(ctx, mod, l)),
                  ('xdmf ' + layout, lambda l=layout: xdmf(ctx, mod, l, l == 'tall', False))]
    tasks += [('homogenised', lambda: homogenised(ctx, mod)), ('cross sections', lambda: cross(ctx, mod)), ('xdmf with cross sections', lambda: xdmf(ctx, mod, 'wide', False, True))]
    tasks += [('no kind ' + n, lambda n=n: nokind(ctx, mod, n)) for n in ('soup', 'xdmf', 'xs')]
    ctx.each(tasks)
