"""C13: mesh conversions preserve geometry and sets."""
from fractions import Fraction as Fr
from engine import alg, harness, lifetime, vg
from engine.alg import num, rc
from engine.vg import IN
from checks.c19 import LOG, Log

LINE, TRI, QUAD, TRI6, QUAD8 = 3, 5, 9, 22, 23
ARGS = ('in', 'out')
CALLS = r'um2::PolytopeSoup::|^dump\(|^shapes\(|^first\(|^second\(|^numbers\(|dumpMesh<|^void mesh<|^void soup<|double\* faces<|adjacency<|um2::FaceVertexMesh<.*>::'
SORTS = r'void um2::mortonSortPermutation<|um2::FaceVertexMesh<.*>::boundingBox\('


class Soup:
    def __init__(self):
        self.v, self.e, self.s = [], [], []

    def copy(self):
        t = Soup()
        t.v, t.e, t.s = list(self.v), list(self.e), list(self.s)
        return t

    def set(self, name, ids, data=()):
        self.s.append((name, list(ids), list(data)))
        return self

    def sorted(self):
        t = self.copy()
        t.s = []
        for n, ids, data in sorted(self.s, key=lambda x: x[0]):
            p = sorted(range(len(ids)), key=lambda k: ids[k])
            t.s.append((n, [ids[k] for k in p], [data[k] for k in p] if data else []))
        return t

    def plus(self, o):
        t = Soup()
        t.v = self.v + o.v
        t.e = self.e + [(k, [i + len(self.v) for i in c]) for k, c in o.e]
        a, b = {n: (i, d) for n, i, d in self.s}, {n: ([x + len(self.e) for x in i], d) for n, i, d in o.s}
        for n in sorted(set(a) | set(b)):
            x, y = a.get(n, ([], [])), b.get(n, ([], []))
            t.s.append((n, x[0] + y[0], x[1] + y[1]))
        return t

    def subset(self, name):
        t = Soup()
        ids = [i for n, i, _ in self.s if n == name][0]
        t.e = [self.e[i] for i in ids]
        t.v = sorted({i for _, c in t.e for i in c})
        for n, i, d in self.s:
            both = [k for k in i if k in ids]
            if n != name and both:
                t.s.append((n, [ids.index(k) for k in both], [d[i.index(k)] for k in both] if d else []))
        return t

    def sets(self, o, who):
        o.append(('number of sets of ' + who, num(len(self.s))))
        for n, ids, data in self.s:
            w = 'set %s of %s' % (n, who)
            o.append(('length of the name of ' + w, num(len(n))))
            o += [('character %d of the name of %s' % (k, w), num(ord(c))) for k, c in enumerate(n)]
            o.append(('size of ' + w, num(len(ids))))
            o += [('element %d of %s' % (k, w), num(i)) for k, i in enumerate(ids)]
            o.append(('number of data of ' + w, num(len(data))))
            o += [('datum %d of %s' % (k, w), num(x)) for k, x in enumerate(data)]

    def dump(self, who):
        o = [('number of vertices of ' + who, num(len(self.v)))]
        o += [('coordinate %d of vertex %d of %s' % (d, i, who), num(p[d])) for i, p in enumerate(self.v) for d in range(3)]
        o.append(('number of elements of ' + who, num(len(self.e))))
        for i, (k, c) in enumerate(self.e):
            o.append(('kind of element %d of %s' % (i, who), num(k)))
            o.append(('length of element %d of %s' % (i, who), num(len(c))))
            o += [('vertex %d of element %d of %s' % (j, i, who), num(v)) for j, v in enumerate(c)]
        self.sets(o, who)
        return o


def shapes(s, verts, who):
    """A subset: elements by the coordinates of their vertices."""
    o = [('number of vertices of ' + who, num(len(s.v))), ('number of elements of ' + who, num(len(s.e)))]
    for i, (k, c) in enumerate(s.e):
        o.append(('kind of element %d of %s' % (i, who), num(k)))
        o.append(('length of element %d of %s' % (i, who), num(len(c))))
        o += [('coordinate %d of vertex %d of element %d of %s' % (d, j, i, who), num(verts[v][d])) for j, v in enumerate(c) for d in range(3)]
    s.sets(o, who)
    return o


def points(b, n):
    return [tuple(IN(b + 3 * i + d) for d in range(3)) for i in range(n)]


def first():
    s = Soup()
    s.v = points(0, 9)
    s.e = [(QUAD, [8, 1, 2, 7]), (TRI, [3, 0, 7]), (TRI6, [6, 5, 4, 3, 2, 1]), (TRI, [2, 4, 8])]
    return s.set('q', [1, 2, 3], [IN(100), IN(101), IN(102)]).set('a', [0, 3]).set('m', [1]).set('b', [0, 1], [IN(110), IN(111)])


def second():
    s = Soup()
    s.v = points(200, 5)
    s.e = [(TRI, [4, 3, 2]), (TRI, [0, 1, 4])]
    return s.set('q', [0, 1], [IN(220), IN(221)]).set('n', [1], [IN(230)]).set('m', [0, 1])


def evaluate(ctx, mod, name, call=None, mem=True, assume=()):
    log = Log()

    def h(*a):
        r = log(*a)
        return r if r is not None or call is None else call(*a)
    r = vg.evaluate(ctx, mod, 'probe_' + name, {'call': h, 'mem': mem}, ARGS, limit=2000)
    r.log = log
    if mem:
        bad, n = lifetime.faults(r.ev, returned=r.accepted())
        ctx.analysed['memory accesses'] = ctx.analysed.get('memory accesses', 0) + n['accesses']
        if bad:
            ctx.fail('%s: memory' % name, '; '.join(t for t, _ in bad[:3]), lifetime.where(bad[0][1]) or r.where())
        else:
            ctx.ok('%s: memory' % name)
    return r


def compare(ctx, r, name, want, at=0):
    for k, (what, v) in enumerate(want):
        vg.expect(ctx, '%s: %s' % (name, what), r.out(at + k), v, r.where())
    return at + len(want)


def quiet(ctx, r, name, error):
    c = r.log.cond('error')
    want = alg.TRUE if error else alg.FALSE
    if c is want:
        ctx.ok('%s: %s' % (name, 'reported' if error else 'no error'))
    else:
        ctx.fail('%s: %s' % (name, 'is not reported as an error' if error else 'reports an error'), '', r.where())


def soups(ctx, mod, asserts):
    sfx = '' if asserts else ' (no assertions)'

    def one(name, expect, error=False):
        with ctx.guard(name):
            vg.fresh()
            r = evaluate(ctx, mod, name)
            compare(ctx, r, name + sfx, expect())
            quiet(ctx, r, name + sfx, error)

    def add():
        s = Soup()
        s.v = [tuple(IN(d) for d in range(3)), tuple(IN(3 + d) for d in range(3)), (IN(6), IN(7), rc(0))]
        s.e = [(TRI, [2, 0, 1]), (LINE, [1, 2])]
        s.set('x', [1]).set('long_name_of_a_set_that_is_not_short', [0, 1], [IN(10), IN(11)])
        w = Soup().dump('an empty soup')
        w += [('number given to part %d' % k, num(v)) for k, v in enumerate((0, 1, 2, 0, 1, 0, 1))]
        return w + s.dump('the soup') + s.dump('the soup after reserving') + [('kind %d' % k, num(v)) for k, v in enumerate((TRI, LINE))]
    one('add', add)
    one('refuse', lambda: [('answer %d' % k, num(-1)) for k in range(3)] + second().dump('the soup'), error=True)

    def build():
        s = first()
        w = s.dump('the soup') + [('kind %d' % k, num(v)) for k, v in enumerate((QUAD, TRI, TRI6))]
        flat = [9, 4, QUAD, TRI, TRI6, TRI, 0, 4, 7, 13, 16] + [i for _, c in s.e for i in c] + [0, 3, 5, 6, 8] + [i for _, x, _ in s.s for i in x]
        w += [('accessor value %d' % k, num(v)) for k, v in enumerate(flat)]
        by = {n: (i, d) for n, i, d in s.s}
        for n in 'mqba':
            i, d = by[n]
            w += [('set %s by name, value %d' % (n, k), num(v)) for k, v in enumerate([len(i)] + i + [len(d)] + d)]
        return w
    one('build', build)

    def move():
        s = first()
        s.v = [tuple(p[d] + IN(300 + d) for d in range(3)) for p in s.v]
        return s.dump('the shifted soup')
    one('move', move)
    if not asserts:
        def sort():
            t = second()
            t.e.append((TRI, [1, 2, 3]))
            t.set('c', [2, 0, 1], [IN(240), IN(241), IN(242)]).set('c0', [1, 2, 0])
            return first().sorted().dump('the sorted soup') + t.sorted().dump('the second sorted soup')
        one('sort', sort)

    def append():
        a, b = first().sorted(), second().sorted()
        return (a.plus(b).dump('first and second') + b.plus(a).dump('second and first') +
                a.dump('the first') + b.dump('the second'))
    one('append', append)

    def empty():
        b, w = second().sorted(), []
        e = b
        w += e.dump('empty and second') + e.dump('with nothing added')
        e = e.copy()
        e.v = e.v + points(0, 1)
        w += e.dump('with a vertex added')
        g = Soup()
        g.v, g.e = points(3, 2), [(LINE, [1, 0])]
        w += e.plus(g).dump('with a soup without sets added')
        g = g.plus(b)
        w += g.dump('a soup with sets added to one without')
        return w + g.plus(g).dump('a soup added to itself')
    one('append_empty', empty)
    for n in 'qamb':
        def sub():
            a = first()
            return shapes(a.subset(n), a.v, 'the subset') + a.dump('the soup')
        one('subset_' + n, sub)
    one('subset_none', lambda: shapes(Soup(), [], 'the subset') + first().dump('the soup'), error=True)


def compared(ctx, mod):
    vg.fresh()
    r = evaluate(ctx, mod, 'compare')
    names = ['itself', 'another soup', 'one more vertex', 'one more vertex (other way)', 'one more element', 'one more set',
             'other vertex order', 'data in one only', 'data in the other only', None, 'other element in the set', 'other kind', None]
    names += ['coordinate %d of vertex %d moved' % (d, i) for i in range(2) for d in range(3)]
    for k, n in enumerate(names):
        if n is None:
            continue
        vg.expect(ctx, 'compare with %s: equal' % n, r.out(k), num(1 if k == 0 else 0), r.where())
    # data are equal up to a tolerance: exact equality is accepted, a difference above 1e-3 is not
    a, b = num(IN(100)), num(IN(101))
    vg.expect(ctx, 'compare: equal set data', alg.ite(alg.cmp('eq', a, b), r.out(9), vg.SKIP), num(1), r.where())
    for x, y in ((a, b), (b, a)):
        far = alg.cmp('gt', alg.sub(x, y), num(rc(Fr(1, 1000))))
        vg.expect(ctx, 'compare: different set data', alg.ite(far, r.out(9), vg.SKIP), num(0), r.where())


KINDS = {'tri': (3, 5, 3, TRI), 'quad': (4, 6, 3, QUAD), 'tri6': (6, 8, 3, TRI6), 'quad8': (8, 10, 3, QUAD8)}


def conn(n, nv, f):
    return [(f + j if f % 2 == 0 else nv + f - j) % nv for j in range(n)]


def around(cs, nv):
    w = []
    for v in range(nv):
        fs = [f for f, c in enumerate(cs) if v in c]
        w.append(('number of faces around vertex %d' % v, num(len(fs))))
        w += [('face %d around vertex %d' % (k, v), num(f)) for k, f in enumerate(fs)]
    return w + [('length of the adjacency', num(sum(map(len, cs))))]


BOX = ('xmin', 'ymin', 'xmax', 'ymax')


class Order:
    """Stands for the sort along the space-filling curve: answers with a given order, records what is sorted
    (the bounding box of the mesh, decided elsewhere, is a symbol)."""

    def __init__(self, orders):
        self.orders, self.seen = orders, []

    def __call__(self, ev, ins, ops, st, cond):
        dem = ins.get('dem') or ''
        if '::boundingBox(' in dem:
            if len(ops) != 2:
                raise harness.CheckError('bounding box returned in registers')
            for i, v in enumerate(BOX):
                ev.store(st, ev.gep(ops[0], num(8 * i)), num(alg.sym(v)), 'double', 8, cond, ins.get('loc'))
            return alg.UNDEF
        if 'um2::mortonSortPermutation<' not in dem:
            return None
        k = len(self.seen)
        order = self.orders[k]
        n = len(order)
        p = [[ev.load(st, ev.gep(ops[0], num(16 * i + 8 * d)), 'double', 8) for d in range(2)] for i in range(n)]
        scale = None
        if len(ops) > 3:
            scale = list(ops[3]) if isinstance(ops[3], tuple) else [ev.load(st, ev.gep(ops[3], num(8 * d)), 'double', 8) for d in range(2)]
        self.seen.append((p, scale))
        for i, v in enumerate(order):
            ev.store(st, ev.gep(ops[2], num(4 * i)), num(v), 'i32', 4, cond, ins.get('loc'))
        return alg.UNDEF


def meshes(ctx, mod):
    for name, (n, nv, nf, kind) in KINDS.items():
        cs = [conn(n, nv, f) for f in range(nf)]
        with ctx.guard('from_' + name):
            vg.fresh()
            r = evaluate(ctx, mod, 'from_' + name)
            w = [('number of vertices', num(nv))] + [('coordinate %d of vertex %d' % (d, i), num(IN(3 * i + d))) for i in range(nv) for d in range(2)]
            w += [('number of faces', num(nf))] + [('vertex %d of face %d' % (j, f), num(v)) for f, c in enumerate(cs) for j, v in enumerate(c)]
            compare(ctx, r, 'soup to mesh (%s)' % name, w)
            quiet(ctx, r, 'soup to mesh (%s)' % name, False)
        for bad in ('wrong', 'mixed'):
            with ctx.guard('from_%s_%s' % (bad, name)):
                vg.fresh()
                try:
                    r = evaluate(ctx, mod, 'from_%s_%s' % (bad, name), mem=False)
                except vg.NeverReturns:
                    ctx.ok('soup of %s elements to mesh (%s): rejected' % (bad, name))
                    continue
                quiet(ctx, r, 'soup of %s elements to mesh (%s)' % (bad, name), True)
        with ctx.guard('to_' + name):
            vg.fresh()
            r = evaluate(ctx, mod, 'to_' + name)
            s = Soup()
            s.v = [(IN(2 * i), IN(2 * i + 1), rc(0)) for i in range(nv)]
            s.e = [(kind, c) for c in cs]
            compare(ctx, r, 'mesh to soup (%s)' % name, s.dump('the soup'))
        with ctx.guard('vf_' + name):
            vg.fresh()
            r = evaluate(ctx, mod, 'vf_' + name)
            compare(ctx, r, 'adjacency (%s)' % name, around(cs, nv) + around(cs, nv + 1))
        for pv, pf in zip(orders(nv), orders(nf)):
            for probe in ('morton', 'plain'):
                with ctx.guard('%s_%s' % (probe, name)):
                    vg.fresh()
                    o = Order([pv, pf])
                    r = evaluate(ctx, mod, '%s_%s' % (probe, name), o)
                    if len(o.seen) != 2:
                        raise harness.CheckError('%d sorts' % len(o.seen))
                    nm = 'mesh reordered (%s, %s, %s)' % (name, pv, pf)
                    w = [('coordinate %d of vertex %d' % (d, i), num(IN(2 * pv[i] + d))) for i in range(nv) for d in range(2)]
                    w += [('coordinate %d of vertex %d of face %d' % (d, j, f), num(IN(2 * v + d)))
                          for f in range(nf) for j, v in enumerate(cs[pf[f]]) for d in range(2)]
                    if probe == 'morton':
                        inv = {v: i for i, v in enumerate(pv)}
                        w += around([[inv[v] for v in cs[pf[f]]] for f in range(nf)], nv)
                    compare(ctx, r, nm, w)
                    scaled(ctx, r, nm + ' vertices', o.seen[0], [(IN(2 * i), IN(2 * i + 1)) for i in range(nv)])
                    if n == 3:
                        scaled(ctx, r, nm + ' faces', o.seen[1], [[sum((IN(2 * v + d) for v in c), rc(0)) / rc(3) for d in range(2)] for c in cs])


def scaled(ctx, r, nm, seen, want):
    """Points are ordered after mapping the bounding box onto the unit square."""
    p, s = seen
    box = [alg.sym(x) for x in BOX]
    for i, x in enumerate(want):
        for d in range(2):
            got = alg.mul(p[i][d], s[d]) if s else p[i][d]
            vg.expect(ctx, '%s: sorting coordinate %d of point %d' % (nm, d, i), got, num((x[d] - box[d]) / (box[2 + d] - box[d])), r.where())


def orders(n):
    return [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0], [(2 * i + 1) % n if n % 2 else (i ^ 1) for i in range(n)]]


def run(ctx):
    ctx.rule = ('Every number a soup or mesh answers after building, sorting, appending, extracting, shifting and converting '
                'equals the one the operation is defined to give; coordinates and set data are symbolic.')
    for asserts in (1, 0):
        bc = ctx.bitcode(harness.VERIF + '/probes/c13.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
        mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=LOG + '|' + SORTS + '|' + CALLS, opaque=LOG + '|' + SORTS)
        soups(ctx, mod, asserts)
        if asserts:
            with ctx.guard('compare'):
                compared(ctx, mod)
            meshes(ctx, mod)
