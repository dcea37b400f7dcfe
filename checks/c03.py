"""C03: polygon and mesh edges, and flipping."""
from engine import alg, vg
from engine.alg import num

KINDS = {'tri': (3, 1), 'quad': (4, 1), 'tri6': (6, 2), 'quad8': (8, 2)}


def edge_nodes(n, p):
    m = n if p == 1 else n // 2
    return [[i, (i + 1) % m] + ([m + i] if p == 2 else []) for i in range(m)]


def run(ctx):
    ctx.rule = ('Value-number getEdge/getEdgeConn/flip/flipFace of every polygon and mesh kind: edge i must be '
                '(corner i, corner i+1 cyclically[, mid node i]); the edge list of the flipped element must be the '
                'same set with the two corners of each edge exchanged; the mesh form must agree with the polygon form.')
    ctx.assumptions.append('mesh accessors are analysed on a symbolic mesh object; out[] does not alias it')
    for simd in (1, 0):
        mod = ctx.probe_module('c03.cpp', ctx.config(UM2_ENABLE_SIMD_VEC=simd))
        sfx = '' if simd else ' (array Vec)'
        for kind, (n, p) in KINDS.items():
            en = edge_nodes(n, p)
            ne, nv = len(en), p + 1
            for D in (2, 3):
                with ctx.guard('%s%d' % (kind, D)):
                    vg.fresh()
                    r = vg.evaluate(ctx, mod, 'probe_%s%d' % (kind, D))
                    V = vg.points(n, D)
                    w = r.where()
                    for e in range(ne):
                        for k in range(nv):
                            for d in range(D):
                                vg.expect(ctx, '%s%dD edge %d node %d coord %d%s' % (kind, D, e, k, d, sfx),
                                          r.out((e * nv + k) * D + d), V[en[e][k]][d], w)
                    # flipped edges: some rotation/reversal of the same loop
                    got = [[tuple(str(vg.single(r.out(((ne + e) * nv + k) * D + d))) for d in range(D)) for k in range(nv)] for e in range(ne)]
                    want = {tuple(tuple(str(x) for x in V[j]) for j in ([q[1], q[0]] + q[2:])) for q in en}
                    nm = '%s%dD flip reverses every edge%s' % (kind, D, sfx)
                    if {tuple(g) for g in got} == want:
                        ctx.ok(nm)
                    else:
                        bad = [g for g in got if tuple(g) not in want]
                        ctx.fail(nm, 'after flip() the edge (start, end[, mid]) %s is not the reverse of an original edge' % (bad[:1] or got,), w)
        for kind in ('tri6', 'quad8'):
            with ctx.guard('lin_' + kind):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_lin_' + kind)
                m = KINDS[kind][0] // 2
                V = vg.points(m, 2)
                for i in range(m):
                    for d in range(2):
                        vg.expect(ctx, '%s linear polygon vertex %d[%d]%s' % (kind, i, d, sfx), r.out(2 * i + d), V[i][d], r.where())
        for kind, (n, p) in KINDS.items():
            en = edge_nodes(n, p)
            ne, nv = len(en), p + 1
            with ctx.guard('mesh ' + kind):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_m_' + kind, args=('mesh', 'f', 'out'))
                for e in range(ne):
                    for k in range(nv):
                        for d in range(2):
                            vg.expect(ctx, 'mesh of %s: edge %d node %d coord %d agrees with the face polygon%s' % (kind, e, k, d, sfx),
                                      r.out(4 * (e * nv + k) + d), r.out(4 * (e * nv + k) + 2 + d), r.where())
            with ctx.guard('mesh conn ' + kind):
                vg.fresh()
                r = vg.evaluate(ctx, mod, 'probe_c_' + kind, args=('mesh', 'f', 'out'))
                o = lambda k: vg.single(r.out(k, size=4))
                conn = [o(2 * ne * nv + k) for k in range(n)]
                for e in range(ne):
                    for k in range(nv):
                        vg.expect(ctx, 'mesh of %s: edge connectivity %d[%d]%s' % (kind, e, k, sfx), r.out(e * nv + k, size=4), conn[en[e][k]], r.where())
                got = [tuple(str(o((ne + e) * nv + k)) for k in range(nv)) for e in range(ne)]
                want = {tuple(str(conn[j]) for j in ([q[1], q[0]] + q[2:])) for q in en}
                nm = 'mesh of %s: flipFace reverses every edge%s' % (kind, sfx)
                if set(got) == want:
                    ctx.ok(nm)
                else:
                    bad = [g for g in got if g not in want]
                    ctx.fail(nm, 'after flipFace the edge %s is not the reverse of an original edge' % (bad[:1] or got,), r.where())
