"""C25: dense matrices."""
from engine import alg, ir, vg
from engine.alg import rc, ra, R0, R1, num, leaf, Unsupported
from engine.harness import CheckError

KIND = dict(f=(4, 1), d=(8, 1), cf=(4, 2), cd=(8, 2))
COL, NOTRANS, TRANS, CTRANS = 102, 111, 112, 113
SHAPES = ((2, 3, 4), (3, 1, 2), (1, 4, 1))
ARGS = ('in', 'out', 'io')


class Cx:
    """Complex number over diagrams (imaginary part None for real data)."""

    def __init__(self, re, im=None):
        self.re, self.im = re, im

    def __add__(self, o):
        return Cx(alg.add(self.re, o.re), None if self.im is None else alg.add(self.im, o.im))

    def __sub__(self, o):
        return Cx(alg.sub(self.re, o.re), None if self.im is None else alg.sub(self.im, o.im))

    def __mul__(self, o):
        if self.im is None:
            return Cx(alg.mul(self.re, o.re))
        return Cx(alg.sub(alg.mul(self.re, o.re), alg.mul(self.im, o.im)),
                  alg.add(alg.mul(self.re, o.im), alg.mul(self.im, o.re)))

    def conj(self):
        return Cx(self.re, None if self.im is None else alg.neg(self.im))

    def inv(self):
        if self.im is None:
            return Cx(alg.div(num(1), self.re))
        n = alg.add(alg.mul(self.re, self.re), alg.mul(self.im, self.im))
        return Cx(alg.div(self.re, n), alg.neg(alg.div(self.im, n)))


class Blas:
    """Contracts of the BLAS/LAPACK routines on the abstract memory."""

    def __init__(self):
        self.calls = []

    def __call__(self, ev, ins, ops, st, cond):
        f = ins.get('fn') or ''
        if f.startswith('cblas_') or f.startswith('LAPACKE_'):
            name = f.split('_')[1]
            if name[0] not in 'sdcz':
                raise Unsupported('routine ' + f)
            sz, cx = dict(s=(4, 1), d=(8, 1), c=(4, 2), z=(8, 2))[name[0]]
            m = getattr(self, name[1:], None)
            if m is None:
                raise Unsupported('routine ' + f)
            self.calls.append(f)
            self.mem = (ev, st, cond, ins.get('loc'), sz, cx)
            return m(ops, f)
        return None

    def i(self, d):
        c = ir.constval(d)
        if c is None:
            raise Unsupported('size argument is not constant')
        return int(c)

    def rd(self, p, k):
        ev, st, cond, loc, sz, cx = self.mem
        ty = 'float' if sz == 4 else 'double'
        v = [ev.tonum(ev.load(st, ev.gep(p, num(sz * (cx * k + j))), ty, sz)) for j in range(cx)]
        return Cx(*v)

    def wr(self, p, k, v):
        ev, st, cond, loc, sz, cx = self.mem
        ty = 'float' if sz == 4 else 'double'
        for j, x in enumerate((v.re, v.im)[:cx]):
            ev.store(st, ev.gep(p, num(sz * (cx * k + j))), x, ty, sz, cond, loc)

    def scal(self, d):
        return self.rd(d, 0) if self.mem[5] == 2 else Cx(d)

    def zero(self):
        return Cx(num(0), num(0) if self.mem[5] == 2 else None)

    def entry(self, order, tr, p, ld, i, j):
        """op(A)(i, j) of a stored matrix."""
        if tr != NOTRANS:
            i, j = j, i
        x = self.rd(p, j * ld + i if order == COL else i * ld + j)
        return x.conj() if tr == CTRANS else x

    def axpby(self, alpha, x, beta, p, k):
        v = alpha * x
        b = [ir.constval(y) for y in (beta.re, beta.im) if y is not None]
        if any(y != 0 for y in b):
            v = v + beta * self.rd(p, k)       # beta = 0 does not read the output
        self.wr(p, k, v)

    def gemm(self, o, f):
        order, ta, tb, m, n, k = (self.i(x) for x in o[:6])
        alpha, a, lda, b, ldb, beta, c, ldc = o[6:14]
        lda, ldb, ldc = self.i(lda), self.i(ldb), self.i(ldc)
        need = lambda tr, r, cc: (r if tr == NOTRANS else cc) if order == COL else (cc if tr == NOTRANS else r)
        if lda < need(ta, m, k) or ldb < need(tb, k, n) or ldc < need(NOTRANS, m, n):
            raise Illegal('%s: leading dimension below the number of stored rows' % f)
        alpha, beta = self.scal(alpha), self.scal(beta)
        res = []
        for i in range(m):
            for j in range(n):
                s = self.zero()
                for t in range(k):
                    s = s + self.entry(order, ta, a, lda, i, t) * self.entry(order, tb, b, ldb, t, j)
                res.append((i, j, s))
        for i, j, s in res:
            self.axpby(alpha, s, beta, c, j * ldc + i if order == COL else i * ldc + j)
        return alg.UNDEF

    def gemv(self, o, f):
        order, ta, m, n = (self.i(x) for x in o[:4])
        alpha, a, lda, x, ix, beta, y, iy = o[4:12]
        lda, ix, iy = self.i(lda), self.i(ix), self.i(iy)
        if lda < (m if order == COL else n):
            raise Illegal('%s: leading dimension below the number of stored rows' % f)
        alpha, beta = self.scal(alpha), self.scal(beta)
        r, c = (m, n) if ta == NOTRANS else (n, m)
        res = []
        for i in range(r):
            s = self.zero()
            for j in range(c):
                s = s + self.entry(order, ta, a, lda, i, j) * self.rd(x, j * ix)
            res.append(s)
        for i, s in enumerate(res):
            self.axpby(alpha, s, beta, y, i * iy)
        return alg.UNDEF

    def order(self, o, f):
        k = self.i(o)
        if k not in (101, 102):
            raise Illegal('%s: matrix layout %d' % (f, k))
        return k

    def gesv(self, o, f):
        """Solve A X = B by Cramer's rule; A becomes its factorisation (unknown here)."""
        ev, st, cond, loc, sz, cx = self.mem
        order = self.order(o[0], f)
        n, nrhs, lda, ldb = (self.i(o[k]) for k in (1, 2, 4, 7))
        a, ipiv, b = o[3], o[5], o[6]
        if lda < n or ldb < (n if order == COL else nrhs):
            raise Illegal('%s: leading dimension below the number of stored rows' % f)
        if n > 2:
            raise Unsupported('gesv of size %d' % n)
        A = [[self.entry(order, NOTRANS, a, lda, i, j) for j in range(n)] for i in range(n)]
        B = [[self.entry(order, NOTRANS, b, ldb, i, j) for j in range(nrhs)] for i in range(n)]
        if n == 1:
            X = [[A[0][0].inv() * y for y in B[0]]]
        else:
            d = (A[0][0] * A[1][1] - A[0][1] * A[1][0]).inv()
            X = [[(A[1][1] * B[0][j] - A[0][1] * B[1][j]) * d for j in range(nrhs)],
                 [(A[0][0] * B[1][j] - A[1][0] * B[0][j]) * d for j in range(nrhs)]]
        for i in range(n):
            for j in range(nrhs):
                self.wr(b, j * ldb + i if order == COL else i * ldb + j, X[i][j])
            ev.store(st, ev.gep(ipiv, num(4 * i)), num(i + 1), 'i32', 4, cond, loc)
            for j in range(n):
                v = [num(alg.sym('lu%d_%d_%d' % (i, j, q))) for q in range(cx)]
                self.wr(a, j * lda + i if order == COL else i * lda + j, Cx(*v))
        return num(0)

    def geev(self, o, f):
        """Eigenvalues of the matrix handed over; recorded as unknowns named by that matrix."""
        ev, st, cond, loc, sz, cx = self.mem
        order = self.order(o[0], f)
        jl, jr, n = (self.i(x) for x in o[1:4])
        a, lda = o[4], self.i(o[5])
        if chr(jl) not in 'Nn' or chr(jr) not in 'Nn':
            raise Unsupported('eigenvectors requested')
        if lda < n:
            raise Illegal('%s: leading dimension below the number of stored rows' % f)
        self.matrix = [[self.entry(order, NOTRANS, a, lda, i, j) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                v = [num(alg.sym('hess%d_%d_%d' % (i, j, q))) for q in range(cx)]
                self.wr(a, j * lda + i if order == COL else i * lda + j, Cx(*v))
        re = [num(alg.sym('eigenvalue%d.re' % i)) for i in range(n)]
        im = [num(alg.sym('eigenvalue%d.im' % i)) for i in range(n)]
        k = 7 if cx == 2 else 8
        ldvl, ldvr = self.i(o[k + 1]), self.i(o[k + 3])
        if ldvl < 1 or ldvr < 1:
            raise Illegal('%s: leading dimension of the eigenvectors below 1' % f)
        if f.endswith('_work'):
            lwork = self.i(o[k + 5])
            least = 2 * n if cx == 2 else 3 * n
            if lwork != -1 and lwork < max(1, least):
                raise Illegal('%s: workspace length %d below %d' % (f, lwork, least))
            self.room(o[k + 4], lwork * cx * sz, f, 'workspace')
            if cx == 2:
                self.room(o[k + 6], 2 * n * sz, f, 'real workspace')
        for i in range(n):
            if cx == 2:
                self.wr(o[6], i, Cx(re[i], im[i]))
            else:
                self.wr(o[6], i, Cx(re[i]))
                self.wr(o[7], i, Cx(im[i]))
        return num(0)

    def room(self, p, need, f, what):
        ev = self.mem[0]
        for q in alg.leaves(p):
            for e in ev.events:
                if e[0] == 'new' and isinstance(q, ir.Ptr) and q.base == e[1]:
                    have = ir.constval(e[2])
                    if have is not None and have < need:
                        raise Illegal('%s: %s of %d bytes, %d needed' % (f, what, have, need))


class Illegal(Exception):
    pass


def I(k, kind):
    sz, cx = KIND[kind]
    v = [num(vg.IN(k * cx + j, size=sz)) for j in range(cx)]
    return Cx(*v)


def inmat(off, r, c, kind):
    return [[I(off + j * r + i, kind) for j in range(c)] for i in range(r)]


def same(ctx, nm, r, off, want, kind, base='out'):
    """Matrix stored column by column from `off` equals `want` (rows of Cx)."""
    sz, cx = KIND[kind]
    n = len(want)
    for i in range(n):
        for j in range(len(want[0])):
            k = off + j * n + i
            x = want[i][j]
            for q, y in enumerate((x.re, x.im)[:cx]):
                vg.expect(ctx, '%s(%d,%d)%s' % (nm, i, j, ('.re', '.im')[q] if cx == 2 else ''), r.out(k * cx + q, base, sz), y, r.where())


def product(A, B, kind):
    out = []
    for row in A:
        line = []
        for j in range(len(B[0])):
            s = row[0] * B[0][j]
            for t in range(1, len(B)):
                s = s + row[t] * B[t][j]
            line.append(s)
        out.append(line)
    return out


def dims(ctx, nm, r, vals):
    for k, (what, v) in enumerate(vals):
        vg.expect(ctx, '%s: %s' % (nm, what), r.out(k, 'io', 4), rc(v), r.where())


def run(ctx):
    ctx.rule = ('Value-number matrix products, element-wise operations, transposition, solves and eigenvalue calls at fixed shapes for all '
                'four scalar types; BLAS/LAPACK routines enter as contracts on the abstract memory (general alpha, beta, transposition, '
                'leading dimension and layout), so both back ends are compared with the same mathematical definition.')
    ctx.assumptions += ['the BLAS/LAPACK library implements its documented contracts; systems are non-singular; exact arithmetic',
                        'shapes %s for products, 2x3 and 3x1 for element-wise operations, up to 4x4 for transposition' % (SHAPES,)]
    ncalls = 0
    for blas in (1, 0):
        cfg = ctx.config(UM2_USE_BLAS_LAPACK=blas)
        mod = ctx.probe_module('c25.cpp', cfg)
        sfx = ' (BLAS)' if blas else ' (built-in)'
        for kind, (sz, cx) in KIND.items():
            def ev(name, args=ARGS):
                nonlocal ncalls
                vg.fresh()
                h = Blas()
                try:
                    r = vg.evaluate(ctx, mod, name, hooks={'call': h}, args=args)
                except Illegal as e:
                    f = mod.functions[name]
                    ctx.fail('%s%s: legal library call' % (name[6:], sfx), str(e), name)
                    return None, h
                ncalls += len(h.calls)
                return r, h
            for R, K, C in SHAPES:
                A = B = None
                for op in ('mul', 'matmul'):
                    nm = '%s %s %dx%d*%dx%d%s' % (op, kind, R, K, K, C, sfx)
                    with ctx.guard(nm):
                        r, h = ev('probe_%s_%s_%d%d%d' % (op, kind, R, K, C))
                        if r is None:
                            continue
                        A, B = inmat(0, R, K, kind), inmat(R * K, K, C, kind)
                        vg.accepts(ctx, nm, r)
                        same(ctx, nm + ': product', r, 0, product(A, B, kind), kind)
                        same(ctx, nm + ': left operand afterwards', r, R * C, A, kind)
                        same(ctx, nm + ': right operand afterwards', r, R * C + R * K, B, kind)
                        dims(ctx, nm, r, (('rows', R), ('columns', C)))
                nm = 'matrix*vector %s %dx%d%s' % (kind, R, K, sfx)
                with ctx.guard(nm):
                    r, h = ev('probe_mv_%s_%d%d%d' % (kind, R, K, C))
                    if r is None:
                        continue
                    A, x = inmat(0, R, K, kind), inmat(R * K, K, 1, kind)
                    vg.accepts(ctx, nm, r)
                    same(ctx, nm + ': product', r, 0, product(A, x, kind), kind)
                    same(ctx, nm + ': matrix afterwards', r, R, A, kind)
                    same(ctx, nm + ': vector afterwards', r, R + R * K, x, kind)
                    dims(ctx, nm, r, (('size', R),))
            for R, C in ((2, 3), (3, 1)):
                nm = 'elementwise %s %dx%d%s' % (kind, R, C, sfx)
                with ctx.guard(nm):
                    r, h = ev('probe_elem_%s_%d%d' % (kind, R, C))
                    n = R * C
                    A, B, s = inmat(0, R, C, kind), inmat(n, R, C, kind), I(2 * n, kind)
                    z = Cx(num(0), num(0) if cx == 2 else None)
                    mapm = lambda f: [[f(A[i][j], B[i][j]) for j in range(C)] for i in range(R)]
                    add, sub = mapm(lambda a, b: a + b), mapm(lambda a, b: a - b)
                    vg.accepts(ctx, nm, r)
                    for k, (what, v) in enumerate((('a + b', add), ('a - b', sub), ('a += b', add), ('a -= b', sub), ('a *= s', mapm(lambda a, b: a * s)),
                                                   ('left operand afterwards', A), ('right operand afterwards', B), ('zero', mapm(lambda a, b: z)),
                                                   ('filled', mapm(lambda a, b: s)), ('linear index', A), ('data', A), ('asVector', A), ('begin', A))):
                        same(ctx, '%s: %s' % (nm, what), r, k * n, v, kind)
                    dims(ctx, nm, r, (('rows', R), ('columns', C), ('rows of sum', R), ('columns of sum', C), ('rows of difference', R),
                                      ('columns of difference', C), ('end - begin', n), ('vector size', n)))
            for n in (1, 2, 4):
                nm = 'square %s %dx%d%s' % (kind, n, n, sfx)
                with ctx.guard(nm):
                    r, h = ev('probe_square_%s_%d' % (kind, n))
                    A = inmat(0, n, n, kind)
                    vg.accepts(ctx, nm, r)
                    same(ctx, nm + ': (conjugate) transpose', r, 0, [[A[j][i].conj() for j in range(n)] for i in range(n)], kind)
                    e = lambda v: Cx(num(v), num(0) if cx == 2 else None)
                    same(ctx, nm + ': identity', r, n * n, [[e(int(i == j)) for j in range(n)] for i in range(n)], kind)
                    dims(ctx, nm, r, (('rows', n), ('columns', n), ('rows of identity', n), ('columns of identity', n)))
            if not blas:
                continue
            for n, c in ((2, 1), (2, 3)):
                for op in ('solve', 'solvein'):
                    nm = '%s %s %dx%d, %d right-hand sides' % (dict(solve='linear solve', solvein='in-place linear solve')[op], kind, n, n, c)
                    with ctx.guard(nm):
                        r, h = ev('probe_%s_%s_%d%d' % (op, kind, n, c))
                        if r is None:
                            continue
                        A, B = inmat(0, n, n, kind), inmat(n * n, n, c, kind)
                        vg.accepts(ctx, nm, r)
                        d = (A[0][0] * A[1][1] - A[0][1] * A[1][0]).inv()
                        X = [[(A[1][1] * B[0][j] - A[0][1] * B[1][j]) * d for j in range(c)],
                             [(A[0][0] * B[1][j] - A[1][0] * B[0][j]) * d for j in range(c)]]
                        same(ctx, nm + ': solution', r, 0, X, kind)
                        if op == 'solve':
                            same(ctx, nm + ': matrix afterwards', r, n * c, A, kind)
                            same(ctx, nm + ': right-hand side afterwards', r, n * c + n * n, B, kind)
                        dims(ctx, nm, r, (('rows', n), ('columns', c)))
            n = dict(f=2, d=3, cf=3, cd=2)[kind]
            nm = 'eigenvalues %s %dx%d' % (kind, n, n)
            with ctx.guard(nm):
                r, h = ev('probe_eig_%s_%d' % (kind, n), args=('in', 'out', 'back', 'io'))
                if r is None:
                    continue
                A = inmat(0, n, n, kind)
                vg.accepts(ctx, nm, r)
                dims(ctx, nm, r, (('number', n),))
                for i in range(n):
                    for q, s in enumerate(('re', 'im')):
                        vg.expect(ctx, '%s: %s part of eigenvalue %d' % (nm, s, i), r.out(2 * i + q, 'out', sz), alg.sym('eigenvalue%d.%s' % (i, s)), r.where())
                    for j in range(n):
                        M = h.matrix
                        for q, (x, y) in enumerate(((M[i][j].re, A[i][j].re), (M[i][j].im, A[i][j].im))[:cx]):
                            vg.expect(ctx, '%s: matrix handed over (%d,%d)%s' % (nm, i, j, ('.re', '.im')[q]), x, y, r.where())
                same(ctx, nm + ': matrix afterwards', r, 0, A, kind, 'back')
    ctx.cov['library_calls_modelled'] = ncalls
    if ncalls < 40:
        ctx.error('only %d BLAS/LAPACK calls were seen' % ncalls)
