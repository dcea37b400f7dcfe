"""Value-graph helpers used by the checks."""
import math
from fractions import Fraction
from . import alg, harness, ir, polyhedra
from .alg import Rat, rc, ra, R0, R1, num, leaf, Unsupported
from .harness import CheckError


SKIP = leaf(alg.SKIP_V)      # region excluded from comparison (assertion failed, no return)


def fresh():
    """Forget assumptions and caches between probes."""
    alg._APPLY.clear()
    alg._ITE3.clear()
    alg.POS_POLYS.clear()
    alg.POSITIVE.clear()
    alg.BOX.clear()
    alg.NONNEG.clear()
    alg.INT_ATOMS.clear()
    alg.POSITIVE.add(ir.PI)
    alg._ATOM_IX.clear()
    del alg.ATOMS[:]
    alg.SQRT_ARG.clear()
    alg.COS_OF.clear()
    alg.FN_ARGS.clear()
    alg._FN.clear()
    alg.ATOM_NAME.clear()
    ir.PI = alg.atom('sym', 'pi')
    alg.POSITIVE.add(ir.PI)
    ir._SIMPLE.clear()
    alg._VARS.clear()
    alg._VAR_IX.clear()
    alg._NODES.clear()
    keep = {k: v for k, v in alg._LEAVES.items() if v in (alg.BOT, alg.TRUE, alg.FALSE, alg.UNDEF, SKIP)}
    alg._LEAVES.clear()
    alg._LEAVES.update(keep)


def pi():
    return ra(ir.PI)


def IN(k, base='in', size=8):
    return ra(alg.atom('in', base, Fraction(size * k) if False else Fraction(size * k)))


class NeverReturns(Exception):
    """Every path ends in a failed assertion or an error exit."""


class Result:
    def __init__(self, ev, name):
        self.ev = ev
        self.name = name
        self._where = None
        if not ev.returns:
            raise NeverReturns(name, self.where())
        self.outs = {}

    def out(self, k, base='out', size=8):
        off = rc(size * k)
        pairs = []
        for c, v, st in self.ev.returns:
            cell = st.cells.get(base, {}).get(off)
            if cell is not None and cell[0] == size:
                pairs.append((c, cell[1]))
            else:
                pairs.append((c, self.ev.load_at(st, base, off, 'double', size)))
        return self.gate(pairs)

    @staticmethod
    def gate(pairs):
        v = SKIP
        for c, x in pairs:
            v = alg.ite(c, x, v)
        return v

    def where(self):
        if self._where is None:
            self._where = self.locate()
        return self._where

    def locate(self):
        fns = {}
        for b in self.ev.fn['blocks']:
            for i in b['ins']:
                for l in i.get('loc') or ():
                    p = l.split(':')
                    if p[0].startswith(harness.REPO):
                        k = (p[0], p[2])
                        fns[k] = min(fns.get(k, 10**9), int(p[1]))
        return ', '.join('%s:%d %s' % (f.replace(harness.REPO + '/', ''), ln, n) for (f, n), ln in sorted(fns.items()))

    def accepted(self):
        """Condition under which the function returns (no failed assertion, no error exit)."""
        c = alg.FALSE
        for x, _, _ in self.ev.returns:
            c = alg.bor(c, x)
        return c

    def ret(self):
        return self.gate([(c, v) for c, v, _ in self.ev.returns])


def evaluate(ctx, mod, name, hooks=None, args=('in', 'out'), limit=80, cls=ir.Evaluator):
    f = mod.functions.get(name)
    if f is None:
        raise CheckError('probe %s is missing' % name)
    if hooks is None:
        hooks = {}
    ev = cls(mod, f, hooks=hooks, arg_names=list(args), unroll_limit=limit)
    try:
        ev.run()
    except Unsupported as e:
        raise CheckError('%s: outside the analysed fragment: %s' % (name, e))
    return Result(ev, name)


def globals_of(f):
    """Mutable globals a function mentions."""
    out = set()

    def rec(o):
        if isinstance(o, dict):
            if o.get('k') == 'g' and not o.get('fn'):
                out.add(o['v'])
            for v in o.values():
                rec(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                rec(v)
    for b in f['blocks']:
        for i in b['ins']:
            rec({k: v for k, v in i.items() if k != 'loc'})
    return out


INIT_ROOTS = '^(probe_[a-zA-Z0-9_]+|__cxx_global_var_init.*)$'


def static_init(mod, name, hooks=None, limit=1000):
    """Setup hook: the memory the dynamic initialisers of the globals used by `name` leave behind."""
    inits = {n: globals_of(f) - set(mod.globals) for n, f in mod.functions.items() if n.startswith('__cxx_global_var_init')}
    need, todo = [], [name]
    while todo:
        g = globals_of(mod.functions[todo.pop()]) - set(mod.globals)
        for n, gs in inits.items():
            if n not in need and gs & g - {'__dso_handle'}:
                need.append(n)
                todo.append(n)

    def setup(ev, st):
        for n in sorted(need, key=lambda x: int(x.split('.')[1]) if '.' in x else -1):
            sub = type(ev)(mod, mod.functions[n], hooks=hooks or {}, unroll_limit=limit)
            entry = sub.order[0]
            sub.region(set(sub.blocks), entry, {entry: [(None, alg.TRUE, st.copy())]}, None)
            if len(sub.returns) != 1:
                raise Unsupported('initialiser %s does not return on one path' % n)
            s = sub.returns[0][2]
            st.cells, st.copies, st.fams = s.cells, s.copies, s.fams
    return setup


def within(r, lo, hi):
    """Assume an input lies in an open interval (hi None: unbounded)."""
    (m, _), = r.num.t.items()
    if lo >= 0:
        alg.POSITIVE.add(m[0][0])
    if hi is not None:
        alg.BOX[m[0][0]] = (Fraction(lo), Fraction(hi))


def fixed(d, m):
    """A diagram with atoms replaced by values."""
    memo = {}

    def rec(x):
        r = memo.get(x.id)
        if r is None:
            if x.var is None:
                r = leaf(alg.subst(x.leaf, m)) if isinstance(x.leaf, Rat) else x
            else:
                p = alg.subst(Rat(alg._VARS[x.var]), m)
                s = alg.poly_sign(p.num)
                if s is not None and p.den.is_const():
                    r = rec(x.ch[s + 1])
                else:
                    r = alg.sign_node(p.num, *[rec(c) for c in x.ch])
            memo[x.id] = r
        return r
    return rec(d)


def at(d, m):
    """The leaf of a diagram at a point (atom -> number); None when a sign is too close to call."""
    memo = dict(m)

    def atom(a):
        if a not in memo:
            k = alg.ATOMS[a]
            if a == ir.PI:
                memo[a] = math.pi
            elif k[0] == 'fn' and k[1] in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan'):
                memo[a] = getattr(math, k[1])(rat(alg.FN_ARGS[a][0]))
            else:
                raise Unsupported('no value for %s' % (k,))
        return memo[a]

    def poly(p):
        return sum(float(c) * math.prod(atom(a) ** e for a, e in t) for t, c in p.t.items())

    def rat(r):
        return poly(r.num) / poly(r.den)
    while d.var is not None:
        p = alg._VARS[d.var]
        v = poly(p)
        if abs(v) < 1e-9 * sum(abs(float(c) * math.prod(atom(a) ** e for a, e in t)) for t, c in p.t.items()):
            return None
        d = d.ch[2 if v > 0 else 0]
    return d.leaf


def single(d):
    """The only (non-bottom) leaf of a diagram, or None."""
    ls = [x for x in alg.leaves(d) if x is not alg.SKIP_V]
    return ls[0] if len(ls) == 1 else None


def solve_ties(path):
    """Substitution that makes the equalities of a region hold, or None if they contradict the rest."""
    m = {}

    def sub(r):
        for a, v in m.items():
            r = alg.subst(r, {a: v})
        return r
    for v, sgn in path:
        if sgn != 1:
            continue
        p = sub(Rat(alg._VARS[v])).num
        if p.is_zero():
            continue
        for mono, c in p.t.items():
            if len(mono) == 1 and mono[0][1] == 1 and alg.ATOMS[mono[0][0]][0] != 'fn':
                a = mono[0][0]
                if any(x == a and k is not mono for k in p.t for x, _ in k):
                    continue
                rest = Rat(alg.Poly({k: -c2 / Fraction(c) for k, c2 in p.t.items() if k is not mono}))
                if any(a in alg.deep_atoms(x) for x in rest.atoms()):
                    continue
                m[a] = rest
                break
    return sub if m else None


def equal_on(path, a, b):
    """Is the region empty, or do the two values coincide on it?"""
    if not polyhedra.feasible(path):
        return True
    if isinstance(a, Rat) and isinstance(b, Rat):
        z = (a - b).num
        if not polyhedra.feasible(path, [(z, 0)]) and not polyhedra.feasible(path, [(z, 2)]):
            return True
        sub = solve_ties(path)
        if sub is not None:
            try:
                if alg.rat_eq(sub(a), sub(b)):
                    return True
            except ZeroDivisionError:
                pass
    return False


def unknown(path, *vals):
    ats = {a for v, _ in path for m in alg._VARS[v].t for a, _ in m}
    for x in vals:
        if isinstance(x, Rat):
            ats |= set(x.atoms())
    return any(alg.ATOMS[a][0] == 'sym' and str(alg.ATOMS[a][1]).startswith('unknown ') for a in ats)


def expect(ctx, oname, got, want, where, ties=True, assume=None, what='', eq=None, key=None):
    """Obligation: diagram `got` equals `want` on every (feasible) region."""
    got, want = num(got), num(want)
    d = alg.diff_values(got, want, ties=ties, assume=assume, eq=eq, limit=12)
    d = next(([x] for x in d if not equal_on(*x)), None)
    if d is None:
        # every differing region seen was empty or an equality in disguise: look at all of them
        d = alg.diff_values(got, want, ties=ties, eq=eq,
                            prune=polyhedra.feasible, assume=assume, limit=10**5)
        d = [x for x in d if not equal_on(*x)]
    if not d:
        ctx.ok(oname)
        return True
    path, a, b = next((x for x in d if not unknown(*x)), d[0])
    if unknown(path, a, b):
        ctx.error('%s: depends on a number the analysis does not follow (%s when %s)' % (oname, a, alg.conds_str(path)))
        return False
    ctx.fail(oname, '%sin the region %s the code computes\n      %s\n    but the property requires\n      %s' % (
        what, alg.conds_str(path), a, b), where, key)
    return False


def accepts(ctx, oname, r, pre=alg.TRUE):
    """Obligation: the function returns whenever the precondition holds."""
    got = alg.ite(pre, alg.ite(r.accepted(), num(1), num(0)), SKIP)
    return expect(ctx, oname + ' is accepted', got, 1, r.where(), what='(0: aborts, 1: returns) ')


def integrate01(r, a):
    """Integral over [0, 1] of a polynomial in atom a."""
    out = {}
    for m, c in r.num.t.items():
        e = dict(m).get(a, 0)
        mm = tuple((x, k) for x, k in m if x != a)
        out[mm] = alg._norm(out.get(mm, 0) + Fraction(c) / (e + 1))
    return Rat(alg.Poly({m: c for m, c in out.items() if c != 0}))


def boundary_integrals(edges, t):
    """(area, integral of x, integral of y) of the region bounded by parametric edges [(x(t), y(t))]."""
    A = X = Y = R0
    h = rc(Fraction(1, 2))
    for x, y in edges:
        dx, dy = x.diff(t), y.diff(t)
        A = A + integrate01(h * (x * dy - y * dx), t)
        X = X + integrate01(h * x * x * dy, t)
        Y = Y - integrate01(h * y * y * dx, t)
    return A, X, Y


def edge_poly(v0, v1, vm, t):
    """Nodal interpolation of an edge (vm None for a straight edge)."""
    T = ra(t)
    out = []
    for d in range(len(v0)):
        if vm is None:
            out.append(v0[d] + T * (v1[d] - v0[d]))
        else:
            out.append((rc(2) * T - R1) * (T - R1) * v0[d] + (rc(2) * T - R1) * T * v1[d] + rc(4) * T * (R1 - T) * vm[d])
    return out


def points(n, D, start=0):
    return [[IN(start + i * D + d) for d in range(D)] for i in range(n)]


def log_eq(x, y):
    """Equality modulo log a + log b = log ab (arguments positive)."""
    if alg.leaf_eq(x, y):
        return True
    if not (isinstance(x, Rat) and isinstance(y, Rat)):
        return False
    z = x - y
    logs = [a for a in z.atoms() if alg.ATOMS[a][0] == 'fn' and alg.ATOMS[a][1] == 'log']
    if not logs:
        return False
    rest = alg.subst(z, {a: R0 for a in logs})
    if not alg.rat_eq(rest, R0):
        return False
    prod, c0 = R1, None
    for a in logs:
        c = z.diff(a)
        if any(b in c.atoms() for b in logs):
            return False
        arg = alg.FN_ARGS[a][0]
        if alg.rat_eq(c, R0):
            continue
        if c0 is None:
            c0, prod = c, arg
        elif alg.rat_eq(c, c0):
            prod = prod * arg
        elif alg.rat_eq(c, -c0):
            prod = prod / arg
        else:
            return False
    return c0 is None or alg.rat_eq(prod, R1)
