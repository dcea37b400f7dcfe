"""Algebraic value domain.

Numbers are rational functions (quotients of polynomials with exact rational coefficients) over
interned atoms.  An atom is an input, an uninterpreted function of a number (sqrt, sin, floor, ...)
or an opaque value.  Values that depend on comparisons are ternary decision diagrams over the signs
of polynomials (negative / zero / positive), so a join of two control-flow branches is a value too
and each instruction gets exactly one value number.  Equality is decided by normal form
(cross multiplication at the leaves).
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ atoms
ATOMS = []          # id -> (kind, payload)
_ATOM_IX = {}
SQRT_ARG = {}       # atom id -> Rat
COS_OF = {}         # cos atom id -> sin atom id
POSITIVE = set()    # atom ids known to be > 0
NONNEG = set()
ATOM_NAME = {}


def atom(kind, *payload):
    key = (kind,) + payload
    i = _ATOM_IX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _ATOM_IX[key] = i
    return i


def atom_str(i):
    k = ATOMS[i]
    if i in ATOM_NAME:
        return ATOM_NAME[i]
    if k[0] == 'in':
        return '%s[%s]' % (k[1], k[2])
    if k[0] == 'sym':
        return str(k[1])
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], ', '.join(str(FN_ARGS[i][j]) for j in range(len(FN_ARGS[i]))))
    return '%s%s' % (k[0], tuple(str(x) for x in k[1:]))


FN_ARGS = {}
_FN = {}


# ------------------------------------------------------------------ polynomials
# A polynomial is a dict  monomial -> coefficient;  monomial = tuple of (atom, exp) sorted by atom
ONE_M = ()


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', '_h', '_key')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=lambda x: x[0]))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const(self):
        return self.t.get(ONE_M, 0)

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(n)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return Poly({})
        return Poly({m: _norm(k * c) for m, k in self.t.items()})

    def __mul__(self, o):
        if len(self.t) == 1 and ONE_M in self.t:
            return o.scale(self.t[ONE_M])
        if len(o.t) == 1 and ONE_M in o.t:
            return self.scale(o.t[ONE_M])
        r = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, rd = _mono_mul(m1, m2)
                red |= rd
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        for m in r:
            r[m] = _norm(r[m])
        p = Poly(r)
        return _reduce(p) if red else p

    def pow(self, n):
        r = Poly({ONE_M: 1})
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def lead(self):
        m = max(self.t, key=_mono_order)
        return m, self.t[m]

    def diff(self, a):
        r = {}
        for m, c in self.t.items():
            for i, (b, e) in enumerate(m):
                if b == a:
                    nm = m[:i] + (((b, e - 1),) if e > 1 else ()) + m[i + 1:]
                    r[nm] = r.get(nm, 0) + c * e
                    break
        return Poly({m: _norm(c) for m, c in r.items() if c != 0})

    def degree(self, a):
        return max([e for m in self.t for b, e in m if b == a] or [0])

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(atom_str(a) + ('^%d' % e if e > 1 else '') for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        s = ' + '.join(out[:40]).replace('+ -', '- ')
        if len(out) > 40:
            s += ' + ... (%d terms)' % len(out)
        return s


def _mono_order(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def _mono_mul(a, b):
    if not a:
        return b, False
    if not b:
        return a, False
    d = dict(a)
    red = False
    for x, e in b:
        if x in d:
            d[x] += e
            if x in SQRT_ARG or x in COS_OF:
                red = True
        else:
            d[x] = e
    return tuple(sorted(d.items())), red


def _reduce(p):
    """Replace sqrt(x)^2 by x (polynomial arguments) and cos(x)^2 by 1 - sin(x)^2."""
    again = True
    while again:
        again = False
        out = Poly({})
        hit = False
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                if e >= 2 and a in SQRT_ARG and SQRT_ARG[a].den.is_const():
                    rest = m[:i] + (((a, e % 2),) if e % 2 else ()) + m[i + 1:]
                    arg = SQRT_ARG[a].num.scale(Fraction(1) / SQRT_ARG[a].den.const())
                    out = out + Poly({rest: c}) * arg.pow(e // 2)
                    hit = True
                    break
                if e >= 2 and a in COS_OF:
                    rest = m[:i] + (((a, e % 2),) if e % 2 else ()) + m[i + 1:]
                    s = COS_OF[a]
                    out = out + Poly({rest: c}) * Poly({ONE_M: 1, ((s, 2),): -1}).pow(e // 2)
                    hit = True
                    break
            else:
                out = out + Poly({m: c})
        p = out
        again = hit
    return p


P0 = Poly({})
P1 = Poly({ONE_M: 1})


def pconst(c):
    return Poly({ONE_M: _norm(c)}) if c != 0 else P0


def patom(a):
    return Poly({((a, 1),): 1})


def _mono_div(a, b):
    d = dict(a)
    for x, e in b:
        if d.get(x, 0) < e:
            return None
        d[x] -= e
        if d[x] == 0:
            del d[x]
    return tuple(sorted(d.items()))


def exact_div(a, b, limit=4000):
    """a / b as a polynomial or None."""
    if b.is_const():
        return a.scale(Fraction(1) / b.const())
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        r = {}
        for m, c in a.t.items():
            q = _mono_div(m, bm)
            if q is None:
                return None
            r[q] = _norm(Fraction(c) / bc)
        return Poly(r)
    if any(x in SQRT_ARG or x in COS_OF for x in b.atoms()):
        return None
    # a cheap necessary test: degrees
    for x in b.atoms():
        if a.degree(x) < b.degree(x):
            return None
    rem = dict(a.t)
    bm, bc = b.lead()
    q = {}
    n = 0
    while rem:
        n += 1
        if n > limit:
            return None
        m = max(rem, key=_mono_order)
        qm = _mono_div(m, bm)
        if qm is None:
            return None
        qc = _norm(Fraction(rem[m]) / bc)
        q[qm] = qc
        for m2, c2 in b.t.items():
            mm, _ = _mono_mul(qm, m2)
            v = rem.get(mm, 0) - qc * c2
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
    return Poly(q)


# ------------------------------------------------------------------ rational functions
class Rat:
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=P1):
        self.num = num
        self.den = den
        self._k = None

    @staticmethod
    def make(num, den):
        if den.is_zero():
            raise Unsupported('division by zero polynomial')
        if num.is_zero():
            return R0
        if den.is_const():
            c = den.const()
            return Rat(num if c == 1 else num.scale(Fraction(1) / c))
        # cancel common monomial
        com = None
        for p in (num, den):
            for m in p.t:
                d = dict(m)
                if com is None:
                    com = d
                else:
                    com = {a: min(e, d[a]) for a, e in com.items() if a in d}
                if not com:
                    break
            if not com:
                break
        if com:
            cm = tuple(sorted(com.items()))
            num = Poly({_mono_div(m, cm): c for m, c in num.t.items()})
            den = Poly({_mono_div(m, cm): c for m, c in den.t.items()})
            if den.is_const():
                return Rat(num.scale(Fraction(1) / den.const()))
        # rationalise a denominator that is (monomial with sqrt atoms)
        if len(den.t) == 1:
            (m, c), = den.t.items()
            sq = [(a, e) for a, e in m if a in SQRT_ARG and SQRT_ARG[a].den.is_const()]
            if sq:
                f = Poly({tuple((a, 1) for a, e in sq if e % 2): 1})
                num, den = num * f, den * f
                if den.is_const():
                    return Rat(num.scale(Fraction(1) / den.const()))
                q = exact_div(num, den)
                if q is not None:
                    return Rat(q)
        q = exact_div(num, den)
        if q is not None:
            return Rat(q)
        _, lc = den.lead()
        if lc != 1:
            num, den = num.scale(Fraction(1) / lc), den.scale(Fraction(1) / lc)
        return Rat(num, den)

    def key(self):
        if self._k is None:
            self._k = (self.num, self.den)
        return self._k

    def __hash__(self):
        return hash((self.num, self.den))

    def __eq__(self, o):
        return isinstance(o, Rat) and self.num == o.num and self.den == o.den

    def is_const(self):
        return self.num.is_const() and self.den.is_const()

    def const(self):
        c = self.num.t.get(ONE_M, 0)
        if self.den is not P1:
            c = Fraction(c) / Fraction(self.den.const())
        return c if isinstance(c, Fraction) else Fraction(c)

    def is_poly(self):
        return self.den.is_const()

    def __add__(self, o):
        if self.den == o.den:
            return Rat.make(self.num + o.num, self.den)
        if self.den.is_const() and o.den.is_const():
            return Rat(self.num + o.num)
        q = None if o.den.is_const() else exact_div(self.den, o.den)
        if q is not None:
            return Rat.make(self.num + o.num * q, self.den)
        q = None if self.den.is_const() else exact_div(o.den, self.den)
        if q is not None:
            return Rat.make(self.num * q + o.num, o.den)
        return Rat.make(self.num * o.den + o.num * self.den, self.den * o.den)

    def __neg__(self):
        return Rat(-self.num, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.den.is_const() and o.den.is_const():
            return Rat(self.num * o.num)
        return Rat.make(self.num * o.num, self.den * o.den)

    def __truediv__(self, o):
        return Rat.make(self.num * o.den, self.den * o.num)

    def atoms(self):
        return self.num.atoms() | self.den.atoms()

    def diff(self, a):
        n, d = self.num, self.den
        return Rat.make(n.diff(a) * d - n * d.diff(a), d * d)

    def __str__(self):
        if self.den == P1:
            return str(self.num)
        return '(%s) / (%s)' % (self.num, self.den)

    __repr__ = __str__


R0 = Rat(P0)
R1 = Rat(P1)


def rc(c):
    return Rat(pconst(c)) if c != 0 else R0


def ra(a):
    return Rat(patom(a))


def sym(name):
    return ra(atom('sym', name))


def rat_eq(a, b):
    if a == b:
        return True
    if a.den == b.den:
        d = a.num - b.num
    else:
        d = a.num * b.den - b.num * a.den
    return _reduce(d).is_zero()


def subst(r, m):
    """Substitute atoms by Rats in a Rat (function atoms are rebuilt)."""
    def sp(p):
        out = R0
        for mo, c in p.t.items():
            t = rc(c)
            for a, e in mo:
                v = sub_atom(a)
                for _ in range(e):
                    t = t * v
            out = out + t
        return out

    memo = {}

    def sub_atom(a):
        if a in m:
            return m[a]
        if a in memo:
            return memo[a]
        k = ATOMS[a]
        v = ra(a)
        if k[0] == 'fn' and a in FN_ARGS:
            args = [subst(x, m) if isinstance(x, Rat) else x for x in FN_ARGS[a]]
            if any(x is not y for x, y in zip(args, FN_ARGS[a])):
                v = fn(k[1], *args)
        memo[a] = v
        return v

    return sp(r.num) / sp(r.den) if not r.den.is_const() else sp(r.num)


def deep_atoms(a):
    """The atom and every atom inside its arguments."""
    out, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        for r in FN_ARGS.get(x, ()):
            if isinstance(r, Rat):
                todo += list(r.atoms())
        if x in SQRT_ARG:
            todo += list(SQRT_ARG[x].atoms())
    return out


# ------------------------------------------------------------------ functions of numbers
def _const_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def fn(name, *args):
    """Atom for an uninterpreted function application, with a few rewrite rules."""
    if name == 'sqrt':
        x = args[0]
        if x.is_const():
            c = _const_sqrt(x.const())
            if c is not None:
                return rc(c)
        if not x.den.is_const():
            # sqrt(n/d) = sqrt(n*d)/|d| ; only when d is a known square -> keep simple
            q = x.num * x.den
            return fn('sqrt', Rat(q)) / rat_abs_simple(x.den)
        # pull out a positive rational square factor: make leading coefficient 1 when square
        _, lc = x.num.lead()
        c = _const_sqrt(abs(lc))
        if c is not None and c != 1:
            return fn('sqrt', Rat(x.num.scale(Fraction(1) / (Fraction(c) * c)))) * rc(c)
        if len(x.num.t) == 1:
            (m, cc), = x.num.t.items()
            if all(e % 2 == 0 for _, e in m) and cc == 1 and all(a in NONNEG or a in POSITIVE for a, e in m):
                return Rat(Poly({tuple((a, e // 2) for a, e in m): 1}))
        m = _square_factor(x.num)
        if m:
            h = Rat(Poly({tuple((a, e // 2) for a, e in m): 1}))
            return h * fn('sqrt', x / (h * h))
    elif name in ('sin', 'cos') and (_turns(args[0]) or _inner(args[0], 'atan') is not None):
        k = _turns(args[0])
        if k:
            return fn(name, args[0] - rc(k) * pi()) * rc(-1 if k % 2 else 1)
        z = _inner(args[0], 'atan')
        r = fn('sqrt', R1 + z * z)
        return R1 / r if name == 'cos' else z / r
    elif name in ('sin', 'tan', 'atan', 'asin', 'sinh', 'tanh', 'asinh', 'cbrt'):
        x = args[0]
        if x.num.is_zero():
            return R0
        if x.num.lead()[1] < 0:
            return -fn(name, -x)
    elif name in ('cos', 'cosh'):
        x = args[0]
        if x.num.is_zero():
            return R1
        if x.num.lead()[1] < 0:
            return fn(name, -x)
    elif name == 'exp' and args[0].num.is_zero():
        return R1
    elif name == 'log' and args[0].is_const() and args[0].const() == 1:
        return R0
    elif name in ('floor', 'ceil', 'trunc', 'round'):
        x = args[0]
        if x.is_const():
            c = x.const()
            f = dict(floor=math.floor, ceil=math.ceil, trunc=math.trunc,
                     round=lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2)))[name]
            return rc(f(c))
        if is_integral(x):
            return x
        if name in ('floor', 'ceil') and x.num.lead()[1] < 0:
            return -fn('ceil' if name == 'floor' else 'floor', -x)
        if name in ('floor', 'ceil') and x.den.is_const():
            d = x.den.const()
            k = Rat(Poly({m: c for m, c in x.num.scale(Fraction(1) / d).t.items() if is_integral(Rat(Poly({m: c})))}))
            if not k.num.is_zero():
                return k + fn(name, x - k)
    if name == 'tan':
        return fn('sin', args[0]) / fn('cos', args[0])
    for a in _FN.get(name, ()):
        if len(FN_ARGS[a]) == len(args) and all(_arg_eq(p, q) for p, q in zip(FN_ARGS[a], args)):
            return ra(a)
    a = atom('fn', name, len(_FN.get(name, ())))
    FN_ARGS[a] = args
    _FN.setdefault(name, []).append(a)
    if name == 'sqrt':
        SQRT_ARG[a] = args[0]
        NONNEG.add(a)
        POSITIVE.add(a)
    if name == 'exp':
        POSITIVE.add(a)
    if name in ('floor', 'ceil') and poly_sign(args[0].num) == 1 and poly_sign(args[0].den) == 1:
        NONNEG.add(a)
        if name == 'ceil':
            POSITIVE.add(a)
    if name == 'cos':
        s = fn('sin', args[0])
        (m, _), = s.num.t.items()
        COS_OF[a] = m[0][0]
    return ra(a)


def pi():
    return ra(atom('sym', 'pi'))


def _turns(x):
    """The integer k of an argument k*pi + rest."""
    c = x.num.t.get(((atom('sym', 'pi'), 1),), 0) if x.den.is_const() else 0
    c = Fraction(c) / (x.den.const() if c else 1)
    return int(c) if c.denominator == 1 else 0


def _inner(x, name):
    """The argument of f when x is the application f(argument)."""
    if x.den.is_const() and x.den.const() == 1 and len(x.num.t) == 1:
        (m, c), = x.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][:2] == ('fn', name):
            return FN_ARGS[m[0][0]][0]
    return None


def _square_factor(p):
    """Largest square monomial of positive atoms dividing every term."""
    if len(p.t) < 2:
        return ()
    com = None
    for m in p.t:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return ()
    return tuple(sorted((a, e - e % 2) for a, e in com.items() if e > 1 and a in POSITIVE))


def _arg_eq(p, q):
    if isinstance(p, Rat) and isinstance(q, Rat):
        return rat_eq(p, q)
    return p == q


def rat_abs_simple(p):
    """|p| for a polynomial known to be positive, else raises."""
    s = poly_sign(p)
    if s == 1:
        return Rat(p)
    if s == -1:
        return Rat(-p)
    if all(c > 0 and all(e % 2 == 0 or a in NONNEG for a, e in m) for m, c in p.t.items()):
        return Rat(p)       # zero denominators are excluded
    raise Unsupported('absolute value of a denominator of unknown sign: %s' % p)


INT_ATOMS = set()


def is_integral(r):
    if not r.den.is_const():
        return False
    for m, c in r.num.t.items():
        if Fraction(c).denominator != 1:
            return False
        for a, e in m:
            k = ATOMS[a]
            if a in INT_ATOMS or (k[0] == 'fn' and k[1] in ('floor', 'ceil', 'trunc', 'round', 'idiv')):
                continue
            return False
    return True


# ------------------------------------------------------------------ sign knowledge
POS_POLYS = []      # polynomials assumed > 0


def assume_positive(r):
    p = r.num if isinstance(r, Rat) else r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c > 0:
            POSITIVE.add(m[0][0])
            NONNEG.add(m[0][0])
            return
    POS_POLYS.append(p)


def poly_sign(p):
    """1 / -1 if the polynomial is known positive / negative, else None (0 if zero)."""
    if p.is_zero():
        return 0
    if p.is_const():
        return 1 if p.const() > 0 else -1
    sg = set()
    for m, c in p.t.items():
        if any((e % 2) and a not in POSITIVE for a, e in m):
            sg = None
            break
        if any((e % 2 == 0) and a not in POSITIVE for a, e in m):
            # only nonnegative: need another strictly positive term; ignore unless alone
            sg.add(0)
            continue
        sg.add(1 if c > 0 else -1)
    if sg is not None and sg == {1}:
        return 1
    if sg is not None and sg == {-1}:
        return -1
    for q in POS_POLYS:
        d = exact_div(p, q)
        if d is not None and d.is_const():
            return 1 if d.const() > 0 else -1
    if BOX:
        return box_sign(p)
    return root_sign(p)


def root_sign(p):
    """Sign of a number: a polynomial in square roots of numbers (None: it is not one, or too close to zero)."""
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        a, b = Fraction(c), Fraction(c)
        for at, e in m:
            if ATOMS[at][:2] != ('fn', 'sqrt') or not FN_ARGS[at][0].is_const():
                return None
            x = Fraction(FN_ARGS[at][0].const())
            if x < 0:
                return None
            n = math.isqrt(x.numerator * x.denominator << 160)
            u, v = Fraction(n, x.denominator << 80), Fraction(n + 1, x.denominator << 80)
            a, b = (a * u ** e, b * v ** e) if c > 0 else (a * v ** e, b * u ** e)
        lo, hi = lo + min(a, b), hi + max(a, b)
    return 1 if lo > 0 else -1 if hi < 0 else None


BOX = {}            # atom id -> (lo, hi): open interval the atom is assumed to lie in


def box_sign(p):
    """Sign of a polynomial on the assumed box by its Bernstein coefficients (None: undecided)."""
    ats = sorted({a for m in p.t for a, _ in m})
    if not any(a in BOX for a in ats) or not all(a in BOX or a in POSITIVE for a in ats) or len(ats) > 4:
        return None
    dense = {tuple(dict(m).get(a, 0) for a in ats): Fraction(c) for m, c in p.t.items()}
    for i, a in enumerate(ats):
        n = max(k[i] for k in dense)
        if n > 8:
            return None
        new = {}
        if a not in BOX:
            continue          # positive: the coefficients themselves
        lo, hi = BOX[a]
        for k, c in dense.items():
            # (lo + (hi - lo) t)^e in the Bernstein basis of degree n
            e = k[i]
            mono = [Fraction(math.comb(e, j)) * lo ** (e - j) * (hi - lo) ** j for j in range(e + 1)]
            for b in range(n + 1):
                v = sum(Fraction(math.comb(b, j), math.comb(n, j)) * mono[j] for j in range(min(e, b) + 1))
                kk = k[:i] + (b,) + k[i + 1:]
                new[kk] = new.get(kk, 0) + c * v
        dense = new
    sg = {(c > 0) - (c < 0) for c in dense.values()} - {0}
    return sg.pop() if len(sg) == 1 else None


# ------------------------------------------------------------------ decision diagrams
# node: ('N', polykey_id, neg, zero, pos) interned;  leaf: ('L', value)
_VARS = []          # id -> Poly  (leading coefficient 1 or -1 normalised to +)
_VAR_IX = {}
_NODES = {}
_LEAVES = {}


class DD:
    __slots__ = ('var', 'ch', 'leaf', 'id')

    def is_leaf(self):
        return self.var is None

    def __str__(self):
        if self.var is None:
            return str(self.leaf)
        return '{sign(%s) -: %s; 0: %s; +: %s}' % (_VARS[self.var], *self.ch)


_IDS = [0]


def leaf(v):
    try:
        d = _LEAVES.get((type(v), v))
    except TypeError:
        raise
    if d is None:
        d = DD()
        d.var = None
        d.ch = None
        d.leaf = v
        d.id = _IDS[0]
        _IDS[0] += 1
        _LEAVES[(type(v), v)] = d
    return d


class _Bot:
    def __str__(self):
        return '_|_'

    __repr__ = __str__


BOT_V = _Bot()
BOT = leaf(BOT_V)
TRUE = leaf(True)
FALSE = leaf(False)


class Undef:
    def __str__(self):
        return 'undef'


UNDEF_V = Undef()
UNDEF = leaf(UNDEF_V)


def node(var, neg, zero, pos):
    live = [c for c in (neg, zero, pos) if c is not BOT]
    if not live:
        return BOT
    if all(c is live[0] for c in live):
        return live[0]
    k = (var, neg.id, zero.id, pos.id)
    d = _NODES.get(k)
    if d is None:
        d = DD()
        d.var = var
        d.ch = (neg, zero, pos)
        d.leaf = None
        d.id = _IDS[0]
        _IDS[0] += 1
        _NODES[k] = d
    return d


TIE = [False]    # tie-insensitive mode: the zero branch copies the positive one


def _rational_root(c):
    c = Fraction(c)
    if c <= 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None


def _square_difference(p):
    """(k, L - m, L + m) when p = k (L^2 - m^2) with L linear and m a positive number."""
    c0 = p.t.get(())
    if not c0 or len(p.t) < 2:
        return None
    if any(sum(e for _, e in m) != 2 for m in p.t if m):
        return None
    sq = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1]
    if not sq:
        return None
    a0, k = sq[0]
    m2 = _rational_root(-Fraction(c0) / k)
    if m2 is None:
        return None
    lin = {a0: Fraction(1)}
    for m, c in p.t.items():
        if len(m) == 2 and a0 in (m[0][0], m[1][0]):
            b = m[0][0] if m[1][0] == a0 else m[1][0]
            lin[b] = Fraction(c) / k / 2
    L = Poly({((a, 1),): _norm(c) for a, c in lin.items()})
    M = Poly({(): _norm(m2)})
    if (L * L - M * M).scale(k) != p:
        return None
    return k, L - M, L + M


def sign_node(p, neg, zero, pos):
    """Decision on the sign of polynomial p."""
    s = poly_sign(p)
    if s is not None:
        return (neg, zero, pos)[s + 1]
    # strip atoms known positive and even powers of others are kept
    com = None
    for m in p.t:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            break
    if com:
        cm = tuple(sorted(com.items()))
        rest = Poly({_mono_div(m, cm): c for m, c in p.t.items()})
        com = [(a, e) for a, e in cm if a not in POSITIVE]
        if not com:
            p = rest
            if poly_sign(p) is not None:
                return sign_node(p, neg, zero, pos)
        elif len(com) > 1 or com[0][1] > 1 or not rest.is_const():
            # the sign of a product is the product of the signs
            for a, e in com:
                x = Poly({((a, 1),): 1})
                neg, zero, pos = (sign_node(x, pos, zero, neg) if e % 2 else sign_node(x, neg, zero, neg), zero,
                                  sign_node(x, neg, zero, pos) if e % 2 else sign_node(x, pos, zero, pos))
            # a zero factor decides before the rest is looked at
            r = sign_node(rest, neg, zero, pos)
            return r
    for q in POS_POLYS:
        d = exact_div(p, q)
        if d is not None:
            return sign_node(d, neg, zero, pos)
    f = _square_difference(p)
    if f is not None:
        # L^2 - m^2 = (L - m)(L + m)
        k, lo, hi = f
        if k < 0:
            neg, pos = pos, neg
        return sign_node(lo, sign_node(hi, pos, zero, neg), zero, sign_node(hi, neg, zero, pos))
    _, lc = p.lead()
    p = p.scale(Fraction(1) / abs(lc))
    if lc < 0:
        p = -p
        neg, pos = pos, neg
    v = _VAR_IX.get(p)
    if v is None:
        v = len(_VARS)
        _VARS.append(p)
        _VAR_IX[p] = v
    if isinstance(neg, DD) and isinstance(zero, DD) and isinstance(pos, DD):
        # children may mention variables above v: rebuild in order
        return ite3(v, neg, zero, pos)
    raise TypeError


_ITE3 = {}


def _cof(d, var, i):
    if d.var == var:
        return d.ch[i]
    return d


def ite3(v, neg, zero, pos):
    top = v
    for c in (neg, zero, pos):
        if c.var is not None and c.var < top:
            top = c.var
    if top == v:
        return node(v, _cof(neg, v, 0), _cof(zero, v, 1), _cof(pos, v, 2))
    k = (v, neg.id, zero.id, pos.id)
    r = _ITE3.get(k)
    if r is None:
        r = node(top, *[ite3(v, _cof(neg, top, i), _cof(zero, top, i), _cof(pos, top, i)) for i in range(3)])
        _ITE3[k] = r
    return r


_APPLY = {}
SKIP_V = '(not compared)'


def apply(f, tag, *ds):
    """Apply f to leaf values of the diagrams; bottom is absorbing, undef is propagated to f."""
    k = (tag,) + tuple(d.id for d in ds)
    r = _APPLY.get(k)
    if r is not None:
        return r
    top = None
    for d in ds:
        if d is BOT or d.leaf is SKIP_V:
            _APPLY[k] = BOT
            return BOT
        if d.var is not None and (top is None or d.var < top):
            top = d.var
    if top is None:
        v = f(*[d.leaf for d in ds])
        r = v if isinstance(v, DD) else leaf(v)
    else:
        kids = [apply(f, tag, *[_cof(d, top, i) for d in ds]) for i in range(3)]
        # leaf functions may introduce new sign variables: rebuild in order
        r = ite3(top, *kids)
    _APPLY[k] = r
    return r


def clear_caches():
    _APPLY.clear()
    _ITE3.clear()


def ite(c, a, b):
    """c: boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    k = ('ite', c.id, a.id, b.id)
    r = _APPLY.get(k)
    if r is not None:
        return r
    top = min(x.var for x in (c, a, b) if x.var is not None)
    r = node(top, *[ite(_cof(c, top, i), _cof(a, top, i), _cof(b, top, i)) for i in range(3)])
    _APPLY[k] = r
    return r


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def restrict(d, c):
    """d where c holds, bottom elsewhere."""
    return ite(c, d, BOT)


def cmp_rats(pred, a, b):
    """Boolean diagram for a pred b over Rats."""
    d = a - b
    tab = dict(gt=(0, 0, 1), ge=(0, 1, 1), lt=(1, 0, 0), le=(1, 1, 0), eq=(0, 1, 0), ne=(1, 0, 1))[pred]
    B = [FALSE, TRUE]
    n, z, p = B[tab[0]], B[tab[1]], B[tab[2]]
    if d.num.is_zero():
        return z
    i = _ATOM_IX.get(('sym', 'inf'))
    if i is not None and d.den.is_const() and ((i, 1),) in d.num.t:
        # a finite number compared with infinity
        if sum(1 for m in d.num.t for x, _ in m if x == i) == 1:
            return p if (d.num.t[((i, 1),)] > 0) == (d.den.const() > 0) else n
    if d.den.is_const():
        return sign_node(d.num, n, z, p)
    # sign(num)*sign(den)
    return sign_node(d.den, sign_node(d.num, p, z, n), z, sign_node(d.num, n, z, p))


def leaves(d, seen=None, out=None):
    if out is None:
        out, seen = [], set()
    if d.id in seen:
        return out
    seen.add(d.id)
    if d.var is None:
        if d is not BOT:
            out.append(d.leaf)
    else:
        for c in d.ch:
            leaves(c, seen, out)
    return out


def conds_str(path):
    s = []
    for v, i in path:
        s.append('%s %s 0' % (_VARS[v], '<=>'[i]))
    return ' and '.join(s) or 'always'


def diff_values(a, b, ties=True, assume=None, eq=None, limit=1, prune=None):
    """Compare two diagrams leaf by leaf.  Returns list of (path, leafA, leafB) that differ.

    ties=False ignores the zero branches (boundary cases).  assume(path) may reject a differing
    region as infeasible; prune(path) is asked on the way down and cuts infeasible subtrees.
    """
    eq = eq or leaf_eq
    out = []
    memo = {}

    def differs(x, y):
        if x is BOT or y is BOT or x is y:
            return False
        k = (x.id, y.id)
        r = memo.get(k)
        if r is None:
            if x.var is None and y.var is None:
                r = not eq(x.leaf, y.leaf)
            else:
                top = min(v.var for v in (x, y) if v.var is not None)
                r = any(differs(_cof(x, top, i), _cof(y, top, i)) for i in range(3) if ties or i != 1)
            memo[k] = r
        return r

    def rec(x, y, path):
        if len(out) >= limit or not differs(x, y):
            return
        if x.var is None and y.var is None:
            if assume is None or assume(path):
                out.append((list(path), x.leaf, y.leaf))
            return
        top = min(v.var for v in (x, y) if v.var is not None)
        for i in range(3):
            if i == 1 and not ties:
                continue
            xi, yi = _cof(x, top, i), _cof(y, top, i)
            if not differs(xi, yi):
                continue
            path.append((top, i))
            if prune is None or prune(path):
                rec(xi, yi, path)
            path.pop()
    rec(a, b, [])
    return out


def leaf_eq(p, q):
    if p is SKIP_V or q is SKIP_V:
        return True
    if isinstance(p, Rat) and isinstance(q, Rat):
        return rat_eq(p, q)
    if isinstance(p, bool) or isinstance(q, bool):
        return p is q
    return p == q


def num(d):
    """Rat or int/Fraction -> leaf diagram."""
    if isinstance(d, DD):
        return d
    if isinstance(d, Rat):
        return leaf(d)
    return leaf(rc(d))


# arithmetic on diagrams -----------------------------------------------------------------
def _undef(*xs):
    return any(x is UNDEF_V for x in xs)


def add(a, b):
    return apply(lambda x, y: UNDEF_V if _undef(x, y) else x + y, '+', a, b)


def sub(a, b):
    return apply(lambda x, y: UNDEF_V if _undef(x, y) else x - y, '-', a, b)


def mul(a, b):
    return apply(lambda x, y: UNDEF_V if _undef(x, y) else x * y, '*', a, b)


class DivZero:
    def __str__(self):
        return 'x/0'


DIVZERO = DivZero()


def div(a, b):
    def f(x, y):
        if _undef(x, y):
            return UNDEF_V
        if y.num.is_zero():
            return UNDEF_V
        return x / y
    return apply(f, '/', a, b)


def neg(a):
    return apply(lambda x: UNDEF_V if _undef(x) else -x, 'neg', a)


def cmp(pred, a, b):
    return apply(lambda x, y: FALSE if _undef(x, y) else cmp_rats(pred, x, y), ('cmp', pred), a, b)


def absd(a):
    def f(x):
        if _undef(x):
            return UNDEF_V
        return ite(cmp_rats('ge', x, R0), leaf(x), leaf(-x))
    return apply(f, 'abs', a)


def call(name, *args):
    def f(*xs):
        if _undef(*xs):
            return UNDEF_V
        if name == 'trunc':
            if xs[0].is_const() or is_integral(xs[0]):
                return fn(name, *xs)
            return ite(cmp('lt', leaf(xs[0]), num(0)), leaf(fn('ceil', *xs)), leaf(fn('floor', *xs)))
        if name == 'sqrt' and not xs[0].den.is_const():
            try:
                return fn(name, *xs)
            except Unsupported:
                q = fn('sqrt', Rat(xs[0].num * xs[0].den)) / Rat(xs[0].den)
                return sign_node(xs[0].den, leaf(-q), leaf(q), leaf(q))
        return fn(name, *xs)
    return apply(f, ('fn', name), *args)
