"""Emptiness in the domain of convex polyhedra over monomials (exact rational simplex).

A region of a sign diagram is a conjunction of sign conditions on polynomials.  Every monomial is
treated as one coordinate, so a region whose relaxation is empty is empty; a non-empty relaxation is
kept (the comparison is then made, never skipped).
"""
import math
from fractions import Fraction
from math import gcd
from . import alg


def _nonneg_mono(m):
    for a, e in m:
        if e % 2 and a not in alg.POSITIVE and a not in alg.NONNEG and a not in alg.SQRT_ARG:
            return False
    return True


def _bounds(a):
    """Rational bounds of an atom that stands for a number (or None)."""
    k = alg.ATOMS[a]
    if k == ('sym', 'pi'):
        v = Fraction(math.pi)
    elif a in alg.SQRT_ARG and alg.SQRT_ARG[a].is_const():
        v = Fraction(math.sqrt(alg.SQRT_ARG[a].const()))
    else:
        return None
    return v * (1 - Fraction(1, 10**15)), v * (1 + Fraction(1, 10**15))


def feasible(path, extra=()):
    """May the conjunction of sign conditions hold?  path: [(var, 0|1|2)], extra: [(Poly, 0|1|2)]."""
    cons = [(alg._VARS[v], s) for v, s in path] + list(extra)
    rows = []          # (dict mono->coef, const, kind) meaning  sum + const  (kind) 0 ; kind in '>', '='
    monos = {}
    for p, s in cons:
        r, c0 = _introw(p)
        if s == 0:
            r, c0 = {m: -x for m, x in r.items()}, -c0
        for m in r:
            if m not in monos:
                monos[m] = len(monos)
        if s != 1 and all(_int_mono(m) for m in r):
            rows.append(({monos[m]: x for m, x in r.items()}, c0 - 1, 'g'))     # integers: > 0 is >= 1
        else:
            rows.append(({monos[m]: x for m, x in r.items()}, c0, '=' if s == 1 else '>'))
    # floor(n/d) d <= n < (floor(n/d) + 1) d  for d > 0
    atoms = {a for m in monos for a, _ in m}
    for a in sorted(atoms):
        k = alg.ATOMS[a]
        if k[0] == 'fn' and k[1] in ('floor', 'ceil'):
            x = alg.FN_ARGS[a][0]
            if alg.poly_sign(x.den) == 1:
                fd = alg.Poly({((a, 1),): 1}) * x.den
                if k[1] == 'floor':
                    facts = ((x.num - fd, 'g'), (fd + x.den - x.num, '>'))
                else:
                    facts = ((fd - x.num, 'g'), (x.num + x.den - fd, '>'))
                for p, kind in facts:
                    r, c0 = _introw(p)
                    for m in r:
                        if m not in monos:
                            monos[m] = len(monos)
                    rows.append(({monos[m]: y for m, y in r.items()}, c0, kind))
    # numbers with known bounds times a coordinate known not to be negative
    for m in list(monos):
        for i, (a, e) in enumerate(m):
            b = _bounds(a) if e == 1 else None
            rest = m[:i] + m[i + 1:]
            if b is not None and _nonneg_mono(rest):
                for p in (alg.Poly({m: 1, rest: -b[0]}), alg.Poly({m: -1, rest: b[1]})):
                    r, c0 = _introw(p)
                    for x in r:
                        if x not in monos:
                            monos[x] = len(monos)
                    rows.append(({monos[x]: y for x, y in r.items()}, c0, 'g'))
    signs = {}
    for p, s in cons:
        if len(p.t) == 1:
            (m, x), = p.t.items()
            if len(m) == 1 and m[0][1] % 2:
                sg = (s - 1) * (1 if x > 0 else -1)
                if signs.setdefault(m[0][0], sg) != sg:
                    return False
    # products of a sign-known coordinate with a constrained polynomial over monomials already present
    for a, sg in signs.items():
        if sg:
            x = alg.Poly({((a, 1),): sg})
            for p, s in cons:
                if len(p.t) > 1:
                    r, c0 = _introw(p * x)
                    if all(m in monos for m in r):
                        if s == 0:
                            r, c0 = {m: -y for m, y in r.items()}, -c0
                        rows.append(({monos[m]: y for m, y in r.items()}, c0, '=' if s == 1 else '>'))
    for m, i in list(monos.items()):
        sg = 1
        for a, e in m:
            t = 1 if a in alg.POSITIVE else signs.get(a)
            if t == 0:
                sg = 0
                break
            if t is None:
                sg = None
            elif sg is not None and e % 2:
                sg *= t
        if sg is not None:
            if len(m) > 1 or m[0][1] > 1 or m[0][0] not in signs:
                rows.append(({i: -1 if sg < 0 else 1}, 0, '=' if sg == 0 else '>'))
        elif _nonneg_mono(m):
            strict = all(a in alg.POSITIVE for a, e in m)
            rows.append(({i: 1}, 0, '>' if strict else 'g'))
    return _lp(rows)


def _int_mono(m):
    return all(a in alg.INT_ATOMS or (alg.ATOMS[a][0] == 'fn' and alg.ATOMS[a][1] in ('floor', 'ceil', 'idiv')) for a, _ in m)


def _introw(p):
    l = 1
    for x in p.t.values():
        d = x.denominator
        l = l * d // gcd(l, d)
    r, c0 = {}, 0
    for m, x in p.t.items():
        if m == ():
            c0 = int(x * l)
        else:
            r[m] = int(x * l)
    return r, c0


def _norm(r):
    g = 0
    for x in r.values():
        g = gcd(g, x)
        if g == 1:
            return r
    if g > 1:
        return {k: x // g for k, x in r.items()}
    return r


def _comb(p, r, q, piv):
    """p*r - q*piv (integer rows), p > 0."""
    out = {k: p * x for k, x in r.items()} if p != 1 else dict(r)
    for k, x in piv.items():
        y = out.get(k, 0) - q * x
        if y:
            out[k] = y
        else:
            out.pop(k, None)
    return _norm(out)


def _lp(rows):
    """rows ('>' : expr > 0, 'g': expr >= 0, '=': expr = 0) over free unknowns; True iff satisfiable.

    Solved as: maximise eps <= 1 with every strict row >= eps.  Free unknowns are eliminated first
    (each consumes one row), the rest is a small exact integer simplex over the slacks.
    """
    C, E = 'c', 'e'
    eqs = []
    strict = False
    for i, (r, c, k) in enumerate(rows):
        e = dict(r)
        if c:
            e[C] = c
        if not any(v != C for v in e):
            v = e.get(C, 0)
            if (k == '=' and v != 0) or v < 0 or (k == '>' and v == 0):
                return False
            continue
        if k != '=':
            e[('s', i)] = -1
        if k == '>':
            e[E] = -1
            strict = True
        eqs.append(_norm(e))
    # Gaussian elimination of the free unknowns
    free = sorted({v for e in eqs for v in e if isinstance(v, int)})
    for v in free:
        use = [i for i, e in enumerate(eqs) if v in e]
        if not use:
            continue
        i = min(use, key=lambda i: len(eqs[i]))
        piv = eqs[i]
        p = piv[v]
        if p < 0:
            piv = {k: -x for k, x in piv.items()}
            p = -p
        eqs = [e if v not in e else _comb(p, e, e[v], piv) for j, e in enumerate(eqs) if j != i]
    eqs = [e for e in eqs if e]
    if not eqs:
        return True
    if any(set(e) == {C} for e in eqs):
        return False
    # eqs: sum a_s s + b eps + c = 0, s >= 0, 0 <= eps <= 1
    T, basis = [], []
    obj = {}
    for i, e in enumerate(eqs):
        c = e.get(C, 0)
        row = {k: (-x if c > 0 else x) for k, x in e.items() if k != C}
        row[C] = abs(c)                 # sum = rhs >= 0
        # sum row = rhs + artificial basis
        row[('a', i)] = 1
        T.append(row)
        basis.append(('a', i))
    T.append({E: 1, ('u',): 1, C: 1})
    basis.append(('u',))
    # phase 1: minimise the sum of artificials
    for row in T[:-1]:
        for k, x in row.items():
            if k == C or k[0] != 'a':
                obj[k] = obj.get(k, 0) - x
    obj = {k: x for k, x in obj.items() if x}
    obj = _simplex(T, basis, obj)
    if any(b[0] == 'a' and T[i].get(C, 0) for i, b in enumerate(basis)):
        return False
    if not strict:
        return True
    for i, b in enumerate(list(basis)):
        if b[0] == 'a':
            j = next((k for k in T[i] if k != C and k[0] != 'a'), None)
            if j is not None:
                _pivot(T, basis, {}, i, j)
    keep = [i for i, b in enumerate(basis) if b[0] != 'a']
    T = [{k: x for k, x in T[i].items() if k == C or k[0] != 'a'} for i in keep]
    basis = [basis[i] for i in keep]
    obj = {E: -1}
    for i, b in enumerate(basis):
        if b == E:
            obj = _comb(T[i][E], obj, -1, T[i])
    _simplex(T, basis, obj)
    for i, b in enumerate(basis):
        if b == E:
            return T[i].get(C, 0) > 0
    return False


def _pivot(T, basis, obj, i, j):
    row = T[i]
    p = row[j]
    if p < 0:
        row = {k: -x for k, x in row.items()}
        p = -p
    row = _norm(row)
    p = row[j]
    T[i] = row
    for k in range(len(T)):
        if k != i and j in T[k]:
            T[k] = _comb(p, T[k], T[k][j], row)
    if j in obj:
        obj = _comb(p, obj, obj[j], row)
    basis[i] = j
    return obj


def _key(k):
    return (str(k[0]), k[1:])


def _simplex(T, basis, obj):
    for _ in range(20000):
        cand = [k for k, x in obj.items() if x < 0 and k != 'c' and k[0] != 'a']
        if not cand:
            return obj
        j = min(cand, key=_key)
        bi = None
        for i in range(len(T)):
            a = T[i].get(j, 0)
            if a > 0:
                r = (T[i].get('c', 0), a)
                if bi is None or r[0] * best[1] < best[0] * a or (r[0] * best[1] == best[0] * a and _key(basis[i]) < _key(basis[bi])):
                    best, bi = r, i
        if bi is None:
            return obj
        obj = _pivot(T, basis, obj, bi, j)
    raise alg.Unsupported('simplex did not finish')
