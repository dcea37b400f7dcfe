"""Bit-provenance domain: every integer is a vector of bits, each bit says which input bit it is.

A bit is 0, 1, ('b', source, k) or ('t', n) for anything else (top, never equal to another bit).  Used on top of
the value-numbering evaluator for bit-manipulation code.
"""
from . import alg, ir
from .alg import Rat, rc, leaf, num, TRUE, FALSE, Unsupported, apply

_TOP = [0]


def top():
    _TOP[0] += 1
    return ('t', _TOP[0])


class BV:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __str__(self):
        out = []
        for i, x in enumerate(self.b):
            if x == 1:
                out.append('bit %d: 1' % i)
            elif x != 0:
                out.append('bit %d: %s' % (i, 'bit %d of %s' % (x[2], x[1]) if x[0] == 'b' else 'mixed'))
        return '{' + '; '.join(out) + '}' if out else '0'

    def hi(self):
        return sum(1 << i for i, x in enumerate(self.b) if x != 0)

    def lo(self):
        return sum(1 << i for i, x in enumerate(self.b) if x == 1)

    def const(self):
        return self.lo() if all(x in (0, 1) for x in self.b) else None


def source(name, width, nbits):
    return BV([('b', name, k) if k < nbits else 0 for k in range(width)])


def const(v, w):
    v = int(v) % (1 << w)
    return BV([(v >> i) & 1 for i in range(w)])


def _and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    return top()


def _or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    return top()


def _xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return top()


def width(ty):
    if ty.startswith('<'):
        ty = ty[1:-1].split(' x ')[1]
    return int(ty[1:]) if ty.startswith('i') and ty[1:].isdigit() else None


def add(x, y):
    """Sum; exact while no two set bits meet and no carry is pending."""
    out, carry = [], 0
    for a, b in zip(x.b, y.b):
        if carry == 0 and (a == 0 or b == 0):
            out.append(_or(a, b))
        elif a in (0, 1) and b in (0, 1) and carry in (0, 1):
            s = a + b + carry
            out.append(s & 1)
            carry = s >> 1
        else:
            out.append(top())
            carry = top()
    return BV(out)


class BitEvaluator(ir.Evaluator):
    def bv(self, v, w):
        """Diagram with BV leaves."""
        def f(x):
            if isinstance(x, BV):
                return x
            if isinstance(x, bool):
                return const(int(x), w)
            if isinstance(x, Rat) and x.is_const():
                return const(x.const(), w)
            if x is alg.UNDEF_V:
                return x
            raise Unsupported('bits of %s' % x)
        return apply(f, ('bv', w), v)

    def hasbv(self, *vs):
        return any(isinstance(x, BV) for v in vs if isinstance(v, alg.DD) for x in alg.leaves(v))

    def tonum(self, v):
        def f(x):
            return rc(int(x)) if isinstance(x, bool) else x
        return apply(f, 'tonumb', v)

    def tobool(self, v):
        def f(x):
            if isinstance(x, BV):
                return self.nonzero(x)
            return leaf(x) if isinstance(x, bool) else (FALSE if x is alg.UNDEF_V else alg.cmp_rats('ne', x, alg.R0))
        return ir.map_leaves(f, v)

    def nonzero(self, x):
        if x.lo():
            return TRUE
        if not x.hi():
            return FALSE
        bs = [b for b in x.b if b != 0]
        if len(bs) == 1:
            a = alg.atom('sym', 'bit', bs[0])
            alg.NONNEG.add(a)
            return alg.cmp('ne', leaf(alg.ra(a)), num(0))
        raise Unsupported('branch on several bits')

    def instr(self, ins, st, cond):
        if ins['op'] == 'select':
            c, a, b = [self.op(x) for x in ins['ops']]
            if isinstance(c, alg.DD) and isinstance(a, alg.DD) and self.hasbv(a, b):
                c = self.tobool(c)
                w = width(ins['ty'])
                bit = self.bittest(c)
                if bit is not None:
                    (src, neg) = bit
                    a, b = self.bv(a, w), self.bv(b, w)
                    if neg:
                        a, b = b, a

                    def mux(x, y):
                        return BV([p if p == q else src if (p, q) == (1, 0) else top() for p, q in zip(x.b, y.b)])
                    return apply(mux, ('mux', src), a, b)
        return super().instr(ins, st, cond)

    def bittest(self, c):
        if c.var is None:
            return None
        p = alg._VARS[c.var]
        if len(p.t) == 1:
            (m, _), = p.t.items()
            if len(m) == 1 and alg.ATOMS[m[0][0]][:2] == ('sym', 'bit'):
                src = alg.ATOMS[m[0][0]][2]
                if c.ch[1] is FALSE and c.ch[2] is TRUE:
                    return src, False
                if c.ch[1] is TRUE and c.ch[2] is FALSE:
                    return src, True
        return None

    def scalar(self, op, ins, ops, ty):
        w = width(ty)
        if op in ('fptoui', 'fptosi'):
            def f(x):
                if x.is_const():
                    return rc(int(x.const()))
                return source('int(%s)' % x, w, self.hooks['float_bits'])
            return apply(f, ('fptoui', w), ops[0])
        if op in ('uitofp', 'sitofp') and self.hasbv(ops[0]):
            return apply(lambda x: alg.ra(alg.atom('bits', x)) if isinstance(x, BV) else x, 'uitofp', ops[0])
        if not self.hasbv(*ops):
            return super().scalar(op, ins, ops, ty)
        if op in ('zext', 'trunc', 'sext'):
            def f(x):
                if not isinstance(x, BV):
                    return x
                b = list(x.b[:w])
                return BV(b + [x.b[-1] if op == 'sext' else 0] * (w - len(b)))
            r = apply(f, (op, w), ops[0])
            return self.tobool(r) if ty == 'i1' else r
        if op == 'freeze' or op == 'bitcast':
            return ops[0]
        x = self.bv(ops[0], w)
        if op in ('shl', 'lshr', 'ashr'):
            c = ir.constval(ops[1])
            if c is None:
                y = alg.leaves(ops[1])
                c = y[0].const() if len(y) == 1 and isinstance(y[0], BV) else None
            if c is None:
                raise Unsupported('shift by a value that is not constant')
            c = int(c)

            def sh(v):
                if op == 'shl':
                    return BV(([0] * c + list(v.b))[:w])
                return BV(list(v.b[c:]) + [0 if op == 'lshr' else v.b[-1]] * min(c, w))
            return apply(sh, (op, c, w), x)
        y = self.bv(ops[1], w)
        if op in ('and', 'or', 'xor'):
            g = {'and': _and, 'or': _or, 'xor': _xor}[op]
            return apply(lambda p, q: BV([g(a, b) for a, b in zip(p.b, q.b)]), (op, w), x, y)
        if op == 'add':
            return apply(add, ('add', w), x, y)
        if op == 'sub':
            # exact when the subtrahend's bits are bits of the minuend
            return apply(lambda p, q: BV([a if b == 0 else 0 if a == b else top() for a, b in zip(p.b, q.b)]), ('sub', w), x, y)
        if op == 'mul':
            def mul(p, q):
                k = q.const()
                if k is None:
                    p, k = q, p.const()
                if k is None:
                    return BV([top() for _ in range(w)])
                r = const(0, w)
                for i in range(w):
                    if k >> i & 1:
                        r = add(r, BV(([0] * i + list(p.b))[:w]))
                return r
            return apply(mul, ('mul', w), x, y)
        raise Unsupported('bits: %s' % op)

    def compare(self, op, pred, a, b):
        if not (isinstance(a, alg.DD) and self.hasbv(a, b)):
            return super().compare(op, pred, a, b)
        w = next(len(x.b) for v in (a, b) for x in alg.leaves(v) if isinstance(x, BV))
        x, y = self.bv(a, w), self.bv(b, w)

        def f(p, q):
            if pred in ('eq', 'ne'):
                if q.const() == 0 or p.const() == 0:
                    r = self.nonzero(p if q.const() == 0 else q)
                    return r if pred == 'ne' else alg.bnot(r)
                if p == q:
                    return TRUE if pred == 'eq' else FALSE
                k = q.const()
                if k is not None and bin(k).count('1') == 1 and p.hi() == k:
                    r = self.nonzero(p)
                    return r if pred == 'eq' else alg.bnot(r)
            else:
                n = pred[1:]
                plo, phi, qlo, qhi = p.lo(), p.hi(), q.lo(), q.hi()
                if n in ('gt', 'ge'):
                    plo, phi, qlo, qhi = qlo, qhi, plo, phi
                    n = {'gt': 'lt', 'ge': 'le'}[n]
                if n == 'lt':
                    if phi < qlo:
                        return TRUE
                    if plo >= qhi:
                        return FALSE
                else:
                    if phi <= qlo:
                        return TRUE
                    if plo > qhi:
                        return FALSE
            raise Unsupported('comparison of bit vectors')
        return apply(f, ('cmpb', pred, w), x, y)

    def intrin(self, n, ops, ins):
        f = ins.get('fn') or ''
        if 'bmi.pdep' in f or 'bmi.pext' in f:
            w = width(ins['ty'])
            x, m = self.bv(ops[0], w), self.bv(ops[1], w)

            def g(v, mask):
                k = mask.const()
                if k is None:
                    raise Unsupported('pdep with a mask that is not constant')
                pos = [i for i in range(w) if k >> i & 1]
                if 'pdep' in f:
                    out = [0] * w
                    for i, p in enumerate(pos):
                        out[p] = v.b[i]
                else:
                    out = [v.b[p] for p in pos] + [0] * (w - len(pos))
                return BV(out)
            return apply(g, (f,), x, m)
        if n in ('fshl', 'fshr', 'bswap', 'bitreverse', 'umin', 'umax', 'smin', 'smax') and self.hasbv(*ops):
            raise Unsupported('bits: %s' % n)
        return super().intrin(n, ops, ins)
