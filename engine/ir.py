"""One-pass value numbering of LLVM IR (JSON from irdump) in the algebraic domain of alg.py.

Every instruction is visited once per loop summary; control-flow joins become gated values, loops
are summarised by recurrence solving (induction variables, sums, store families).  Nothing is
executed and no path is enumerated.
"""
import math
import struct
from fractions import Fraction
from . import alg
from .alg import (DD, Rat, R0, R1, rc, ra, sym, leaf, num, TRUE, FALSE, BOT, UNDEF, UNDEF_V, Unsupported,
                  ite, band, bor, bnot, apply, node)


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base = base
        self.off = off      # Rat

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __str__(self):
        return '&%s+%s' % (base_str(self.base), self.off)

    __repr__ = __str__


def base_str(b):
    if isinstance(b, tuple):
        if b[0] == 'ld':
            return '*(%s+%s)' % (base_str(b[1]), b[2])
        return '.'.join(str(x) for x in b)
    return str(b)


NULL = Ptr('null', R0)

FLOAT_T = {'double', 'float'}


def double_bits(u):
    return struct.unpack('<d', struct.pack('<Q', u))[0]


PI = alg.atom('sym', 'pi')
alg.POSITIVE.add(PI)
import math as _math
_SIMPLE = {}


def lift_const(x, t='double'):
    """The simplest rational (or rational multiple of pi / square root) that rounds to this constant."""
    if x != x or x in (float('inf'), float('-inf')):
        return alg.sym('inf') if x > 0 else (-alg.sym('inf') if x < 0 else alg.sym('nan'))
    k = (x, t)
    if k in _SIMPLE:
        return _SIMPLE[k]
    f = Fraction(x)
    r = None

    def rnd(v):
        v = float(v)
        if t == 'float':
            v = struct.unpack('<f', struct.pack('<f', v))[0]
        return v
    if f.denominator <= 1 << 20 and abs(f.numerator) < 1 << 53:
        r = rc(f)
    if r is None:
        for lim in (100, 10000, 1000000):
            g = f.limit_denominator(lim)
            if g != 0 and rnd(g) == x:
                r = rc(g)
                break
    if r is None and t == 'double':
        # a folded product of decimal literals, off by an ulp or two
        d = Fraction('%.6g' % x)
        if d != 0 and abs(float(d) - x) <= 2 * _math.ulp(x):
            r = rc(d)
    if r is None:
        # decimal literal such as 1e-7, 0.602214076
        for nd in range(1, 18):
            s = '%.*g' % (nd, x)
            if rnd(float(s)) == x:
                d = Fraction(s)
                if nd <= 12:
                    r = rc(d)
                break
    if r is None:
        for q in (1, 2, 3, 4, 6, 8, 12):
            for n in range(1, 13):
                for sgn in (1, -1):
                    if rnd(sgn * n * _math.pi / q) == x or (rnd(sgn * _math.pi * (n / q)) == x):
                        r = ra(PI) * rc(Fraction(sgn * n, q))
                    elif rnd(sgn * n / (q * _math.pi)) == x:
                        r = rc(Fraction(sgn * n, q)) / ra(PI)
                    if r is not None:
                        break
                if r is not None:
                    break
            if r is not None:
                break
    if r is None:
        for k2 in (2, 3, 5, 6):
            for q in (1, 2, 3, 4, 6):
                for n in (1, 2, 3, 4):
                    for sgn in (1, -1):
                        if rnd(sgn * _math.sqrt(k2) * n / q) == x:
                            r = alg.fn('sqrt', rc(k2)) * rc(Fraction(sgn * n, q))
    if r is None:
        r = rc(f)
    _SIMPLE[k] = r
    return r


ODD_INTS = ('i24', 'i40', 'i48', 'i56')


class Cat:
    """Neighbouring memory cells read as one wider word: parts are (offset, size, diagram), bytes not listed are padding."""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts, self.size = tuple(parts), size

    @staticmethod
    def even(vals, unit):
        return Cat([(k * unit, unit, v) for k, v in enumerate(vals)], unit * len(vals))

    def part(self, d, size):
        for o, z, v in self.parts:
            if o == d and z == size:
                return v
        return None

    def layout(self):
        return tuple((o, z) for o, z, _ in self.parts)

    def __eq__(self, o):
        return isinstance(o, Cat) and self.size == o.size and self.layout() == o.layout() and all(
            a[2] is b[2] for a, b in zip(self.parts, o.parts))

    def __hash__(self):
        return hash((self.size,) + tuple((p[0], id(p[2])) for p in self.parts))

    def __str__(self):
        return '[%s]' % ', '.join(str(p[2]) for p in self.parts)


def plain(x):
    """A word put together from cells used as a number: some number nothing is known about."""
    if not isinstance(x, Cat):
        return x
    top = x.part(x.size - 1, 1)
    c = constval(top) if top is not None else None
    if c is None or not 0 <= c < 128:
        return alg.sym('unknown %d %s' % (x.size, x))
    low = alg.atom('sym', 'unknown %d bytes of %s' % (x.size - 1, x))
    alg.NONNEG.add(low)
    alg.INT_ATOMS.add(low)
    return rc(int(c) << (8 * (x.size - 1))) + ra(low)


class Cells(dict):
    """Memory cells of one object: offset Rat -> (size, DD, loc); symbolic offsets are counted."""
    __slots__ = ('nsym',)

    def __init__(self, src=()):
        dict.__init__(self, src)
        self.nsym = src.nsym if isinstance(src, Cells) else sum(1 for o in self if not o.is_const())

    def __setitem__(self, o, c):
        if not o.is_const() and o not in self:
            self.nsym += 1
        dict.__setitem__(self, o, c)

    def __delitem__(self, o):
        if not o.is_const():
            self.nsym -= 1
        dict.__delitem__(self, o)

    def pop(self, o):
        c = self[o]
        del self[o]
        return c

    def near(self, off, size):
        """Cells that may overlap [off, off + size)."""
        if self.nsym or not off.is_const() or len(self) < 24:
            return list(self.items())
        k = off.const()
        if k.denominator != 1:
            return list(self.items())
        k = int(k)
        out = []
        for j in range(k - 15, k + size):
            o = int_rat(j)
            c = self.get(o)
            if c is not None:
                out.append((o, c))
        return out


_INT_RAT = {}


def int_rat(k):
    r = _INT_RAT.get(k)
    if r is None:
        r = _INT_RAT[k] = rc(k)
    return r


class State:
    """Memory state: base -> Cells, plus block copies; shared between copies until written."""
    __slots__ = ('cells', 'copies', 'fams', 'calls', 'owned')

    def __init__(self):
        self.cells = {}
        self.copies = {}
        self.fams = {}
        self.owned = set()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.copies = dict(self.copies)
        s.fams = dict(self.fams)
        self.owned = set()
        return s

    def w(self, base):
        """The cells of an object, for writing."""
        if base not in self.owned:
            self.cells[base] = Cells(self.cells.get(base, ()))
            self.owned.add(base)
        return self.cells[base]

    def add_copy(self, base, entry):
        self.copies[base] = self.copies.get(base, ()) + (entry,)


class Fam:
    """A family of stores performed by a loop nest: for every iteration of `loops`, if cond holds,
    base[off] = val."""
    __slots__ = ('off', 'size', 'val', 'cond', 'loops', 'loc')

    def __init__(self, off, size, val, cond, loops, loc):
        self.off, self.size, self.val, self.cond, self.loops, self.loc = off, size, val, cond, loops, loc

    def __str__(self):
        return 'for %s: if %s: [%s] = %s' % (
            ', '.join('%s<%s' % (alg.atom_str(k), n) for k, n in self.loops), self.cond, self.off, self.val)


class LoopInfo:
    def __init__(self, header, k, n):
        self.header, self.k, self.n = header, k, n


UN = {'fneg'}
LIBM = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp',
        'log': 'log', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'cbrt': 'cbrt', 'asinh': 'asinh',
        'acosh': 'acosh', 'atanh': 'atanh', 'log2': 'log2', 'log10': 'log10', 'floor': 'floor', 'ceil': 'ceil',
        'trunc': 'trunc', 'round': 'round', 'atan2': 'atan2', 'pow': 'pow', 'sqrt': 'sqrt', 'hypot': 'hypot',
        'rint': 'round', 'nearbyint': 'round'}
IGNORE_CALLS = ('__cxa_atexit', 'llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch',
                'llvm.stackrestore')


def libm_name(f):
    if f.startswith('llvm.'):
        p = f.split('.')
        return p[1]
    if f.endswith('f') and f[:-1] in LIBM:
        return f[:-1]
    return f


class Evaluator:
    def __init__(self, module, func, hooks=None, arg_names=None, unroll_limit=64):
        self.mod = module
        self.fn = func
        self.env = {}
        self.hooks = hooks or {}
        self.left = None
        self.args = []
        self.blocks = {b['id']: b for b in func['blocks']}
        self.order = [b['id'] for b in func['blocks']]
        self.preds = {b: [] for b in self.blocks}
        for b in func['blocks']:
            for s in b['succ']:
                self.preds[s].append(b['id'])
        self.loops = {l['header']: l for l in func['loops']}
        for l in func['loops']:
            l['set'] = set(l['blocks'])
        self.events = []       # effects that are not memory: calls
        self.cell_types = {}
        self.nheap = 0
        self.width = {}
        self.loopstack = []
        self.loopinfo = {}
        self.ninstr = 0
        self.repo_fns = set()
        self.rets = []
        self.depth = 0
        self.iterpath = []      # iteration numbers of the loops being peeled
        self.edge_vals = {}
        self.nsnap = 0
        self.loop_limit = unroll_limit
        self.returns = []
        for i, a in enumerate(func['args']):
            nm = (arg_names[i] if arg_names and i < len(arg_names) else None) or 'arg%d' % i
            self.args.append(nm)
            if a['ty'] == 'ptr':
                v = leaf(Ptr(nm, R0))
            else:
                at = alg.atom('sym', nm)
                if a['ty'].startswith('i'):
                    alg.INT_ATOMS.add(at)
                v = leaf(ra(at))
                if a['ty'] == 'i1':
                    v = alg.cmp('ne', v, num(0))
            self.env[a['id']] = v

    # ------------------------------------------------------------ operands
    def op(self, o):
        k = o['k']
        if k == 'v':
            try:
                return self.env[o['v']]
            except KeyError:
                raise Unsupported('use before def %s in %s' % (o, self.fn['name']))
        if k == 'i':
            v = int(o['v'])
            if o['w'] == 1:
                return TRUE if v else FALSE
            return num(v)
        if k == 'f':
            b = int(o['v'])
            if o.get('t', 'double') == 'double' and 0 < b % 2**63 < 2**52:      # two integers passed as one word
                return leaf(Cat.even([num(_wrap(b, 32)), num(_wrap(b >> 32, 32))], 4))
            return leaf(lift_const(double_bits(b), o.get('t', 'double')))
        if k == 'u':
            t = o.get('t', '')
            if t.startswith('<'):
                return tuple([UNDEF] * int(t[1:].split(' ')[0]))
            if t.startswith('{'):
                return tuple([UNDEF] * (t.count(',') + 1))
            return UNDEF
        if k == 'n':
            return leaf(NULL)
        if k == 'z':
            if 'n' in o:
                return tuple([num(0)] * o['n'])
            t = o.get('t', '')
            if t.startswith('{'):
                return tuple([num(0)] * (t.count(',') + 1))
            return num(0)
        if k == 'a':
            return tuple(self.op(x) for x in o['v'])
        if k == 'g':
            return leaf(Ptr('@' + o['v'], R0))
        if k == 'ge':
            b = self.op(o['b'])
            return self.gep(b, num(o['o']))
        if k == 'ce':
            a = [self.op(x) for x in o['v']]
            if o['op'] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return a[0]
        raise Unsupported('operand kind %s' % o)

    def gep(self, p, off):
        def f(a, b):
            if a is UNDEF_V or b is UNDEF_V:
                return UNDEF_V
            if not isinstance(a, Ptr):
                raise Unsupported('gep on non pointer %s' % a)
            return Ptr(a.base, a.off + b)
        return apply(f, 'gep', p, off)

    # ------------------------------------------------------------ memory
    def sizeof(self, ty):
        if ty in ('double', 'i64', 'ptr'):
            return 8
        if ty in ('float', 'i32'):
            return 4
        if ty.startswith('i') and ty[1:].isdigit():
            return max(1, int(ty[1:]) // 8)
        if ty.startswith('<') or ty.startswith('['):
            n, t = ty[1:-1].split(' x ', 1)
            return int(n) * self.sizeof(t)
        raise Unsupported('sizeof %s' % ty)

    def split_vec(self, ty):
        if ty.startswith('<'):
            n, t = ty[1:-1].split(' x ', 1)
            return int(n), t
        return None

    def load_global(self, name, off, ty):
        g = self.mod.globals.get(name)
        if g is None:
            return None
        if not off.is_const():
            return None
        o = int(off.const())
        if 'str' in g:
            b = g['str'].encode('utf8') + b'\0'
            n = self.sizeof(ty)
            if ty.startswith('i') and 0 <= o:
                b = b + b'\0' * max(0, o + n - len(b))
                return num(_wrap(int.from_bytes(b[o:o + n], 'little'), 8 * n))
            return None
        flat = self.mod.flat_global(name)
        if flat is None:
            return None
        if isinstance(flat, list):
            flat = self.mod._flat[name] = ({po: v for po, t, v in flat if t != 'zero'}, [(po, po + v) for po, t, v in flat if t == 'zero'])
        v = flat[0].get(o)
        if v is None and any(lo <= o < hi for lo, hi in flat[1]):
            v = leaf(NULL) if ty == 'ptr' else num(0)
        return v

    def initial(self, base, off, ty):
        """Value of memory that nobody has written yet."""
        if isinstance(base, str) and base.startswith('@'):
            v = self.load_global(base[1:], off, ty)
            if v is not None:
                return v
        if isinstance(base, tuple) and base[0] in ('alloca', 'heap'):
            return UNDEF
        if base == 'null':
            return UNDEF
        h = self.hooks.get('initial')
        if h:
            v = h(self, base, off, ty)
            if v is not None:
                return v
        if ty == 'ptr':
            return leaf(Ptr(('ld', base, off), R0))
        a = alg.atom('in', base_key(base), off if not off.is_const() else off.const())
        if ty.startswith('i'):
            alg.INT_ATOMS.add(a)
        if ty == 'i1' or ty == 'i8' and False:
            return alg.cmp('ne', leaf(ra(a)), num(0))
        return leaf(ra(a))

    def choices(self, st, base, off):
        """Cells a symbolic offset into an object of known layout can denote: [(condition, offset)] or None."""
        if off.is_const() or not isinstance(base, tuple) or base[0] not in ('alloca', 'heap'):
            return None
        cells = st.cells.get(base, Cells())
        if cells.nsym or st.fams.get(base) or not alg.is_integral(off):
            return None
        cps = st.copies.get(base, ())
        if not all(x[0].is_const() and x[1] is not None and x[1].is_const() for x in cps):
            return None
        g, c0 = 0, 0
        for m, c in off.num.t.items():
            if m:
                g = math.gcd(g, int(c))
            else:
                c0 = int(c)
        offs = {o.const() for o in cells}
        for x in cps:
            lo, n = int(x[0].const()), int(x[1].const())
            if n > 100000:
                return None
            offs |= {Fraction(k) for k in range(lo + (c0 - lo) % g, lo + n, g)}
        out = [(alg.cmp('eq', num(off), num(rc(o))), rc(o)) for o in sorted(offs) if (o - c0) % g == 0]
        return out or None

    def settle(self, st, p):
        """Pointers into the middle of known objects, as a choice between constant offsets."""
        def f(x):
            ch = self.choices(st, x.base, x.off) if isinstance(x, Ptr) else None
            if not ch:
                return leaf(x)
            v = UNDEF
            for c, o in ch:
                v = ite(c, leaf(Ptr(x.base, o)), v)
            return v
        return map_leaves(f, p)

    def load_at(self, st, base, off, ty, size):
        cells = st.cells.get(base)
        ch = self.choices(st, base, off)
        if ch:
            val = UNDEF
            for c, o in ch:
                val = ite(c, self.load_at(st, base, o, ty, size), val)
            return val
        if cells:
            c = cells.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
                if c[0] < size:
                    return self.load_parts(st, base, off, ty, size, c[0])
                v = self.part_of(c[1], c[0], 0, size)
                if v is not None:
                    return v
                if c[0] > size and off.is_const():
                    # reading the low part of a wider integer
                    if alg.leaves(c[1]) and all(isinstance(x, Rat) and x.is_const() for x in alg.leaves(c[1])):
                        bits = 8 * size
                        return apply(lambda x: rc(_wrap(int(x.const()), bits)), ('low', bits), c[1])
                raise Unsupported('load of %d bytes from a cell of %d bytes at %s+%s' % (size, c[0], base_str(base), off))
            for o, c in cells.near(off, size):
                d = off - o
                if d.is_const():
                    dd = d.const()
                    if -size < dd < c[0]:
                        if dd < 0 and size % c[0] == 0:
                            return self.load_parts(st, base, off, ty, size, c[0])
                        v = self.part_of(c[1], c[0], int(dd), size) if dd > 0 else None
                        if v is not None:
                            return v
                        if 0 < dd < c[0] and all(isinstance(x, Rat) and x.is_const() for x in alg.leaves(c[1])):
                            sh, bits = int(dd) * 8, 8 * size
                            return apply(lambda x: rc(_wrap(int(x.const()) >> sh, bits)), ('part', sh, bits), c[1])
                        raise Unsupported('partial overlap load %s+%s' % (base_str(base), off))
                else:
                    if not self.may_ignore_alias(base, off, o):
                        raise Unsupported('ambiguous aliasing load %s+%s vs store %s' % (base_str(base), off, o))
        for fam in reversed(st.fams.get(base, ())):
            v = self.fam_lookup(fam, base, off, size)
            if v == 'no':
                continue
            if v is None:
                raise Unsupported('load %s+%s from a region written by a loop: %s' % (base_str(base), off, fam))
            old = self.load_below(st, base, off, ty, size, fam)
            return ite(v[1], v[0], old) if v[1] is not TRUE else v[0]
        cps = st.copies.get(base, ())
        for k in range(len(cps) - 1, -1, -1):
            dst, ln, sbase, soff, snap, gate = cps[k]
            d = off - dst
            if d.is_const() and ln is not None and ln.is_const() and (d.const() + size <= 0 or d.const() >= ln.const()):
                continue
            if d.is_const() and ln is not None and ln.is_const() and (d.const() < 0 or d.const() + size > ln.const()):
                if size == 1:
                    raise Unsupported('load at the edge of a copied block')
                parts = [(j, 1, self.load_at(st, base, off + rc(j), 'i8', 1)) for j in range(size)]
                return leaf(Cat([p for p in parts if p[2] is not UNDEF], size))
            v = self.load_at(snap, sbase, soff + d, ty, size)
            if gate is TRUE:
                return v
            below = State()
            below.cells = {x: c for x, c in st.cells.items() if x != base}
            below.copies = dict(st.copies)
            below.copies[base] = cps[:k]
            below.fams = st.fams
            return ite(gate, v, self.load_at(below, base, off, ty, size))
        if off.is_const():
            k = (base_key(base), off.const())
            self.width[k] = max(size, self.width.get(k, 0))
        if base in self.hooks.get('bytes', ()) and ty in ('i16', 'i32', 'i64'):
            return leaf(Cat([(k, 1, self.load_at(st, base, off + rc(k), 'i8', 1)) for k in range(size)], size))
        return self.initial(base, off, ty)

    def load_parts(self, st, base, off, ty, size, unit):
        """A wide load over narrower cells."""
        cells = st.cells.get(base, {})
        own = isinstance(base, tuple) and base[0] in ('alloca', 'heap') and not st.copies.get(base) and not st.fams.get(base)
        parts, k = [], 0
        while k < size:
            c = cells.get(off + rc(k))
            if c is not None and c[0] <= size - k:
                parts.append((k, c[0], c[1]))
                k += c[0]
            elif own and c is None:
                k += 1
            elif unit in (4, 8) and k % unit == 0 and size % unit == 0:
                t = {4: 'float', 8: 'double'}[unit]
                parts.append((k, unit, self.load_at(st, base, off + rc(k), t, unit)))
                k += unit
            elif unit == 1 and (c is None or c[0] == 1):
                parts.append((k, 1, self.load_at(st, base, off + rc(k), 'i8', 1)))
                k += 1
            else:
                raise Unsupported('load of %d bytes from a cell of %d bytes at %s+%s' % (size, unit, base_str(base), off))
        if all(p[2] is UNDEF for p in parts):
            return UNDEF
        if all(constval(p[2]) == 0 for p in parts) and sum(p[1] for p in parts) == size:
            return num(0)
        if sum(p[1] for p in parts) == size and ty.startswith('i') and all(
                constval(p[2]) is not None and constval(p[2]) == int(constval(p[2])) for p in parts):
            return num(_wrap(sum((int(constval(v)) % 2 ** (8 * z)) << (8 * o) for o, z, v in parts), 8 * size))
        return leaf(Cat(parts, size))

    def part_of(self, v, have, d, size):
        """Bytes [d, d + size) of a wide cell whose content is known cell by cell."""
        ls = alg.leaves(v)
        if not any(isinstance(x, Cat) or self.input_atom(x) or self.packed(x) or x is UNDEF_V for x in ls):
            return None

        def f(x):
            if x is UNDEF_V:
                return UNDEF
            if isinstance(x, Rat) and x.is_const() and x.const().denominator == 1:
                return num(_wrap(int(x.const()) >> (8 * d), 8 * size))
            if self.packed(x):
                v = leaf(x) if d == 0 else self.highpart(leaf(x), 8 * d)
                if v is None:
                    raise Unsupported('part of %s' % x)
                return self.lowpart(v, 8 * size)
            if isinstance(x, Cat):
                p = x.part(d, size)
                if p is not None:
                    return p
                sub = [(o - d, z, q) for o, z, q in x.parts if d <= o and o + z <= d + size]
                if any(d < o + z and o < d + size for o, z, q in x.parts if not (d <= o and o + z <= d + size)):
                    raise Unsupported('part of %s' % x)
                return leaf(Cat(sub, size)) if sub else UNDEF
            if isinstance(x, Rat) and x.num.is_zero() or x == Ptr('null', rc(0)):
                return num(0)
            a = self.input_atom(x)
            if a:
                if d + size > self.width.get((a[1], a[2]), d + size):
                    raise Unsupported('part of %s beyond its width' % x)
                return self.initial(a[1], (a[2] if isinstance(a[2], Rat) else rc(a[2])) + rc(d), 'float' if size == 4 else 'double')
            raise Unsupported('part of %s' % x)
        return map_leaves(f, v)

    @staticmethod
    def packed(x):
        """An integer put together from narrower ones: low + 2^k high."""
        return (isinstance(x, Rat) and not x.is_const() and alg.is_integral(x) and
                any(abs(c) >= 2 ** 16 and (int(c) & (int(c) - 1)) == 0 for m, c in x.num.t.items() if m))

    @staticmethod
    def input_atom(x):
        if isinstance(x, Rat) and x.is_poly() and len(x.num.t) == 1:
            (m, c), = x.num.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]][0] == 'in' and isinstance(alg.ATOMS[m[0][0]][1], str):
                return alg.ATOMS[m[0][0]]
        return None

    def load_below(self, st, base, off, ty, size, fam):
        s2 = State()
        s2.cells = {b: c for b, c in st.cells.items() if b != base}
        fl = st.fams[base]
        s2.fams = {base: fl[:fl.index(fam)]}
        s2.copies = st.copies
        try:
            return self.load_at(s2, base, off, ty, size)
        except Unsupported:
            return UNDEF

    def fam_lookup(self, fam, base, off, size):
        """Does the store family write the cell at off?  Returns (value, cond) / 'no' / None."""
        h = self.hooks.get('fam')
        m = {}
        if len(fam.loops) >= 1:
            # match off against fam.off by solving for each loop variable (affine, distinct strides)
            d = off - fam.off
            # direct substitution attempt: unknown k_i -> candidate expressions
            sol = solve_index(fam, off)
            if sol is None:
                return None
            val = subst_dd(fam.val, sol)
            cond = subst_dd(fam.cond, sol)
            return (val, cond)
        if fam.off == off:
            return (fam.val, fam.cond)
        return None

    def may_ignore_alias(self, base, off, o):
        h = self.hooks.get('noalias')
        return bool(h and h(base, off, o))

    def touch(self, how, p, size, cond, loc):
        """Note an access to memory (for the lifetime and bounds rules)."""
        if self.hooks.get('mem'):
            self.events.append(('touch', how, p, size, cond, loc))

    def load(self, st, p, ty, size):
        v = self.split_vec(ty)
        if v:
            n, t = v
            sz = self.sizeof(t)
            return tuple(self.load(st, self.gep(p, num(i * sz)), t, sz) for i in range(n))

        def f(a):
            if a is UNDEF_V:
                return UNDEF
            if not isinstance(a, Ptr):
                raise Unsupported('load from non pointer %s' % (a,))
            if ty == 'i128' and st.cells.get(a.base):
                lo = self.load_at(st, a.base, a.off, 'double', 8)
                hi = self.load_at(st, a.base, a.off + rc(8), 'double', 8)
                return alg.add(self.tonum(lo), alg.mul(self.tonum(hi), num(2 ** 64)))
            return self.load_at(st, a.base, a.off, ty, size)
        # not memoised across states: bypass apply cache by tagging with state identity
        return map_leaves(f, p)

    def store(self, st, p, val, ty, size, cond, loc):
        v = self.split_vec(ty)
        if v:
            n, t = v
            sz = self.sizeof(t)
            if not isinstance(val, tuple):
                raise Unsupported('vector store')
            for i in range(n):
                self.store(st, self.gep(p, num(i * sz)), val[i], t, sz, cond, loc)
            return
        if isinstance(val, tuple):
            raise Unsupported('aggregate store')
        if ty == 'i128':
            hi = self.highpart(self.tonum(val), 64)
            if hi is not None:
                self.store(st, p, self.lowpart(self.tonum(val), 64), 'i64', 8, cond, loc)
                self.store(st, self.gep(p, num(8)), hi, 'i64', 8, cond, loc)
                return
        cats = [x for x in alg.leaves(val) if isinstance(x, Cat)]
        if cats and all(x.layout() == cats[0].layout() for x in cats) and len(cats[0].parts) > 0:
            for o, z in cats[0].layout():
                self.store(st, self.gep(p, num(o)), self.part_of(val, size, o, z), 'i%d' % (8 * z), z, cond, loc)
            return
        targets = alg.leaves(p)
        if len(targets) == 1 and isinstance(targets[0], Ptr):
            self.store_at(st, targets[0], val, TRUE, ty, size, cond, loc)
            return
        for t in targets:
            if t is UNDEF_V:
                continue
            sel = map_leaves(lambda x: TRUE if x == t else FALSE, p)
            self.store_at(st, t, val, sel, ty, size, cond, loc)

    def store_at(self, st, t, val, sel, ty, size, cond, loc):
        ch = self.choices(st, t.base, t.off)
        if ch:
            for c, o in ch:
                self.store_at(st, Ptr(t.base, o), val, band(sel, c), ty, size, cond, loc)
            return
        if sel is not TRUE:
            old = self.load_at(st, t.base, t.off, ty, size)
            val = ite(sel, val, old)
        cells = st.w(t.base)
        drop = []
        for o, c in cells.near(t.off, size):
            if o == t.off:
                if c[0] > size:
                    drop.append(o)
                continue
            d = t.off - o
            if d.is_const():
                if -size < d.const() < c[0]:
                    drop.append(o)
            elif not self.may_ignore_alias(t.base, t.off, o):
                # unknown aliasing between two symbolic stores: keep both, loads will complain
                pass
        for o in drop:
            c = cells.pop(o)
            self.remainder(cells, o, c, t.off, size)
        cells[t.off] = (size, val, loc)

    def remainder(self, cells, o, c, off, size):
        """The bytes of cell c at o that a store of `size` bytes at off leaves in place."""
        d = int((off - o).const())
        for lo, hi in ((0, d), (d + size, c[0])):
            k = lo
            while k < hi:
                z = next(z for z in (8, 4, 2, 1) if k % z == 0 and k + z <= hi)
                ls = alg.leaves(c[1])
                if all(isinstance(x, Rat) and x.is_const() and x.const().denominator == 1 for x in ls):
                    sh, b = 8 * k, 8 * z
                    v = apply(lambda x: rc(_wrap(int(x.const()) >> sh, b)), ('part', sh, b), c[1])
                else:
                    try:
                        v = self.part_of(c[1], c[0], k, z)
                    except Unsupported:
                        v = None
                cells[o + rc(k)] = (z, UNDEF if v is None else v, c[2])
                k += z

    def memcpy(self, st, d, s, ln, cond, loc):
        d, s = self.settle(st, d), self.settle(st, s)
        dl, sl = alg.leaves(d), alg.leaves(s)
        n = alg.leaves(ln)
        if len(dl) != 1 or len(sl) != 1 or len(n) != 1:
            self.memcpy_gated(st, d, s, ln, cond, loc)
            return
        dp, sp = dl[0], sl[0]
        n = n[0]
        snap = st.copy()
        cells = st.w(dp.base)
        if n.is_const():
            L = n.const()
            for o in list(cells):
                dd = o - dp.off
                if dd.is_const():
                    if 0 <= dd.const() < L:
                        del cells[o]
            # eagerly copy known cells
            known = 0
            src = snap.cells.get(sp.base) or Cells()
            if not src and L <= 256 and sp.off.is_const() and isinstance(sp.base, str) and 'str' in self.mod.globals.get(sp.base[1:], ()):
                src = Cells({sp.off + rc(k): (1, self.load_global(sp.base[1:], sp.off + rc(k), 'i8'), loc) for k in range(int(L))})
            for o, c in src.items():
                dd = o - sp.off
                if dd.is_const() and 0 <= dd.const() and dd.const() + c[0] <= L:
                    cells[dp.off + dd] = c
                    known += c[0]
            whole = known == L and not src.nsym and dp.off.is_const()
        else:
            for o in list(cells):
                del cells[o]
        own = isinstance(sp.base, tuple) and sp.base[0] in ('alloca', 'heap')
        if n.is_const() and whole:
            pass
        elif not (own and n.is_const() and not snap.copies.get(sp.base) and not st.copies.get(dp.base) and not snap.fams.get(sp.base)):
            st.add_copy(dp.base, (dp.off, n, sp.base, sp.off, snap, TRUE))
        self.events.append(('memcpy', dp, sp, n, cond, loc))

    def memcpy_gated(self, st, d, s, ln, cond, loc):
        """Copy between merged pointers or of a merged length: cell by cell, each under its own condition."""
        snap = st.copy()
        for dp in alg.leaves(d):
            for sp in alg.leaves(s):
                for n in alg.leaves(ln):
                    if UNDEF_V in (dp, sp, n):
                        continue
                    sel = band(cond, band(map_leaves(lambda x: TRUE if x == dp else FALSE, d),
                                          band(map_leaves(lambda x: TRUE if x == sp else FALSE, s),
                                               map_leaves(lambda x: TRUE if x == n else FALSE, ln))))
                    if sel is FALSE or n == R0:
                        continue
                    if not n.is_const() or snap.fams.get(sp.base):
                        raise Unsupported('memcpy between merged pointers')
                    src = snap.cells.get(sp.base) or Cells()
                    if snap.copies.get(sp.base):
                        src = dict(src)
                        g = min([c[0] for c in src.values()] or [8])
                        have = [(o - sp.off).const() for o in src if (o - sp.off).is_const()]
                        for k in range(0, int(n.const()), g):
                            if k not in have:
                                o = sp.off + rc(k)
                                src[o] = (g, self.load_at(snap, sp.base, o, {8: 'double', 4: 'i32', 1: 'i8', 2: 'i16'}[g], g), loc)
                    for o, c in src.items():
                        dd = o - sp.off
                        if not dd.is_const():
                            raise Unsupported('memcpy between merged pointers')
                        if 0 <= dd.const() and dd.const() + c[0] <= n.const():
                            self.store_at(st, Ptr(dp.base, dp.off + dd), c[1], sel, self.cell_type(c[1], c[0]), c[0], cond, loc)

    # ------------------------------------------------------------ main
    def run(self):
        entry = self.order[0]
        st = State()
        h = self.hooks.get('setup')
        if h:
            h(self, st)
        out = self.region(set(self.blocks), entry, {entry: [(None, TRUE, st)]}, None)
        return out

    def toplevel(self, block, inside):
        """The outermost loop header (within the region) that contains block, or None."""
        h = self.blocks[block].get('loop')
        res = None
        while h is not None:
            if h == inside:
                break
            res = h
            h = self.loops[h].get('parent')
        return res

    def region(self, blocks, entry, incoming, loop):
        """Evaluate an acyclic region (inner loops collapsed).  `incoming[b]` is a list of
        (pred, edge condition, state).  Returns exits: {block outside: [(pred, cond, state)]}."""
        # topological order of region with loops collapsed
        order = self.topo(blocks, entry, loop)
        exits = {}
        for b in order:
            inc = incoming.get(b)
            if not inc:
                continue
            cond = FALSE
            for _, c, _ in inc:
                cond = bor(cond, c)
            if cond is FALSE:
                continue
            inner = self.toplevel(b, loop)
            if inner is not None and inner == b:
                outs = self.summarize(b, inc, cond)
                for (src, dst, c, st) in outs:
                    if dst in blocks and not (loop is not None and dst == loop):
                        incoming.setdefault(dst, []).append((src, c, st))
                    else:
                        exits.setdefault(dst, []).append((src, c, st))
                continue
            st = self.merge(inc, cond)
            if not (loop == b):
                self.phis(b, inc, cond)
            succs = self.block(b, st, cond)
            for dst, c in succs:
                if c is FALSE:
                    continue
                if dst in blocks and not (loop is not None and dst == loop):
                    incoming.setdefault(dst, []).append((b, c, st.copy()))
                else:
                    exits.setdefault(dst, []).append((b, c, st.copy()))
        return exits

    def topo(self, blocks, entry, loop):
        seen = {}
        post = []

        def succs(b):
            inner = self.toplevel(b, loop)
            if inner is not None:
                L = self.loops[inner]['set']
                out = []
                for x in self.order:
                    if x in L:
                        for s in self.blocks[x]['succ']:
                            if s not in L:
                                out.append(s)
                return out
            return self.blocks[b]['succ']

        stack = [(entry, None)]
        seen[entry] = 1
        itst = [(entry, iter(succs(entry)))]
        while itst:
            b, it = itst[-1]
            for s in it:
                if s not in blocks or (loop is not None and s == loop):
                    continue
                if s not in seen:
                    seen[s] = 1
                    itst.append((s, iter(succs(s))))
                    break
            else:
                post.append(b)
                itst.pop()
        return post[::-1]

    def merge(self, inc, cond):
        if len(inc) == 1:
            return inc[0][2].copy()
        st = State()
        inc = [x for x in inc if x[1] is not FALSE] or inc
        bases = {}
        for _, _, s in inc:
            for b in s.cells:
                bases[b] = 1
        for b in bases:
            c0 = inc[0][2].cells.get(b)
            if all(s.cells.get(b) is c0 for _, _, s in inc):
                st.cells[b] = c0
                continue
            offs = {}
            for _, _, s in inc:
                for o, c in s.cells.get(b, {}).items():
                    if o not in offs or c[0] < offs[o][0]:
                        offs[o] = c
            d = Cells()
            for o, c0 in offs.items():
                size = c0[0]
                val = BOT
                loc = c0[2]
                vals = []
                for _, c, s in inc:
                    cc = s.cells.get(b, {}).get(o)
                    if cc is not None and cc[0] == size:
                        vals.append((c, cc[1]))
                        loc = cc[2]
                    else:
                        ty = self.cell_type(c0[1], size)
                        try:
                            vals.append((c, self.load_at(s, b, o, ty, size)))
                        except Unsupported:
                            vals.append((c, UNDEF))
                if all(v is vals[0][1] for _, v in vals):
                    val = vals[0][1]
                else:
                    for c, v in vals:
                        val = ite(c, v, val)
                d[o] = (size, val, loc)
            # a wide cell of one state next to the narrow cells of another: the rest of the wide one
            for _, _, s in inc:
                for o, c in list(s.cells.get(b, {}).items()):
                    if c[0] > d[o][0]:
                        for k in range(d[o][0], c[0], d[o][0]):
                            o2 = o + rc(k)
                            if o2 not in d and not any((o2 - x).is_const() and 0 < (o2 - x).const() < y[0] for x, y in d.near(o2, 1)):
                                z = d[o][0]
                                ty = self.cell_type(c[1], z)
                                vals = []
                                for _, cc, s2 in inc:
                                    try:
                                        vals.append((cc, self.load_at(s2, b, o2, ty, z)))
                                    except Unsupported:
                                        vals.append((cc, UNDEF))
                                val = BOT
                                for cc, v in vals:
                                    val = ite(cc, v, val)
                                d[o2] = (z, val, c[2])
            st.cells[b] = d
            st.owned.add(b)
        # block copies: those not made on every way in keep the condition under which they were made
        allb = set()
        for _, _, s in inc:
            allb |= set(s.copies)
        for b in allb:
            l0 = inc[0][2].copies.get(b, ())
            if all(s.copies.get(b, ()) is l0 for _, _, s in inc):
                st.copies[b] = l0
                continue
            lst = []
            for _, c, s in inc:
                for x in s.copies.get(b, ()):
                    y = next((y for y in lst if y[0][:5] == x[:5] and y[0][4] is x[4]), None)
                    if y is None:
                        lst.append([x, band(c, x[5])])
                    else:
                        y[1] = bor(y[1], band(c, x[5]))
            st.copies[b] = tuple(x[:5] + (TRUE if self.covers(inc, g, x, b) else g,) for x, g in lst)
        allb = set()
        for _, _, s in inc:
            allb |= set(s.fams)
        for b in allb:
            lst = []
            for _, _, s in inc:
                for x in s.fams.get(b, ()):
                    if not any(x is y for y in lst):
                        lst.append(x)
            st.fams[b] = lst
        return st

    @staticmethod
    def covers(inc, g, x, b):
        """Was the block copy made on every way in, unconditionally?"""
        return all(any(y[:5] == x[:5] and y[4] is x[4] and y[5] is TRUE for y in s.copies.get(b, ())) for _, _, s in inc)

    def cell_type(self, v, size):
        k = (v.id, size)
        t = self.cell_types.get(k)
        if t is None:
            t = self.cell_types[k] = self.cell_type_of(v, size)
        return t

    def cell_type_of(self, v, size):
        for x in alg.leaves(v):
            if isinstance(x, Ptr):
                return 'ptr'
            if isinstance(x, Rat):
                if alg.is_integral(x) and not x.is_const():
                    return 'i%d' % (8 * size)
        return {8: 'double', 4: 'i32', 1: 'i8', 2: 'i16'}.get(size, 'i%d' % (8 * size))

    def phis(self, b, inc, cond):
        news = []
        for ins in self.blocks[b]['ins']:
            if ins['op'] != 'phi':
                break
            vals = {}
            for o, pb in ins['in']:
                vals.setdefault(pb, o)
            val = None
            pairs = []
            for pb, c, _ in inc:
                if isinstance(pb, tuple):
                    pairs.append((c, self.edge_vals[pb][ins['id']]))
                    continue
                if pb not in vals:
                    raise Unsupported('phi without incoming value')
                pairs.append((c, self.op(vals[pb])))
            news.append((ins['id'], self.gate(pairs)))
        for i, v in news:
            self.env[i] = v

    def gate(self, pairs):
        if isinstance(pairs[0][1], tuple):
            n = len(pairs[0][1])
            return tuple(self.gate([(c, v[i] if isinstance(v, tuple) else UNDEF) for c, v in pairs]) for i in range(n))
        v0 = pairs[0][1]
        if all(v is v0 for _, v in pairs):
            return v0
        val = BOT
        for c, v in pairs:
            val = ite(c, v, val)
        return val

    def block(self, b, st, cond):
        blk = self.blocks[b]
        for ins in blk['ins']:
            op = ins['op']
            if op == 'phi':
                continue
            self.ninstr += 1
            loc = ins.get('loc')
            if op == 'br':
                ops = ins['ops']
                if len(ops) == 1:
                    return [(ops[0]['v'], cond)]
                c = self.op(ops[0])
                # llvm operand order: cond, false, true
                f, t = ops[1]['v'], ops[2]['v']
                c = self.tobool(c)
                tc, fc = band(cond, c), band(cond, bnot(c))
                if t == f:
                    return [(t, cond)]
                return [(t, tc), (f, fc)]
            if op == 'switch':
                c = self.op(ins['c'])
                out = {}
                rest = cond
                for v, dst in ins['cases']:
                    if isinstance(c, alg.DD) and all(isinstance(x, bool) for x in alg.leaves(c)):
                        e = c if int(v) else bnot(c)
                    else:
                        e = alg.cmp('eq', self.tonum(c), num(int(v)))
                    e2 = band(rest, e)
                    out[dst] = bor(out.get(dst, FALSE), e2)
                    rest = band(rest, bnot(e))
                d = ins['def']
                out[d] = bor(out.get(d, FALSE), rest)
                return list(out.items())
            if op == 'ret':
                v = self.op(ins['ops'][0]) if ins['ops'] else None
                self.returns.append((cond, v, st))
                return []
            if op == 'unreachable':
                return []
            if op == 'invoke':
                v = self.call(ins, st, cond)
                self.env[ins['id']] = v
                cond, self.left = cond if self.left is None else self.left, None
                return [(ins['normal'], cond)] if cond is not FALSE else []
            if op == 'resume':
                return []
            if op == 'call' and ins.get('noreturn'):
                self.events.append(('noreturn', ins.get('dem') or '?', cond, loc))
                return []
            try:
                v = self.instr(ins, st, cond)
            except Unsupported as e:
                if not getattr(e, 'located', None):
                    e.located = loc
                    e.args = ('%s [in %s, at %s]' % (e.args[0], self.fn['name'], (loc or ['?'])[0]),)
                raise
            self.env[ins['id']] = v
            if self.left is not None:
                # the callee returns only in part of the region
                cond, self.left = self.left, None
                if cond is FALSE:
                    return []
        raise Unsupported('block without terminator')

    def tobool(self, v):
        if v is UNDEF:
            raise Unsupported('branch on undef')
        return map_leaves(lambda x: leaf(x) if isinstance(x, bool) else (FALSE if x is UNDEF_V else alg.cmp_rats('ne', x, R0)), v)

    def tonum(self, v):
        return apply(lambda x: rc(int(x)) if isinstance(x, bool) else x, 'tonum', v)

    # ------------------------------------------------------------ instructions
    def instr(self, ins, st, cond):
        op = ins['op']
        ty = ins['ty']
        if op == 'call':
            return self.call(ins, st, cond)
        if op == 'alloca':
            base = ('alloca', self.fn['name'], ins['id']) + tuple(self.iterpath)
            if self.hooks.get('mem'):
                self.events.append(('local', base, num(ins['size']), cond, ins.get('loc')))
            return leaf(Ptr(base, R0))
        if op == 'getelementptr':
            if ins.get('bad'):
                raise Unsupported('gep')
            p = self.op(ins['b'])
            off = num(ins['o'])
            for o, sc in ins['var']:
                off = alg.add(off, alg.mul(self.tonum(self.op(o)), num(sc)))
            return self.gep(p, off)
        if op == 'load':
            self.touch('read', self.op(ins['ops'][0]), num(ins['sz']), cond, ins.get('loc'))
            if ty in ODD_INTS:
                p = self.op(ins['ops'][0])
                parts = [(k, 1, self.load(st, self.gep(p, num(k)), 'i8', 1)) for k in range(ins['sz'])]
                return leaf(Cat([q for q in parts if q[2] is not UNDEF], ins['sz']))
            v = self.load(st, self.op(ins['ops'][0]), ty, ins['sz'])
            if ty == 'i1':
                v = self.tobool(v)
            return v
        if op == 'store':
            val = self.op(ins['ops'][0])
            if ins['vty'] == 'i1':
                val = self.tonum(val)
            self.touch('written', self.op(ins['ops'][1]), num(ins['sz']), cond, ins.get('loc'))
            self.store(st, self.op(ins['ops'][1]), val, ins['vty'], ins['sz'], cond, ins.get('loc'))
            return None
        if op in ('fcmp', 'icmp'):
            a, b = self.op(ins['ops'][0]), self.op(ins['ops'][1])
            if isinstance(a, tuple):
                return tuple(self.compare(op, ins['pred'], x, y) for x, y in zip(a, b))
            return self.compare(op, ins['pred'], a, b)
        if op == 'select':
            c, a, b = [self.op(x) for x in ins['ops']]
            if isinstance(c, tuple):
                return tuple(ite(self.tobool(cc), x, y) for cc, x, y in zip(c, a, b))
            c = self.tobool(c)
            if isinstance(a, tuple):
                return tuple(ite(c, x, y) for x, y in zip(a, b))
            return ite(c, a, b)
        if op == 'extractelement':
            v, i = self.op(ins['ops'][0]), self.op(ins['ops'][1])
            if i.is_leaf() and isinstance(i.leaf, Rat) and i.leaf.is_const():
                return v[int(i.leaf.const())]
            r = UNDEF
            for k, x in enumerate(v):
                r = ite(alg.cmp('eq', i, num(k)), x, r)
            return r
        if op == 'insertelement':
            v, x, i = [self.op(o) for o in ins['ops']]
            v = list(v)
            if i.is_leaf() and isinstance(i.leaf, Rat) and i.leaf.is_const():
                v[int(i.leaf.const())] = x
            else:
                v = [ite(alg.cmp('eq', i, num(k)), x, old) for k, old in enumerate(v)]
            return tuple(v)
        if op == 'shufflevector':
            a, b = self.op(ins['ops'][0]), self.op(ins['ops'][1])
            al = list(a) + list(b if isinstance(b, tuple) else [UNDEF] * len(a))
            return tuple(UNDEF if m < 0 else al[m] for m in ins['mask'])
        if op == 'extractvalue':
            v = self.op(ins['ops'][0])
            for i in ins['idx']:
                v = v[i]
            return v
        if op == 'insertvalue':
            v, x = self.op(ins['ops'][0]), self.op(ins['ops'][1])
            if len(ins['idx']) != 1:
                raise Unsupported('nested insertvalue')
            i = ins['idx'][0]
            v = list(v) if isinstance(v, tuple) else [UNDEF] * (i + 1)
            while len(v) <= i:
                v.append(UNDEF)
            v[i] = x
            return tuple(v)
        if op == 'freeze':
            return self.op(ins['ops'][0])
        ops = [self.op(o) for o in ins['ops']]
        if op == 'bitcast' and ty.startswith('<1 x') and not isinstance(ops[0], tuple):
            return (ops[0],)
        if op == 'bitcast' and not ty.startswith('<') and isinstance(ops[0], tuple) and len(ops[0]) == 1:
            return ops[0][0]
        if op == 'bitcast' and ty.startswith('<') and not isinstance(ops[0], tuple):
            n, t = self.split_vec(ty)
            sz = self.sizeof(t)
            out = []
            for k in range(n):
                v = self.part_of(ops[0], n * sz, k * sz, sz)
                if v is None:
                    v = self.lowpart(ops[0], 8 * sz) if k == 0 else self.highpart(ops[0], 8 * sz) if k == 1 else None
                if v is None:
                    raise Unsupported('bitcast to vector')
                out.append(v)
            return tuple(out)
        if op == 'bitcast' and not ty.startswith('<') and isinstance(ops[0], tuple):
            v = list(ops[0])
            unit = self.sizeof(ty) // len(v)
            if all(constval(x) == 0 for x in v):
                return num(0)
            return leaf(Cat.even(v, unit))
        if isinstance(ops[0], tuple):
            n = len(ops[0])
            return tuple(self.scalar(op, ins, [o[i] for o in ops], ty) for i in range(n))
        return self.scalar(op, ins, ops, ty)

    def scalar(self, op, ins, ops, ty):
        bits = None
        t = ty
        if t.startswith('<'):
            t = t[1:-1].split(' x ')[1]
        if op in ('fadd', 'add'):
            if t == 'i1':
                return bxor(self.tobool(ops[0]), self.tobool(ops[1]))
            return self.padd(self.tonum(ops[0]), self.tonum(ops[1]))
        if op in ('fsub', 'sub'):
            return self.psub(self.tonum(ops[0]), self.tonum(ops[1]))
        if op in ('fmul', 'mul'):
            return alg.mul(*[map_leaves(plain, self.tonum(o)) if any(isinstance(x, Cat) for x in alg.leaves(o)) else self.tonum(o) for o in ops])
        if op == 'fdiv':
            if self.hooks.get('inf') and constval(ops[1]) == 0:
                inf = alg.sym('inf')
                return map_leaves(lambda x: UNDEF if not isinstance(x, Rat) or x.num.is_zero() else
                                  ite(alg.cmp_rats('gt', x, R0), leaf(inf), leaf(-inf)), ops[0])
            return alg.div(ops[0], ops[1])
        if op == 'fneg':
            return alg.neg(ops[0])
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            v = ops[0]
            if t == 'i1' and op == 'trunc':
                return self.tobool(self.bitand(v, num(1)))
            if op == 'trunc' and t in ('i8', 'i16', 'i32') and any(isinstance(x, Cat) for x in alg.leaves(v)):
                return self.part_of(v, None, 0, int(t[1:]) // 8)
            if op == 'trunc' and t in ('i64', 'i32'):
                return self.lowpart(self.tonum(v), int(t[1:]))
            if op == 'zext' and ins.get('sty') in ODD_INTS and all(isinstance(x, Cat) for x in alg.leaves(v)):
                w, n = int(t[1:]) // 8, int(ins['sty'][1:]) // 8
                return map_leaves(lambda x: leaf(Cat(x.parts + tuple((k, 1, num(0)) for k in range(n, w)), w)), v)
            if op == 'zext' and ins.get('sty', '').startswith('i'):
                b = int(ins['sty'][1:])
                return apply(lambda x: rc(int(x)) if isinstance(x, bool) else
                             rc(int(x.const()) % 2**b) if isinstance(x, Rat) and x.is_const() and x.const() < 0 else x, ('zext', b), v)
            if op == 'sext':
                return apply(lambda x: rc(-int(x)) if isinstance(x, bool) else x, 'sextb', v)
            return self.tonum(v)
        if op in ('fptosi', 'fptoui'):
            return alg.call('trunc', ops[0])
        if op in ('and', 'or', 'xor'):
            if t == 'i1':
                a, b = self.tobool(ops[0]), self.tobool(ops[1])
                return band(a, b) if op == 'and' else bor(a, b) if op == 'or' else bxor(a, b)
            if op == 'and':
                return self.bitand(ops[0], ops[1])
            return self.bitop(op, ops[0], ops[1])
        if op == 'shl':
            c = constval(ops[1])
            if c is not None:
                bits = int(t[1:])
                return apply(lambda x: rc(_wrap(int(x.const()), bits)) if isinstance(x, Rat) and x.is_const() else x, ('wrap', bits),
                             alg.mul(map_leaves(plain, ops[0]), num(2 ** int(c))))
            return alg.call('shl', self.tonum(ops[0]), self.tonum(ops[1]))
        if op in ('ashr', 'lshr', 'sdiv', 'udiv'):
            d = ops[1]
            if op in ('ashr', 'lshr'):
                c = constval(d)
                if c is None:
                    return alg.call(op, self.tonum(ops[0]), self.tonum(ops[1]))
                if op == 'lshr' and int(c) % 8 == 0 and alg.leaves(ops[0]) and all(isinstance(x, Cat) for x in alg.leaves(ops[0])):
                    k = int(c) // 8
                    return map_leaves(lambda x: self.shifted(x, k), ops[0])
                if op == 'lshr' and (int(c) == 64 or (int(c) == 32 and t == 'i64')):
                    v = self.highpart(self.tonum(ops[0]), int(c))
                    if v is not None:
                        return v
                d = num(2 ** int(c))
            return self.idiv(ops[0], d)
        if op in ('srem', 'urem'):
            q = self.idiv(ops[0], ops[1])
            return alg.sub(ops[0], alg.mul(q, ops[1]))
        raise Unsupported('instruction %s' % op)

    def padd(self, a, b):
        def f(x, y):
            if x is UNDEF_V or y is UNDEF_V:
                return UNDEF_V
            if isinstance(x, Ptr):
                return Ptr(x.base, x.off + y)
            if isinstance(y, Ptr):
                return Ptr(y.base, y.off + x)
            return plain(x) + plain(y)
        return apply(f, 'padd', a, b)

    def psub(self, a, b):
        def f(x, y):
            if x is UNDEF_V or y is UNDEF_V:
                return UNDEF_V
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base:
                    return x.off - y.off
                return ptr_num(x) - ptr_num(y)
            if isinstance(x, Ptr):
                return Ptr(x.base, x.off - y)
            if isinstance(y, Ptr):
                return plain(x) - ptr_num(y)
            return plain(x) - plain(y)
        return apply(f, 'psub', a, b)

    def idiv(self, a, b):
        def f(x, y):
            if x is UNDEF_V or y is UNDEF_V:
                return UNDEF_V
            if isinstance(x, Ptr):
                x = ptr_num(x)
            x, y = plain(x), plain(y)
            if x.is_const() and y.is_const():
                if y.const() == 0:
                    return UNDEF_V
                q = abs(int(x.const())) // abs(int(y.const()))
                return rc(q if (x.const() >= 0) == (y.const() > 0) else -q)
            q = x / y
            if q.is_poly() and alg.is_integral(q):
                return q
            return alg.fn('idiv', x, y)
        return apply(f, 'idiv', a, b)

    def shifted(self, x, k):
        """A word put together from cells, moved k bytes down."""
        parts = [(o - k, z, v) for o, z, v in x.parts if o >= k]
        if any(o < k < o + z for o, z, v in x.parts):
            raise Unsupported('shift of %s' % x)
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == x.size - k:
            return parts[0][2]
        return leaf(Cat(parts + [(j, 1, num(0)) for j in range(x.size - k, x.size)], x.size))

    def lowpart(self, v, bits):
        """Low half of a value packed as low + 2^bits * high."""
        m = 2 ** bits

        def f(x):
            if isinstance(x, Cat):
                q = x.part(0, bits // 8)
                if q is not None:
                    return q
            if not isinstance(x, Rat) or not x.is_poly() or any(Fraction(c).denominator != 1 for c in x.num.t.values()):
                return x
            if x.is_const():
                return rc(_wrap(int(x.const()), bits))
            t = {k: _wrap(int(c), bits) for k, c in x.num.t.items()}
            return Rat(alg.Poly({k: c for k, c in t.items() if c}))

        def g(x):
            r = f(x)
            return r if isinstance(r, alg.DD) else leaf(r)
        return map_leaves(g, v)

    def highpart(self, v, bits):
        """High half of a packed value: of low + 2^bits * high, or of memory loaded as one wide integer."""
        m = 2 ** bits
        bad = []

        def f(x):
            if x is UNDEF_V:
                return x
            if isinstance(x, Cat):
                q = x.part(bits // 8, bits // 8)
                if q is not None:
                    return q
            if not isinstance(x, Rat) or not x.is_poly():
                bad.append(x)
                return x
            if x.is_const():
                return rc(int(x.const()) >> bits)
            hi, lo = {}, []
            for k, c in x.num.t.items():
                if Fraction(c).denominator != 1:
                    lo.append((k, c))
                    continue
                l = _wrap(int(c), bits)
                if l:
                    lo.append((k, l))
                if (int(c) - l) // m:
                    hi[k] = (int(c) - l) // m
            if hi:
                return Rat(alg.Poly({k: alg._norm(c) for k, c in hi.items()}))
            if len(lo) == 1 and lo[0][1] == 1 and len(lo[0][0]) == 1 and lo[0][0][0][1] == 1:
                a = alg.ATOMS[lo[0][0][0][0]]
                if a[0] == 'in':
                    return ra(alg.atom('in', a[1], a[2] + (rc(bits // 8) if isinstance(a[2], Rat) else bits // 8)))
            if bits == 32 and alg.is_integral(x):
                return R0       # a 32-bit quantity that was widened
            bad.append(x)
            return x

        def g(x):
            r = f(x)
            return r if isinstance(r, alg.DD) else leaf(r)
        r = map_leaves(g, v)
        return None if bad else r

    def bitand(self, a, b):
        def f(x, y):
            if x is UNDEF_V or y is UNDEF_V:
                return UNDEF_V
            if isinstance(x, bool):
                x = rc(int(x))
            if isinstance(y, bool):
                y = rc(int(y))
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                raise Unsupported('and on pointer')
            if x.is_const() and y.is_const():
                return rc(int(x.const()) & int(y.const()))
            if y.is_const() and y.const() == 0:
                return R0
            if y.is_const() and y.const() == -1:
                return x
            if y.is_const() and y.const() > 0 and (int(y.const()) & (int(y.const()) + 1)) == 0:
                m = int(y.const()) + 1
                if m > 2 ** 16:
                    return x      # width mask
                return x - rc(m) * alg.fn('idiv', x, rc(m))
            if y.is_const() and y.const() < 0:
                m = -int(y.const())
                if m & (m - 1) == 0:
                    return alg.fn('idiv', x, rc(m)) * rc(m)
            return alg.fn('and', x, y)
        return apply(f, 'bitand', a, b)

    def bitop(self, op, a, b):
        def f(x, y):
            if x is UNDEF_V or y is UNDEF_V:
                return UNDEF_V
            if isinstance(x, bool):
                x = rc(int(x))
            if isinstance(y, bool):
                y = rc(int(y))
            if x.is_const() and y.is_const():
                p, q = int(x.const()), int(y.const())
                return rc(p | q if op == 'or' else p ^ q)
            if op == 'xor' and y.is_const() and y.const() == -1:
                return -x - R1
            if op == 'or' and x.is_const():
                x, y = y, x
            if op == 'or' and not y.is_const():
                for p, q in ((x, y), (y, x)):
                    if p.is_poly() and p.num.t and all(Fraction(c).denominator == 1 and int(c) % 2**32 == 0 for c in p.num.t.values()):
                        return x + y      # packing of two disjoint halves
            if op in ('or', 'xor') and y.is_const() and y.const() == 0:
                return x
            if op == 'or' and y.is_const() and x.is_poly():
                # packing of two 32-bit halves: low + 2^32 high, halves signed
                if int(y.const()) % 2**32 == 0:
                    return x + y
                if 0 <= y.const() < 2**32 and all(Fraction(c).denominator == 1 and int(c) % 2**32 == 0 for c in x.num.t.values()):
                    return x + rc(_wrap(int(y.const()), 32))
            if op == 'or' and y.is_const() and y.const() > 0:
                # disjoint or (x even multiple): x + y when x is a multiple of a bigger power of two
                b2 = int(y.const()).bit_length()
                q = x / rc(2 ** b2)
                if q.is_poly() and alg.is_integral(q):
                    return x + y
            return alg.fn(op, x, y)
        return apply(f, ('bitop', op), a, b)

    def compare(self, op, pred, a, b):
        if op == 'fcmp':
            if pred in ('ord',):
                return TRUE
            if pred in ('uno', 'false'):
                return FALSE
            if pred == 'true':
                return TRUE
            p = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}.get(pred, pred[1:])
            return self.cmpv(p, a, b)
        p = {'eq': 'eq', 'ne': 'ne'}.get(pred)
        if p is None:
            if pred[0] == 'u':
                return self.ucmp(pred[1:], a, b)
            p = pred[1:]
        return self.cmpv(p, a, b)

    def ucmp(self, p, a, b):
        a, b = self.tonum(a), self.tonum(b)
        r = self.cmpv(p, a, b)
        # unsigned order of two's complement values: negative ones come last
        na = FALSE if self.nonneg(a) else self.cmpv('lt', a, num(0))
        nb = FALSE if self.nonneg(b) else self.cmpv('lt', b, num(0))
        if na is FALSE and nb is FALSE:
            return r
        less = p in ('lt', 'le')
        return ite(na, ite(nb, r, FALSE if less else TRUE), ite(nb, TRUE if less else FALSE, r))

    def nonneg(self, a):
        for x in alg.leaves(a):
            if isinstance(x, Ptr):
                continue
            if isinstance(x, Rat):
                if x.is_const() and x.const() >= 0:
                    continue
                if x.den.is_const() and all(c > 0 and all(t in alg.NONNEG or t in alg.POSITIVE or e % 2 == 0 for t, e in m)
                                            for m, c in x.num.t.items()):
                    continue
            return False
        return True

    def cmpv(self, p, a, b):
        def f(x, y):
            if isinstance(x, bool):
                x = rc(int(x))
            if isinstance(y, bool):
                y = rc(int(y))
            if x is UNDEF_V or y is UNDEF_V:
                return FALSE
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.base == y.base:
                        return alg.cmp_rats(p, x.off, y.off)
                    own = lambda q: isinstance(q.base, tuple) and q.base[0] in ('alloca', 'heap') or (isinstance(q.base, str) and q.base != 'null')
                    if p in ('eq', 'ne') and (own(x) or own(y)):
                        h = self.hooks.get('ptrcmp')
                        if h:
                            r = h(x, y)
                            if r is not None:
                                return r if p == 'eq' else bnot(r)
                        if x.base == 'null' or y.base == 'null' or (own(x) and own(y)):
                            return FALSE if p == 'eq' else TRUE
                    if own(x) and own(y):
                        # distinct objects lie apart, in an order no code may depend on
                        r = rank(x.base) < rank(y.base)
                        return TRUE if r == (p in ('lt', 'le')) else FALSE
                    x, y = ptr_num(x), ptr_num(y)
                elif isinstance(x, Ptr):
                    x = ptr_num(x)
                else:
                    y = ptr_num(y)
            return alg.cmp_rats(p, plain(x), plain(y))
        return apply(f, ('cmpv', p), a, b)

    # ------------------------------------------------------------ calls
    def call(self, ins, st, cond):
        f = ins.get('fn')
        if f is None:
            raise Unsupported('indirect call')
        if f.startswith(IGNORE_CALLS):
            return UNDEF
        if f.startswith('llvm.is.constant'):
            return FALSE
        ops = [self.op(o) if o['k'] != 'm' else None for o in ins['ops']]
        h = self.hooks.get('call')
        if h:
            r = h(self, ins, ops, st, cond)
            if r is not None:
                return r
        if f in self.mod.functions and f not in self.mod.opaque:
            return self.descend(f, ins, ops, st, cond)
        n = libm_name(f)
        if f.startswith('llvm.memcpy') or f.startswith('llvm.memmove') or f in ('memcpy', 'memmove'):
            self.touch('written', ops[0], ops[2], cond, ins.get('loc'))
            self.touch('read', ops[1], ops[2], cond, ins.get('loc'))
            self.memcpy(st, ops[0], ops[1], ops[2], cond, ins.get('loc'))
            return ops[0]
        if f.startswith('llvm.memset') or f == 'memset':
            self.touch('written', ops[0], ops[2], cond, ins.get('loc'))
            self.memset(st, ops[0], ops[1], ops[2], cond, ins.get('loc'))
            return ops[0]
        if f in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'aligned_alloc'):
            self.nheap += 1
            base = ('heap', self.fn['name'], ins['id']) + tuple(self.iterpath)
            self.events.append(('new', base, ops[-1] if f == 'aligned_alloc' else ops[0], cond, ins.get('loc')))
            return leaf(Ptr(base, R0))
        if f.startswith('_ZdlPv') or f.startswith('_ZdaPv') or f == 'free':
            self.events.append(('delete', ops[0], cond, ins.get('loc')))
            return UNDEF
        vec = any(isinstance(o, tuple) for o in ops)
        if vec and f.startswith('llvm.') and not f.startswith('llvm.vector'):
            w = max(len(o) for o in ops if isinstance(o, tuple))
            return tuple(self.intrin(n, [o[i] if isinstance(o, tuple) else o for o in ops], ins) for i in range(w))
        return self.intrin(n, ops, ins)

    def descend(self, f, ins, ops, st, cond):
        """A call the inliner left (recursion): value-number the callee on the caller's values."""
        if self.depth > 24:
            raise Unsupported('call depth at %s' % (ins.get('dem') or f))
        sub = type(self)(self.mod, self.mod.functions[f], hooks=self.hooks, unroll_limit=self.loop_limit)
        sub.depth = self.depth + 1
        sub.events = self.events
        sub.iterpath = list(self.iterpath) + [('call', ins['id'])]
        for a, v in zip(sub.fn['args'], ops):
            sub.env[a['id']] = v
        entry = sub.order[0]
        sub.region(set(sub.blocks), entry, {entry: [(None, cond, st.copy())]}, None)
        self.left = FALSE
        for c, _, _ in sub.returns:
            self.left = bor(self.left, c)
        if not sub.returns:
            return UNDEF
        m = sub.merge([(None, c, s) for c, _, s in sub.returns], cond)
        st.cells, st.copies, st.fams = m.cells, m.copies, m.fams
        vals = [(c, v) for c, v, _ in sub.returns]
        if vals[0][1] is None:
            return UNDEF
        return self.gate(vals)

    def intrin(self, n, ops, ins):
        if n == 'fabs' or n == 'fabsf':
            return alg.absd(ops[0])
        if n in ('fmuladd', 'fma', 'fmaf'):
            return alg.add(alg.mul(ops[0], ops[1]), ops[2])
        if n in ('minnum', 'fmin', 'minimum', 'smin', 'umin', 'fminf'):
            return ite(alg.cmp('lt', ops[0], ops[1]), ops[0], ops[1])
        if n in ('maxnum', 'fmax', 'maximum', 'smax', 'umax', 'fmaxf'):
            return ite(alg.cmp('gt', ops[0], ops[1]), ops[0], ops[1])
        if n == 'abs' and ins['fn'].startswith('llvm'):
            return alg.absd(ops[0])
        if n == 'copysign' or n == 'copysignf':
            a = alg.absd(ops[0])
            return ite(alg.cmp('ge', ops[1], num(0)), a, alg.neg(a))
        if n == 'expect':
            return ops[0]
        if n in ('ctlz', 'cttz', 'ctpop'):
            w = int(ins['ty'][1:])

            def bits(x):
                if not isinstance(x, Rat) or not x.is_const():
                    raise Unsupported('%s of a value that is not constant' % n)
                v = int(x.const()) % 2**w
                return rc(w - v.bit_length() if n == 'ctlz' else bin(v).count('1') if n == 'ctpop' else
                          w if v == 0 else (v & -v).bit_length() - 1)
            return apply(bits, (n, w), ops[0])
        if n in ('lround', 'llround', 'lroundf'):
            return alg.call('round', ops[0])
        if n in LIBM:
            m = LIBM[n]
            if m == 'hypot':
                return alg.call('sqrt', alg.add(alg.mul(ops[0], ops[0]), alg.mul(ops[1], ops[1])))
            if m == 'pow':
                e = constval(ops[1])
                if e is not None and e == int(e) and 0 <= e <= 6:
                    r = num(1)
                    for _ in range(int(e)):
                        r = alg.mul(r, ops[0])
                    return r
            return alg.call(m, *ops)
        if n == 'powi':
            e = constval(ops[1])
            r = num(1)
            for _ in range(abs(int(e))):
                r = alg.mul(r, ops[0])
            return r if e >= 0 else alg.div(num(1), r)
        raise Unsupported('call to %s' % (ins.get('dem') or ins.get('fn')))

    def memset(self, st, p, v, ln, cond, loc):
        dl, n = alg.leaves(p), alg.leaves(ln)
        if len(dl) != 1 or len(n) != 1:
            raise Unsupported('memset')
        dp, n = dl[0], n[0]
        c = constval(self.tonum(v))
        if n.is_const() and c is not None:
            cells = st.w(dp.base)
            L = int(n.const())
            for o in list(cells):
                dd = o - dp.off
                if dd.is_const() and 0 <= dd.const() < L:
                    del cells[o]
            if c == 0:
                st.add_copy(dp.base, (dp.off, n, ('zero',), R0, ZeroState(), TRUE))
                return
            if L <= 64:
                for i in range(L):
                    cells[dp.off + rc(i)] = (1, num(c), loc)
                return
        elif c == 0:
            st.cells[dp.base] = Cells()
            st.owned.add(dp.base)
            st.add_copy(dp.base, (dp.off, n, ('zero',), R0, ZeroState(), TRUE))
            self.events.append(('memset', dp, c, n, cond, loc))
            return
        self.events.append(('memset', dp, c, n, cond, loc))
        st.cells.pop(dp.base, None)
        st.add_copy(dp.base, (dp.off, n, ('fill', c), R0, State(), TRUE))

    # ------------------------------------------------------------ loops
    def summarize(self, header, inc, cond):
        from . import loops
        return loops.summarize(self, header, inc, cond)


class ZeroState(State):
    pass


def _wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


_orig_load_at = Evaluator.load_at


def _load_at(self, st, base, off, ty, size):
    if isinstance(st, ZeroState):
        if ty == 'ptr':
            return leaf(NULL)
        return num(0)
    return _orig_load_at(self, st, base, off, ty, size)


Evaluator.load_at = _load_at


_RANK = {}


def rank(base):
    return _RANK.setdefault(base, len(_RANK))


def bxor(a, b):
    return ite(a, bnot(b), b)


def constval(d):
    if isinstance(d, DD) and d.is_leaf() and isinstance(d.leaf, Rat) and d.leaf.is_const():
        return d.leaf.const()
    if isinstance(d, DD) and d.is_leaf() and isinstance(d.leaf, bool):
        return int(d.leaf)
    return None


def map_leaves(f, d, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(d.id)
    if r is not None:
        return r
    if d is BOT:
        return BOT
    if d.var is None:
        v = f(d.leaf)
        r = v if isinstance(v, (DD, tuple)) else leaf(v)
    else:
        kids = [map_leaves(f, c, memo) for c in d.ch]
        if any(isinstance(k, tuple) for k in kids):
            n = max(len(k) for k in kids if isinstance(k, tuple))
            r = tuple(alg.ite3(d.var, *[(k[i] if isinstance(k, tuple) else k) for k in kids]) for i in range(n))
        else:
            r = alg.ite3(d.var, *kids)
    memo[d.id] = r
    return r


def subst_dd(d, m):
    """Substitute atoms in a diagram (leaves and conditions)."""
    if isinstance(d, tuple):
        return tuple(subst_dd(x, m) for x in d)
    if not m:
        return d
    memo = {}

    def leafsub(v):
        if isinstance(v, Rat):
            return leaf(alg.subst(v, m))
        if isinstance(v, Ptr):
            return leaf(Ptr(subst_base(v.base, m), alg.subst(v.off, m)))
        return leaf(v)

    def rec(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.var is None:
            r = x if x is BOT else leafsub(x.leaf)
        else:
            p = alg.subst(Rat(alg._VARS[x.var]), m)
            kids = [rec(c) for c in x.ch]
            if p.num.is_zero():
                r = kids[1]
            elif p.den.is_const():
                r = alg.sign_node(p.num, *kids)
            else:
                r = alg.sign_node(p.den, alg.sign_node(p.num, kids[2], kids[1], kids[0]), kids[1],
                                  alg.sign_node(p.num, *kids))
        memo[x.id] = r
        return r
    return rec(d)


def subst_base(b, m):
    if isinstance(b, tuple) and b[0] == 'ld':
        return ('ld', subst_base(b[1], m), alg.subst(b[2], m))
    return b


def base_key(b):
    return base_str(b)


def ptr_num(p):
    if p.base == 'null':
        return p.off
    a = alg.atom('sym', '&' + base_str(p.base))
    alg.INT_ATOMS.add(a)
    alg.POSITIVE.add(a)
    alg.NONNEG.add(a)
    return ra(a) + p.off


def solve_index(fam, off):
    """Solve fam.off(k1..kn) == off for the loop variables, affine with constant or symbolic strides."""
    ks = [k for k, _ in fam.loops]
    r = off - fam.off
    sol = {}
    fo = fam.off
    if not fo.den.is_const() or not off.den.is_const():
        return None
    # coefficients of each k in fam.off
    co = {}
    for k in ks:
        c = fo.diff(k)
        if k in c.atoms():
            return None
        co[k] = c
    base = alg.subst(fo, {k: R0 for k in ks})
    rem = off - base
    # order by "size": process symbolic strides (more atoms) first
    order = sorted(ks, key=lambda k: -len(co[k].num.t) - sum(e for m in co[k].num.t for _, e in m) * 10)
    for idx, k in enumerate(order):
        c = co[k]
        if c.num.is_zero():
            sol[k] = ra(k)
            continue
        if idx == len(order) - 1:
            q = rem / c
            if not (q.is_poly() and alg.is_integral(q)):
                return None
            sol[k] = q
            rem = R0
        else:
            # pick terms of rem divisible by c
            if len(c.num.t) != 1:
                return None
            (cm, cc), = c.num.t.items()
            qt = {}
            rest = {}
            for m, x in rem.num.t.items():
                d = alg._mono_div(m, cm)
                if d is not None and (Fraction(x) / cc).denominator == 1 and (len(cm) > 0 or True):
                    qt[d] = Fraction(x) / cc
                else:
                    rest[m] = x
            sol[k] = Rat(alg.Poly({m: alg._norm(v) for m, v in qt.items()}))
            rem = Rat(alg.Poly(rest))
    return sol


class Module:
    def __init__(self, js):
        self.js = js
        self.globals = {g['name']: g for g in js['globals']}
        self.functions = {f['name']: f for f in js['functions']}
        self._flat = {}
        self.opaque = set()

    def flat_global(self, name):
        if name in self._flat:
            return self._flat[name]
        g = self.globals[name]
        out = []

        def size_of(t):
            return None

        def rec(o, ty, off):
            # returns size
            k = o['k']
            if k == 'f':
                t = o.get('t', 'double')
                out.append((off, t, leaf(lift_const(double_bits(int(o['v'])), t))))
                return 8 if t == 'double' else 4
            if k == 'i':
                out.append((off, 'i%d' % o['w'], num(int(o['v']))))
                return max(1, o['w'] // 8)
            if k == 'a':
                p = off
                for j, x in enumerate(o['v']):
                    if 'off' in o:
                        p = off + o['off'][j]
                    s = rec(x, None, p)
                    if s is None:
                        return None
                    p += s
                return o.get('sz', p - off)
            if k in ('g', 'ge'):
                b = o if k == 'g' else o['b']
                out.append((off, 'ptr', leaf(Ptr('@' + b['v'], rc(o.get('o', 0))))))
                return 8
            if k == 'n':
                out.append((off, 'ptr', leaf(NULL)))
                return 8
            if k == 'z':
                out.append((off, 'zero', o['sz']))
                return o['sz']
            if k == 'u':
                return o.get('sz')
            return None
        rec(g['init'], None, 0)
        self._flat[name] = out
        return out
