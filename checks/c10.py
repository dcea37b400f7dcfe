"""C10: containers own exactly one buffer and keep value semantics."""
import re
from fractions import Fraction as Fr
from engine import alg, harness, lifetime, vg
from engine.alg import num, ra, rc, cmp, ite, band, bor, bnot
from engine.ir import Ptr
from engine.vg import IN, SKIP


def rows(start, n):
    """n rows of 2, 1, 2, 1, ... numbers."""
    return [[IN(start + 2 * i)] if i % 2 else [IN(start + 2 * i), IN(start + 2 * i + 1)] for i in range(n)]


def nums(start, n):
    return [IN(start + i) for i in range(n)]


ANY = None          # capacity: any that holds the elements
M = {'v': nums, 'n': rows}
E = {'v': nums, 'n': rows}


def vectors():
    """probe -> list of expected contents of the dumped containers."""
    w = {}
    for k in 'vn':
        m = M[k]
        f = lambda n, a: w.__setitem__('%s_%s' % (k, n), a)
        f('none', [[]])
        f('copy0', [[], []])
        f('copy3', [m(0, 3)] * 2)
        f('copycap', [m(0, 2)] * 2)
        f('move3', [[], m(0, 3)])
        f('range', [m(0, 4), m(0, 4)[1:3]])
        f('range0', [m(0, 2), []])
        f('assign_e3', [m(0, 3)] * 2)
        f('assign_42', [m(0, 2)] * 2)
        f('assign_24c', [m(0, 4)] * 2)
        f('assign_24', [m(0, 4)] * 2)
        f('assign_15c', [m(0, 5)] * 2)
        f('assign_34c', [m(0, 4)] * 2)
        f('assign_51', [m(0, 1)] * 2)
        f('assign_30', [[], []])
        f('assign_33', [m(0, 3)] * 2)
        f('assign_self', [m(0, 3)])
        f('massign_23', [[], m(0, 3)])
        f('massign_03', [[], m(0, 3)])
        f('massign_20', [[], []])
        f('massign_self', [m(0, 3)])
        f('reuse', [m(0, 2), m(0, 3)])
        f('reserve', [m(0, 3)])
        f('reserve_less', [m(0, 3)])
        f('reserve0', [[]])
        f('push_own_full', [m(0, 3) + m(0, 3)[:1]])
        f('push_own_room', [m(0, 3) + m(0, 3)[2:]])
        f('emplace_own_full', [m(0, 2) + m(0, 2)[:1]])
        f('pop', [m(0, 2)])
        f('poppush', [m(0, 2) + m(8, 1)])
        f('clear', [[]])
        f('clearpush', [m(8, 1)])
        f('shrink', [m(0, 2)])
        f('resize0', [[]])
        f('resize_same', [m(0, 3)])
    w['v_size'] = [nums(0, 3)]
    w['n_size'] = [[[], [IN(0)], []]]
    w['v_value'] = [[IN(0)] * 3]
    w['n_value'] = [[[IN(0)] * 2] * 3, [IN(1), IN(0)]]
    w['v_list'] = [nums(0, 3)]
    w['v_assignlist'] = [nums(2, 3)]
    w['v_push'] = w['v_emplace'] = [nums(0, 6)]
    w['n_push'] = w['n_pushm'] = w['n_emplace'] = [[[IN(i)] for i in range(5)]]
    w['v_grow'] = w['v_growroom'] = [nums(0, 5)]
    w['n_grow'] = w['n_growroom'] = [rows(0, 2) + [[]] * 3]
    w['n_shrinkgrow'] = [rows(0, 1) + [[]] * 2]
    w['v_swap'] = [nums(2, 3), nums(0, 2)]
    return w


CAP = {'v_reserve': {0: 8}, 'n_reserve': {0: 8}, 'v_reserve0': {0: 4}, 'n_reserve0': {0: 4}, 'v_reserve_less': {0: 3}, 'n_reserve_less': {0: 3},
       'v_clear': {0: 3}, 'n_clear': {0: 3}, 'v_shrink': {0: 4}, 'n_shrink': {0: 4}}


def chars(start, n):
    return [ra(alg.atom('in', 'txt', Fr(start + i))) for i in range(n)]


def strings(names):
    w = {}
    t = chars
    for name in names:
        g = re.match(r's_([a-z]+?)(\d+)(?:_(\d+))?(?:_(\d+))?$', name)
        if not g:
            continue
        op, n = g.group(1), int(g.group(2))
        m = int(g.group(3)) if g.group(3) else None
        c = int(g.group(4)) if g.group(4) else None
        a = t(0, n)
        if op in ('make', 'self', 'mself'):
            w[name] = [a]
        elif op == 'copy' or op == 'assign':
            w[name] = [a, a]
        elif op in ('move', 'massign'):
            w[name] = [[], a]
        elif op == 'append':
            w[name] = [a + t(50, m)]
        elif op == 'plus':
            w[name] = [a, t(50, m), a + t(50, m)]
        elif op == 'appself':
            w[name] = [a + a]
        elif op == 'sub':
            w[name] = [a, a[m:m + c]]
    lit = lambda s: [rc(ord(x)) for x in s]
    w['s_twice'] = [t(0, 20) + t(50, 20) + t(80, 3) + t(90, 8)]
    w['s_shorten'] = [t(50, 3) + t(60, 30), t(50, 3)]
    w['s_lengthen'] = [t(50, 30) + t(80, 2), t(50, 30)]
    w['s_literal'] = [lit('abc'), lit('a string that needs a buffer of its own')]
    w['s_vector'] = [t(0, 5), t(0, 5), t(0, 5), t(0, 5), t(50, 30), t(0, 5)]
    return w


def flat(name, x):
    """The dumped numbers of one container."""
    if name[0] == 's':
        return list(x) + [rc(0)]
    if x and isinstance(x[0], list):
        return [v for r in x for v in [rc(len(r))] + r]
    return list(x)


def memory(ctx, what, r):
    """No access outside a live buffer, every buffer released exactly once."""
    bad, n = lifetime.faults(r.ev)
    for k, v in n.items():
        ctx.analysed['memory ' + k] = ctx.analysed.get('memory ' + k, 0) + v
    if not bad:
        ctx.ok(what + ': memory')
    for text, loc in bad[:3]:
        ctx.fail('%s: memory' % what, text + ' at ' + (lifetime.where(loc) or '?'), r.where())
    return not bad


def contents(ctx, mod, name):
    vg.fresh()
    want = (strings([name]) if name[0] == 's' else vectors())[name]
    what = {'v': 'array of numbers', 'n': 'array of arrays', 's': 'string'}[name[0]] + ' ' + name[2:]
    r = vg.evaluate(ctx, mod, 'probe_' + name, {'mem': True, 'bytes': ('txt',)}, ('in', 'txt', 'out', 'ptr'), limit=400)
    where = r.where()
    memory(ctx, what, r)
    size = {e[1]: e[2] for e in r.ev.events if e[0] == 'new'}
    held = []
    for k, x in enumerate(want):
        vals = flat(name, x)
        vg.expect(ctx, '%s: size of container %d' % (what, k), r.out(100 * k), len(x), where)
        vg.expect(ctx, '%s: container %d is empty' % (what, k), r.out(100 * k + 2), int(not x), where)
        for i, v in enumerate(vals):
            vg.expect(ctx, '%s: element %d of container %d' % (what, i, k), r.out(100 * k + 3 + i), num(v), where)
        cap = vg.single(r.out(100 * k + 1))
        want_cap = CAP.get(name, {}).get(k)
        if want_cap is not None:
            vg.expect(ctx, '%s: capacity of container %d' % (what, k), r.out(100 * k + 1), want_cap, where)
        p = vg.single(r.out(k, 'ptr'))
        unit = {'v': 8, 'n': 24, 's': 1}[name[0]]
        if name == 'n_value' and k == 1:
            unit = 8
        need = len(x) * unit
        if isinstance(p, Ptr) and p.base != 'null':
            held.append((p.base, p.off))
        inside = name[0] == 's' and cap is not None and cap.is_const() and cap.const() == 22
        if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'heap' and not inside:
            z = vg.single(size[p.base])
            room = None if cap is None else (cap + rc(name[0] == 's')) * rc(unit)
            if room is None or not room.is_const() or not z.is_const() or room.const() > z.const() or room.const() < need:
                ctx.fail('%s: capacity of container %d' % (what, k), 'capacity %s is reported for a buffer of %s bytes holding %d elements' % (cap, z, len(x)), where)
            else:
                ctx.ok('%s: capacity of container %d' % (what, k))
        elif name[0] == 's' and isinstance(p, Ptr):
            if cap is None or not cap.is_const() or cap.const() < len(x):
                ctx.fail('%s: capacity of container %d' % (what, k), 'capacity %s is reported for %d characters' % (cap, len(x)), where)
            else:
                ctx.ok('%s: capacity of container %d' % (what, k))
        elif need or cap is None or not cap.num.is_zero():
            ctx.fail('%s: capacity of container %d' % (what, k), 'capacity %s and %d elements without a buffer' % (cap, len(x)), where)
        else:
            ctx.ok('%s: capacity of container %d' % (what, k))
    if len(set(held)) != len(held):
        ctx.fail('%s: buffers are not shared' % what, 'two containers hold the same buffer', where)
    else:
        ctx.ok('%s: buffers are not shared' % what)


def lex(a, b):
    """(equal, less) of two sequences in lexicographic order."""
    eq, lt = alg.TRUE, alg.FALSE
    for x, y in zip(a, b):
        lt = bor(lt, band(eq, cmp('lt', num(x), num(y))))
        eq = band(eq, cmp('eq', num(x), num(y)))
    if len(a) < len(b):
        lt = bor(lt, eq)
    if len(a) != len(b):
        eq = alg.FALSE
    return eq, lt


def six(a, b):
    eq, lt = lex(a, b)
    gt = band(bnot(lt), bnot(eq))
    return [eq, bnot(eq), lt, gt, bnot(gt), bnot(lt)]


def flag(c):
    return ite(c, num(1), num(0))


def same(a, b):
    return lex(a, b)[0]


def last(a, c):
    v = num(2**31 - 1)
    for i, x in enumerate(a):
        v = ite(cmp('eq', num(x), num(c)), num(i), v)
    return v


def queries():
    t = chars
    a, b = t(0, 3), t(50, 4)
    v, w = nums(0, 2), nums(2, 2)
    x = nums(0, 3)
    y = [IN(3), IN(1), IN(4)]
    eq, lt = lex(v, w[:1])
    return {
        'v_access': [num(z) for z in [x[0], x[2], x[0], x[2]] + y + y + [y[0], y[2], y[1], y[1]]],
        'v_compare': [flag(c) for c in six(v, w) + [eq, lt, lex(w[:1], v)[1], bnot(eq), bor(lt, eq), bnot(lt)]],
        's_access': [num(z) for z in [a[0], t(3, 1)[0]] * 3 + t(0, 4) * 2 + [rc(4), t(3, 1)[0]]],
        's_compare': [flag(c) for c in six(a, b[:3]) + six(a, b[:2]) + six(b[:2], a)],
        's_match': [flag(same(a[:2], b[:2])), flag(same(a[1:], b[:2])), flag(same(a[:1], b[:1])), flag(same(a[2:], b[:1])), num(0), num(0),
                    last(a, b[0]), last(a[:2], b[0]), flag(same(a, b[:3])), flag(same(a, b[:3]))],
        's_empty': [num(k) for k in (1, 0, 1, 0, 0, 0, 1)],
    }


def query(ctx, mod, name):
    vg.fresh()
    for a in chars(0, 100):
        alg.POSITIVE.add(a.num.lead()[0][0][0])
        alg.INT_ATOMS.add(a.num.lead()[0][0][0])
    want = queries()[name]
    r = vg.evaluate(ctx, mod, 'probe_' + name, {'mem': True, 'bytes': ('txt',)}, ('in', 'txt', 'out', 'ptr'), limit=400)
    what = {'v': 'array of numbers', 's': 'string'}[name[0]] + ' ' + name[2:]
    memory(ctx, what, r)
    for k, v in enumerate(want):
        vg.expect(ctx, '%s: result %d' % (what, k), r.out(k), v, r.where())


def run(ctx):
    ctx.rule = ('Value numbering of every constructor, assignment and modifier of the containers on symbolic elements, with the '
                'memory events of the whole life of the containers: elements, sizes and capacities compared with the definition; every '
                'buffer is released exactly once and never used outside its bounds or lifetime.')
    ctx.assumptions += ['containers have the listed sizes', 'allocation succeeds', 'element types: numbers, arrays, strings', 'characters are ASCII']
    for asserts in (0, 1):
        sfx = ', assertions on' if asserts else ''
        bc = ctx.bitcode(harness.VERIF + '/probes/c10.cpp', ctx.config(UM2_ENABLE_ASSERTS=asserts))
        mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS)
        names = [n[6:] for n in mod.functions if n.startswith('probe_')]
        w = vectors()
        w.update(strings(names))
        for n in sorted(w):
            with ctx.guard(n):
                contents(ctx, mod, n)
        for n in ('v_access', 'v_compare', 's_access', 's_compare', 's_match', 's_empty'):
            with ctx.guard(n):
                query(ctx, mod, n)
