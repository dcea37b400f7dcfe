"""C21: built-in nuclear data tables."""
import json
import string
from fractions import Fraction as Fr
from engine import alg, harness, vg
from engine.alg import rc, num
from checks.c19 import LOG, Log
from checks.c20 import Text

SYMBOLS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh '
           'Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr '
           'Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
# standard atomic weights of the elements the table lists as natural mixtures or compounds' constituents
WEIGHT = {1: 1.00794, 5: 10.81, 6: 12.011, 8: 15.9994, 12: 24.305, 14: 28.0855, 16: 32.06, 17: 35.453, 19: 39.0983, 20: 40.078,
          22: 47.867, 23: 50.9415, 24: 51.9961, 26: 55.845, 28: 58.6934, 40: 91.224, 42: 95.95, 48: 112.414, 49: 114.818, 50: 118.71,
          51: 121.76, 74: 183.84}
LIGHT = {(1, 1): 1.007825, (1, 2): 2.014102, (1, 3): 3.016049, (2, 3): 3.016029, (2, 4): 4.002603, (3, 6): 6.015123, (3, 7): 7.016003,
         (4, 9): 9.012183, (5, 10): 10.012937, (5, 11): 11.009305, (7, 14): 14.003074, (8, 16): 15.994915, (9, 19): 18.998403}
NAMES = ('UO2', 'MOX_4.3', 'MOX_7.0', 'MOX_8.7', 'Fission_Chamber', 'Guide_Tube', 'Moderator')
FIELDS = ('absorption', 'fission', 'nu-fission', 'transport', 'scattering')


def drop(Z, A):
    """Atomic mass from the liquid-drop binding energy, u."""
    N = A - Z
    d = 11.18 / A ** .5
    pair = d if Z % 2 == 0 and N % 2 == 0 else -d if Z % 2 and N % 2 else 0
    B = 15.75 * A - 17.8 * A ** (2 / 3) - 0.711 * Z * (Z - 1) / A ** (1 / 3) - 23.7 * (A - 2 * Z) ** 2 / A + pair
    return (Z * 938.783 + N * 939.565 - B) / 931.494


def mass_ok(z, m):
    """Is m the mass of what the identifier z = 1000 Z + A denotes?  Returns None or the reason why not."""
    Z, A = divmod(z, 1000)
    if not 1 <= Z <= len(SYMBOLS):
        return 'atomic number %d' % Z
    # library conventions: A + 500/600 fission product, A + 100 metastable
    cand = [x for x in (A, A - 500, A - 600, A - 100) if Z <= x and x < 3.2 * Z + 3]
    for x in cand:
        if abs(m - x) <= 0.15:
            ref = LIGHT.get((Z, x))
            if ref is not None:
                return None if abs(m - ref) < 2e-3 else 'tabulated %.6g, known %.6g' % (m, ref)
            if x <= 20:
                return None
            return None if abs(m - drop(Z, x)) < 0.022 else 'tabulated %.6g, binding-energy formula %.6g' % (m, drop(Z, x))
    # natural element or bound in a compound: identifiers that are no mass numbers
    w = WEIGHT.get(Z)
    if w is not None and (A < Z or (Z == 1 and A > 3)):
        return None if abs(m - w) < 2e-3 * w else 'tabulated %.6g, standard atomic weight %.6g' % (m, w)
    return 'mass %.6g for mass number %s' % (m, ' or '.join(map(str, cand)) or A)


def const(d):
    v = vg.single(d)
    if v is None or not isinstance(v, alg.Rat) or not v.is_const():
        raise harness.CheckError('table entry is not a constant')
    return v.const()


def run(ctx):
    ctx.rule = ('The tables are read out of the compiled initialisers by constant propagation through the dynamic-initialisation code '
                '(no part of the library is run); every entry is then compared with an independent rule: nuclide masses with mass number '
                'and binding energy, symbols with the periodic table, benchmark cross sections with balance relations and the published values.')
    ctx.assumptions += ['the binding-energy formula is accurate to 0.022 u over the tabulated nuclides']
    bc = ctx.bitcode(harness.VERIF + '/probes/c20.cpp')
    mod = ctx.irdump(bc, vg.INIT_ROOTS, harness.PIPE_LOOPS, noinline=LOG, opaque=LOG)

    def ev(name, args):
        vg.fresh()
        log = Text()
        full = 'probe_' + name
        r = vg.evaluate(ctx, mod, full, {'call': log, 'setup': vg.static_init(mod, full)}, args, limit=1000)
        r.log = log
        return r

    def claim(name, ok, detail, where):
        if ok:
            ctx.ok(name)
        else:
            ctx.fail(name, detail, where)

    with ctx.guard('masses'):
        r = ev('masses', ('out',))
        where = 'src/physics/material.cpp, table of atomic masses'
        n = int(const(r.out(0)))
        if n < 200:
            ctx.error('only %d mass entries found' % n)
        tab = [(int(const(r.out(1 + 2 * i))), float(const(r.out(2 + 2 * i)))) for i in range(n)]
        seen = {}
        for i, (z, m) in enumerate(tab):
            claim('mass entry %d is listed once' % z, z not in seen, 'identifier %d appears again as entry %d' % (z, i), where)
            seen[z] = m
            why = mass_ok(z, m)
            claim('mass of %d' % z, why is None, 'entry {%d, %.6g}: %s' % (z, m, why), where)
        # the same nuclide under several identifiers has one mass
        groups = {}
        for z, m in tab:
            Z, A = divmod(z, 1000)
            for x in (A, A - 500, A - 600, A - 100):
                if Z <= x and abs(m - x) <= 0.15:
                    groups.setdefault((Z, x), []).append((z, m))
                    break
        for (Z, x), l in sorted(groups.items()):
            if len(l) > 1:
                claim('entries of %s-%d agree' % (SYMBOLS[Z - 1], x), max(m for _, m in l) - min(m for _, m in l) < 5e-3,
                      'masses %s' % l, where)
    letters = string.ascii_lowercase
    want = {s: i + 1 for i, s in enumerate(SYMBOLS)}
    for width in (1, 2):
        with ctx.guard('zaid%d' % width):
            r = ev('zaid%d' % width, ('in',))
            ret = r.ret()
            err = alg.ite(r.log.cond('error'), num(1), num(0))
            at = [alg.atom('in', 'in', Fr(k)) for k in range(width)]
            where = 'src/physics/nuclide.cpp, element symbols'
            for u in string.ascii_uppercase:
                for l in (letters if width == 2 else ('',)):
                    s = u + l
                    m = {at[k]: rc(ord(s[k])) for k in range(width)}
                    v, e = const(vg.fixed(ret, m)), const(vg.fixed(err, m))
                    Z = want.get(s)
                    if Z is None:
                        claim('symbol %s is refused' % s, e == 1, 'no element is called %s, but %s123 is accepted as %d' % (s, s, v), where)
                    else:
                        claim('symbol %s' % s, e == 0 and v == 1000 * Z + 123,
                              '%s123 is read as %d%s, expected %d' % (s, v, ' with an error' if e else '', 1000 * Z + 123), where)
    with ctx.guard('c5g7'):
        r = ev('c5g7', ('out',))
        ref = json.load(open(harness.VERIF + '/checks/c5g7.json'))
        for k, nm in enumerate(NAMES):
            v = [float(const(r.out(120 * k + j))) for j in range(88)]
            where = 'src/physics/cross_section.cpp, material %s' % nm
            a, f, nf, tr, s = [v[7 * i:7 * i + 7] for i in range(5)]
            ss = [v[35 + 7 * g:42 + 7 * g] for g in range(7)]
            claim('%s: seven groups, macroscopic' % nm, v[84] == 7 and v[85] == 1, 'groups %g, macroscopic flag %g' % (v[84], v[85]), where)
            text = ''.join(chr(int(const(r.out(120 * k + 88 + j)))) for j in range(int(v[87])))
            claim('%s: name' % nm, text == nm, 'material %d is called %s' % (k, text), where)
            fis = any(x > 0 for x in f)
            claim('%s: fissile flag' % nm, (v[86] == 1) == fis, 'flag %g, fission %s' % (v[86], f), where)
            for g in range(7):
                q = '%s, group %d: ' % (nm, g + 1)
                claim(q + 'scattering is the sum over outgoing groups', abs(s[g] - sum(ss[g])) < 1e-12, '%.8g against %.8g' % (s[g], sum(ss[g])), where)
                claim(q + 'transport is absorption plus scattering', abs(tr[g] - a[g] - s[g]) < 1e-5 * tr[g], '%.8g against %.8g' % (tr[g], a[g] + s[g]), where)
                claim(q + 'fission is part of absorption', 0 <= f[g] <= a[g], 'fission %.8g, absorption %.8g' % (f[g], a[g]), where)
                claim(q + 'neutrons per fission', (2.4 < nf[g] / f[g] < 3.0) if f[g] > 0 else nf[g] == 0 and not fis,
                      'nu-fission %.8g, fission %.8g' % (nf[g], f[g]), where)
            for j in range(84):
                q = FIELDS[j // 7] + ' %d' % (j % 7 + 1) if j < 35 else 'scattering %d to %d' % ((j - 35) // 7 + 1, (j - 35) % 7 + 1)
                claim('%s: published %s' % (nm, q), abs(v[j] - ref[nm][j]) <= 2e-5 * abs(ref[nm][j]),
                      '%.8g, published %.8g' % (v[j], ref[nm][j]), where)
