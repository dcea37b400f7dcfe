"""C23: every build configuration type-checks, links and leaves no public declaration undefined."""
import concurrent.futures as cf
import itertools
import os
import re
import subprocess
from engine import harness
from engine.harness import REPO

OPTIONS = ['UM2_ENABLE_ASSERTS', 'UM2_ENABLE_BMI2', 'UM2_ENABLE_FLOAT64', 'UM2_ENABLE_SIMD_VEC', 'UM2_USE_BLAS_LAPACK',
           'UM2_USE_GMSH', 'UM2_USE_MPACT_XSLIBS', 'UM2_USE_HDF5', 'UM2_USE_OPENMP', 'UM2_USE_PUGIXML']
LINKED = [{}, dict(UM2_ENABLE_FLOAT64=0, UM2_ENABLE_SIMD_VEC=0), dict(UM2_USE_BLAS_LAPACK=0, UM2_ENABLE_ASSERTS=0, UM2_USE_GMSH=0),
          dict(UM2_USE_MPACT_XSLIBS=1)]
DECLS = os.path.join(harness.BUILD, 'bin', 'decls')


def covering(n, t=3):
    """Assignments of n options such that every choice for every t of them occurs (greedy, deterministic)."""
    todo = {(c, v) for c in itertools.combinations(range(n), t) for v in itertools.product((0, 1), repeat=t)}
    rows = [(1,) * n, (0,) * n]
    rows += [tuple(int(i != k) for i in range(n)) for k in range(n)]

    def covers(r):
        return {(c, v) for c, v in todo if all(r[i] == x for i, x in zip(c, v))}
    for r in rows:
        todo -= covers(r)
    while todo:
        best = []
        for c, v in sorted(todo)[:6]:
            r = [None] * n
            for i, x in zip(c, v):
                r[i] = x
            for i in range(n):
                if r[i] is None:
                    r[i] = max((0, 1), key=lambda x: sum(
                        1 for d, w in todo if i in d and all((x if j == i else r[j]) in (y, None) for j, y in zip(d, w))))
            best.append(tuple(r))
        r = max(best, key=lambda r: len(covers(r)))
        rows.append(r)
        todo -= covers(r)
    return rows


def instances():
    out = []
    for t in ('float', 'double'):
        out += ['um2::Vec<%d, %s>' % (d, t) for d in (1, 2, 3)]
        out += ['um2::%s<%d, %s>' % (k, d, t) for k in ('AxisAlignedBox', 'Ray', 'RegularGrid', 'RectilinearGrid') for d in (1, 2, 3)]
        out += ['um2::Polytope<1, %d, %d, %d, %s>' % (p, p + 1, d, t) for p in (1, 2) for d in (1, 2, 3)]
        out += ['um2::Polytope<2, %d, %d, %d, %s>' % (p, n, d, t) for p, n in ((1, 3), (1, 4), (2, 6), (2, 8)) for d in (2, 3)]
        out += ['um2::Mat<%d, %d, %s>' % (m, n, t) for m in (2, 3) for n in (2, 3)]
        out += ['um2::ModularRayParams<%s>' % t, 'um2::Matrix<%s>' % t]
    out += ['um2::Vec<%d, Int>' % d for d in (1, 2, 3)]
    out += ['um2::RegularPartition<%d, %s>' % (d, t) for d in (1, 2, 3) for t in ('Int', 'int8_t', 'double')]
    out += ['um2::RectilinearPartition<2, Int>', 'um2::RectilinearPartition<2, int8_t>']
    out += ['um2::Vector<%s>' % t for t in ('Int', 'int8_t', 'float', 'double', 'um2::String', 'um2::Vector<Int>', 'um2::Vec2F')]
    out += ['um2::Matrix<Complex<float>>', 'um2::Matrix<Complex<double>>']
    return out


def headers():
    root = os.path.join(REPO, 'include')
    hs = ['um2.hpp', 'um2c.h'] + [os.path.relpath(os.path.join(r, f), root) for r, _, fs in os.walk(os.path.join(root, 'um2'))
                                  for f in fs if f.endswith(('.hpp', '.h')) and f != 'config.hpp']
    return sorted(hs)


def sources():
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.cpp'))


def flags(opts, cfg):
    return ['-std=gnu++20', '-march=x86-64-v3', '-w', '-I' + cfg, '-I' + os.path.join(REPO, 'include'), '-isystem',
            '/usr/include/hdf5/serial'] + (['-fopenmp'] if opts.get('UM2_USE_OPENMP', 1) else [])


def first_error(text):
    m = re.search(r'^(.*?): (?:fatal )?error: (.*)$', text, re.M)
    return (m.group(1).replace(REPO + '/', ''), m.group(2)) if m else ('', text[-300:])


def say(opts):
    off = [o for o in OPTIONS if not opts.get(o, harness.DEFAULT.get(o, 0))]
    return 'everything on' if not off else 'without ' + ', '.join(o.split('_', 2)[2] for o in off)


def run(ctx):
    ctx.rule = ('Every source file, every public header on its own and explicit instantiations of every public class template are '
                'type-checked by the compiler in configurations in which every choice for every three options occurs; in the listed '
                'configurations the symbols left undefined by all of them together are compared with the symbols defined; every '
                'function and variable declared in a public header (canonical declaration in the compiler\'s AST) has a definition '
                'in some translation unit.')
    ctx.assumptions += ['CUDA is not available here; the mesh generator, HDF5, pugixml and BLAS headers installed here stand for theirs',
                        'combinations of more than three options that fail only together are not covered']
    hs, srcs = headers(), sources()
    if len(hs) < 50 or len(srcs) < 15:
        raise harness.CheckError('only %d headers and %d sources found' % (len(hs), len(srcs)))
    everything = os.path.join(ctx.work, 'everything.cpp')
    with open(everything, 'w') as f:
        f.writelines('#include <%s>\n' % h for h in hs)
        f.writelines('template class %s;\n' % i for i in instances())
    jobs = []
    for k, row in enumerate(covering(len(OPTIONS))):
        opts = dict(zip(OPTIONS, row), MAX_LOG_LEVEL=(4, 0, 3, 1, 2)[k % 5])
        cfg = ctx.config(**opts)
        jobs += [('%s with %s' % (os.path.relpath(s, REPO) if s.startswith(REPO) else 'every public class template', say(opts)),
                  [s], opts, cfg) for s in srcs + [everything]]
        if k < 2:
            jobs += [('header %s on its own with %s' % (h, say(opts)), ['-x', 'c++', '-include', h, '/dev/null'], opts, cfg) for h in hs]
        ctx.analysed['configurations'] = k + 1
    objects = []
    for k, opts in enumerate(LINKED):
        cfg = ctx.config(**opts)
        for s in srcs + [everything]:
            o = os.path.join(ctx.work, 'o%d-%s.o' % (k, os.path.relpath(s, '/').replace('/', '_')))
            objects.append((k, o, s, opts, cfg))

    def check(j):
        name, what, opts, cfg = j
        return name, subprocess.run([harness.CLANG, '-fsyntax-only'] + flags(opts, cfg) + what, capture_output=True, text=True)

    def build(j):
        k, o, s, opts, cfg = j
        subprocess.run([harness.CLANG, '-O0', '-g0', '-c', '-fPIC'] + flags(opts, cfg) + [s, '-o', o], capture_output=True, text=True)
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-nm', '--no-sort', '-C', o], capture_output=True, text=True)
        return k, r.stdout if r.returncode == 0 else None

    def declared(s):
        cfg = ctx.config(UM2_USE_MPACT_XSLIBS=1)
        return s, subprocess.run([DECLS, REPO, s] + flags({}, cfg) + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'],
                                 capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex:
        checked = list(ex.map(check, jobs))
        built = list(ex.map(build, objects))
        decls = list(ex.map(declared, srcs + [everything]))
    ctx.analysed['translation units type-checked'] = len(checked)
    seen = set()
    for name, r in checked:
        if r.returncode == 0:
            ctx.ok(name)
        else:
            where, what = first_error(r.stderr)
            if (where, what) not in seen:
                seen.add((where, what))
                ctx.fail(name, 'does not compile: ' + what, where)
    link(ctx, built)
    definitions(ctx, decls)


def link(ctx, built):
    for k, opts in enumerate(LINKED):
        outs = [t for j, t in built if j == k]
        if None in outs:
            continue                       # reported above
        undef, defined = set(), set()
        for t in outs:
            for l in t.splitlines():
                m = re.match(r'([0-9a-f]+)?\s+(\w) (.*)', l)
                if m:
                    (undef if m.group(2) in 'Uwv' and not m.group(1) else defined).add(m.group(3))
        mine = {u for u in undef if re.search(r'\bum2::|^um2|^logger::', u) and 'gmsh::' not in re.sub(r'um2::gmsh::', '', u)}
        ctx.analysed['symbols compared'] = ctx.analysed.get('symbols compared', 0) + len(mine)
        missing = sorted(mine - defined)
        name = 'symbols with %s' % (', '.join('%s=%d' % (a.split('_', 2)[2], b) for a, b in opts.items()) or 'the default options')
        if missing:
            ctx.fail(name, 'used but defined nowhere: ' + '; '.join(missing[:5]), missing[0])
        else:
            ctx.ok(name)


def definitions(ctx, decls):
    defined, declared = set(), {}
    for s, r in decls:
        if r.returncode:
            return                         # reported above
        for l in r.stdout.splitlines():
            k, usr, where, name = l.split('\t')
            if k == 'D':
                defined.add(usr)
            elif where.startswith(os.path.join(REPO, 'include')):
                declared[usr] = (where.replace(REPO + '/', ''), name)
    if len(declared) < 500:
        raise harness.CheckError('only %d declarations found' % len(declared))
    ctx.analysed['declarations in headers'] = len(declared)
    for usr, (where, name) in sorted(declared.items()):
        if usr in defined:
            ctx.ok('%s is defined' % name)
        else:
            scope = '::'.join(re.findall(r'@(?:N|S|ST>[^@]*)@(\w+)', usr.split('@F@')[0]))
            ctx.fail('%s is defined' % name, 'declared in a public header, defined nowhere', where,
                     key='%s::%s' % (scope, re.sub(r'\(.*', '', name)))
