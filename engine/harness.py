"""Shared machinery of the checks: configuration, compilation to IR, evidence and reporting."""
import contextlib
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UM2_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = next((p for p in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++') if os.path.exists(p)), 'clang++')
IRDUMP = os.path.join(BUILD, 'bin', 'irdump')

DEFAULT = dict(UM2_ENABLE_ASSERTS=1, UM2_ENABLE_BMI2=1, UM2_ENABLE_FASTMATH=0, UM2_ENABLE_FLOAT64=1,
               UM2_ENABLE_SIMD_VEC=1, UM2_USE_BLAS_LAPACK=1, UM2_USE_CUDA=0, UM2_USE_GMSH=1,
               UM2_USE_MPACT_XSLIBS=0, UM2_USE_HDF5=1, UM2_USE_OPENMP=1, UM2_USE_PUGIXML=1)

# inline everything, unroll loops with constant trip counts, keep other loops in while form
_SIMPL = 'sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>'
_UNROLL = 'loop-simplify,lcssa,loop(indvars,loop-unroll-full)'
_GVN = 'sroa,early-cse<memssa>,gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>,simplifycfg'
PIPE_FIXED = ('globaldce,cgscc(inline),function(%s,%s,%s,%s,%s,%s,%s,dse,adce,loop-simplify,lcssa),globaldce' %
              (_SIMPL, _UNROLL, _GVN, _UNROLL, _GVN, _UNROLL, _GVN))
# no unrolling of anything: loops stay loops
PIPE_LOOPS = ('globaldce,cgscc(inline),function(%s,loop-simplify,lcssa,%s,loop-simplify,lcssa,adce),globaldce' % (_SIMPL, _GVN))
PIPE_PLAIN = 'function(sroa,early-cse<memssa>,simplifycfg)'


class CheckError(Exception):
    """The analysis itself cannot give an answer."""


def ensure_tools():
    def old(tool, src):
        return not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(os.path.join(VERIF, 'tools', src))
    if old(IRDUMP, 'irdump.cpp') or old(os.path.join(os.path.dirname(IRDUMP), 'decls'), 'decls.c'):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot build the analysis front end:\n' + r.stderr)


def gen_config(dst, **over):
    """Instantiate /repo's cmake/config.hpp.in the way configure_file would."""
    opts = dict(DEFAULT)
    opts.update(over)
    src = open(os.path.join(REPO, 'cmake', 'config.hpp.in')).read()

    def cd(m):
        n = m.group(1)
        return '#define %s %d' % (n, opts.get(n, 0))
    src = re.sub(r'#\s*cmakedefine01\s+(\w+)', cd, src)
    src = src.replace('@UM2_MAX_LOG_LEVEL@', str(over.get('MAX_LOG_LEVEL', 4)))
    src = re.sub(r'@\w+@', '', src)
    d = os.path.join(dst, 'um2')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'config.hpp'), 'w') as f:
        f.write(src)
    return dst


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level='other'):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.obl = []            # (name, ok, detail)
        self.viol = []
        self.errors = []
        self.known_hit = []
        self.cov = {}
        self.analysed = {}
        self.samples = []
        self.work = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.known = load_known(pid)
        self.assumptions = []
        self.rule = ''
        self.repo_fns = set()
        self.nir = 0

    # ---------------------------------------------------------------- building
    def config(self, **over):
        key = hashlib.sha1(repr(sorted(over.items())).encode()).hexdigest()[:10]
        d = os.path.join(self.work, 'cfg-' + key)
        if not os.path.isdir(d):
            gen_config(d, **over)
        return d

    def flags(self, cfg, extra=()):
        return ['-std=c++20', '-I' + cfg, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'probes'),
                '-isystem', '/usr/include/hdf5/serial', '-Wno-everything'] + list(extra)

    def bitcode(self, src, cfg=None, extra=(), tag='', exceptions=False, debug=True):
        cfg = cfg or self.config()
        out = os.path.join(self.work, '%s-%s.bc' % (os.path.basename(src).replace('.', '_'),
                                                   hashlib.sha1((cfg + repr(extra) + tag).encode()).hexdigest()[:8]))
        cmd = [CLANG] + self.flags(cfg, extra) + ['-O2', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off',
                                                  '-fno-math-errno', '-march=x86-64-v3', '-emit-llvm', '-c',
                                                  '-g' if debug else '-g0', src, '-o', out]
        if not exceptions:
            cmd.insert(1, '-fno-exceptions')
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot compile %s:\n%s' % (src, r.stderr[-4000:]))
        return out

    def irdump(self, bcs, roots, pipe=PIPE_FIXED, noinline='', opaque='', dump='', opts=()):
        from . import ir
        ensure_tools()
        if isinstance(bcs, str):
            bcs = [bcs]
        cmd = [IRDUMP, '-inline-threshold=1000000', '-unroll-threshold=1000000', '--pipe=' + pipe, '--roots=' + roots]
        if noinline:
            cmd.append('--noinline=' + noinline)
        if opaque:
            cmd.append('--opaque=' + opaque)
        if dump:
            cmd.append('--dump=' + dump)
        if os.environ.get('SAVE_LL'):
            cmd.append('--save-ll=' + os.environ['SAVE_LL'])
        cmd += list(opts) + list(bcs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('irdump failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
        m = ir.Module(json.loads(r.stdout))
        for f in m.functions.values():
            self.scan(f)
        return m

    def scan(self, f):
        for b in f['blocks']:
            for i in b['ins']:
                self.nir += 1
                for l in i.get('loc') or ():
                    p = l.split(':')
                    if p[0].startswith(REPO):
                        self.repo_fns.add(p[0].replace(REPO + '/', '') + ':' + p[-1])

    def probe_module(self, name, cfg=None, pipe=PIPE_FIXED, extra=(), **kw):
        src = os.path.join(VERIF, 'probes', name)
        bc = self.bitcode(src, cfg, extra)
        return self.irdump(bc, '^probe_[a-zA-Z0-9_]+$', pipe, **kw)

    # ---------------------------------------------------------------- obligations
    def ok(self, name, detail=''):
        self.obl.append((name, True, detail))

    def fail(self, name, detail, where='', key=None):
        """A violated obligation.  `key` identifies a known finding."""
        for k, text in self.known:
            if key is not None and k == key:
                self.known_hit.append((k, text))
                self.obl.append((name, True, 'known finding'))
                return
        self.obl.append((name, False, detail))
        self.viol.append(dict(obligation=name, where=where, detail=detail))

    def error(self, msg):
        self.errors.append(msg)

    @contextlib.contextmanager
    def guard(self, what):
        """Analysis failures inside are recorded (no answer) without hiding later violations."""
        from .alg import Unsupported
        from .vg import NeverReturns
        try:
            yield
        except (CheckError, Unsupported) as e:
            self.error('%s: %s' % (what, e))
        except NeverReturns as e:
            self.fail('%s returns' % what, 'every path of %s ends in a failed assertion or an error exit' % e.args[0], e.args[1])
        except Exception:
            self.error('%s: %s' % (what, traceback.format_exc()))

    def each(self, tasks, jobs=4):
        """Run (name, function) tasks in forked workers; what they record is merged in the order of the tasks."""
        pend, done = list(enumerate(tasks)), {}
        live = {}
        n = {k: len(getattr(self, k)) for k in ('obl', 'viol', 'errors', 'known_hit', 'samples')}
        base = dict(self.analysed)
        while pend or live:
            while pend and len(live) < jobs:
                k, (name, f) = pend.pop(0)
                out = os.path.join(self.work, 'task-%d' % k)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        with self.guard(name):
                            f()
                        r = {a: getattr(self, a)[i:] for a, i in n.items()}
                        r['analysed'] = {a: v - base.get(a, 0) for a, v in self.analysed.items() if isinstance(v, int)}
                        with open(out, 'wb') as h:
                            pickle.dump(r, h)
                        code = 0
                    finally:
                        os._exit(code)
                live[pid] = (k, name, out)
            pid, st = os.wait()
            if pid not in live:
                continue
            k, name, out = live.pop(pid)
            done[k] = (name, out, st)
        for k in sorted(done):
            name, out, st = done[k]
            if st:
                self.error('%s: the analysis ended without a result' % name)
                continue
            with open(out, 'rb') as h:
                r = pickle.load(h)
            for a in n:
                getattr(self, a).extend(r[a])
            for a, v in r['analysed'].items():
                self.analysed[a] = self.analysed.get(a, 0) + v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.setdefault('obligations', len(self.obl))
        cov.setdefault('discharged', sum(1 for o in self.obl if o[1]))
        cov['explanation'] = self.rule
        cov['analysed'] = dict(self.analysed, ir_instructions=self.nir, repo_functions=len(self.repo_fns))
        cov['repo_functions_sample'] = sorted(self.repo_fns)[:40]
        cov['obligation_names'] = [o[0] for o in self.obl][:400]
        cov['samples'] = self.samples
        if self.errors:
            cov['errors'] = self.errors[:20]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 3), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, text in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        if self.viol:
            d = os.path.join(BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + '.txt')
            with open(p, 'w') as f:
                for v in self.viol:
                    f.write('%s\n  at: %s\n  %s\n\n' % (v['obligation'], v['where'], v['detail']))
            for v in self.viol[:10]:
                print('  violated: %s\n    at: %s\n    %s' % (v['obligation'], v['where'], v['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print('ANALYSIS-ERROR: ' + e)
            return 2
        print('%s: %d obligations discharged, %d repo functions, %.1fs' % (
            self.pid, len(self.obl), len(self.repo_fns), wall))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run_check(pid):
    import importlib
    ctx = Ctx(pid)
    try:
        ensure_tools()
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(ctx)
    except CheckError as e:
        ctx.error(str(e))
    except Exception:
        ctx.error(traceback.format_exc())
    sys.exit(ctx.finish())
