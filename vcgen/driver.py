"""Runs the verification of one property: extraction, VC generation, discharge, replay."""
import os, sys, re, subprocess, time, json, pickle, select, signal, hashlib, shutil, tempfile
from fractions import Fraction
from . import ir, terms, solve
from .exec import Exec, VC
from .ir import Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
BASE = ['-std=c++17', '-include', 'cstdint', '-I' + REPO, '-I' + ROOT + '/specs', '-Wno-everything']


class Suite:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        t = open(path).read()
        self.flags = []
        self.opts = {}
        self.pure = [(re.compile(m.group(1)), m.group(2).split()) for m in re.finditer(r'^// vc-pure: (\S+) ([^-]*?)(?: +--.*)?$', t, re.M)]
        # // vc-contract: <function regex> -> <contract function> [-- where it is verified, or that it is assumed]
        self.contracts = [(re.compile(m.group(1)), m.group(2)) for m in re.finditer(r'^// vc-contract: (\S+) -> (\S+)', t, re.M)]
        self.why = [(re.compile(m.group(1)), (m.group(2) or 'assumed').strip()) for m in re.finditer(r'^// vc-contract: (\S+) -> \S+(?: +-- (.*))?$', t, re.M)]
        self.why += [(re.compile(m.group(1)), (m.group(2) or 'only assumed to be a function of its arguments').strip()) for m in re.finditer(r'^// vc-pure: (\S+) [^-]*(?:-- (.*))?$', t, re.M)]
        # // vc-loop: <function regex>[#<ordinal of the loop>] -> <function>(<variables>)
        self.loops = [(re.compile(m.group(1)), int(m.group(2)) if m.group(2) else None, m.group(3), [x.strip() for x in m.group(4).split(',') if x.strip()])
                      for m in re.finditer(r'^// vc-loop: (\S+?)(?:#(\d+))? -> (\w+)\(([^)]*)\)', t, re.M)]
        for m in re.finditer(r'^// vc-(\w+):\s*(.*)$', t, re.M):
            if m.group(1) == 'flags': self.flags += m.group(2).split()
            else: self.opts[m.group(1)] = m.group(2).strip()


def run(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def extract(suite, tmp):
    """real source -> LLVM IR (text).  Dropped by the extraction: nothing but debug info; allocas whose
    address does not escape are promoted to registers by LLVM's sroa."""
    ll, ll2 = os.path.join(tmp, suite.name + '.ll'), os.path.join(tmp, suite.name + '.s.ll')
    cmd = [CLANG] + BASE + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-ffp-contract=off',
           '-D_GLIBCXX_ASSERTIONS', '-fno-discard-value-names', '-g0', '-S', '-emit-llvm'] + ([] if 'overflow' in suite.opts else ['-fwrapv']) + \
          suite.flags + [suite.path, '-o', ll]
    r = run(cmd)
    if r.returncode: return None, r.stdout
    r = run([OPT, '-passes=sroa', '-S', ll, '-o', ll2])
    if r.returncode: return None, r.stdout
    return ir.Module(open(ll2).read()), open(ll2).read()


def headers_compile(suite, tmp):
    """the headers a specification includes compile on their own"""
    inc = '\n'.join(re.findall(r'^#include <nytl/.*$', open(suite.path).read(), re.M))
    p = os.path.join(tmp, 'headers.cpp')
    with open(p, 'w') as f: f.write(inc + '\nint main() {}\n')
    return run([CLANG] + BASE + suite.flags + ['-fsyntax-only', p]).returncode == 0


def native(suite, tmp, plain=False):
    exe = os.path.join(tmp, suite.name + ('.plain.exe' if plain else '.exe'))
    if os.path.exists(exe): return exe, ''
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow']
    if 'nosan' in suite.opts or plain: san = []
    cmd = [CLANG] + BASE + ['-O2' if plain else '-O1', '-g1', '-DVC_NATIVE', '-fno-strict-aliasing', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS'] + \
          ([] if 'overflow' in suite.opts else ['-fwrapv']) + san + suite.flags + \
          (['-DVC_TOL=' + suite.opts['tol']] if 'tol' in suite.opts else []) + \
          (['-DVC_NOROUND="%s"' % suite.opts['noround']] if 'noround' in suite.opts else []) + \
          [suite.path, ROOT + '/native/rt.cpp', '-o', exe]
    r = run(cmd, timeout=600)
    if r.returncode: return None, r.stdout
    return exe, ''


def harnesses(mod, tier):
    hs = [n[3:] for n, f in mod.funcs.items() if n.startswith('@h_') and f.lines is not None]
    if tier == 'quick': hs = [h for h in hs if not h.endswith('_thorough')]
    return sorted(hs)


class Result:
    def __init__(self, name):
        self.name = name
        self.vcs = []        # (label, kind, where, status, backend, model, picks, order)
        self.err = None
        self.paths = self.steps = self.trivial = 0
        self.calls = []; self.models = []
        self.solver_s = self.exec_s = 0
        self.vacuous = None


def interpreted(vc):
    """no function of the query is uninterpreted: a model is a genuine counterexample of the VC"""
    ok = {'var', 'den', 'sqrt', 'fresh', 'abs', 'zext', 'sext', 'ext', 'b2i', 'ite', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'udiv', 'urem', 'sdiv', 'srem', 'sel', 'base'}
    acc = set()
    def go(b):
        if not isinstance(b, terms.B): return
        for x in b.args:
            if isinstance(x, terms.Poly): solve.deep_atoms(x, acc)
            elif isinstance(x, terms.B): go(x)
    for c in vc.pc: go(c)
    go(vc.goal)
    return all(terms.Atom.byid[a].op in ok for a in acc)


def run_harness(mod, suite, h, tier, deadline, given=None):
    res = Result(h)
    opts = suite.opts
    t0 = time.time()
    ex = Exec(mod, maxsteps=int(opts.get('steps', 400000)), maxpaths=int(opts.get('paths', 6000)),
              check_overflow='overflow' in opts, feas_ms=int(opts.get('feasms', 300)))
    ex.unroll = int(opts.get('unroll', 0))
    ex.deadline = deadline
    ex.given = given
    ex.pure = suite.pure
    ex.contracts = suite.contracts
    ex.noround = bool(re.search(opts.get('noround', '$^'), h))
    ex.loop_inv = suite.loops
    try:
        cls = opts.get('plugin')
        if cls:
            import importlib
            ex.plugin = importlib.import_module('vcgen.' + cls)
            ex.plugin.install(ex)
        ex.run('h_' + h)
    except Unsupported as e:
        res.err = 'unsupported: %s' % e
    except terms.TooBig:
        res.err = 'term too large'
    except RecursionError:
        res.err = 'recursion limit'
    res.exec_s = time.time() - t0
    res.paths, res.steps, res.trivial = ex.done_paths, ex.total_steps, ex.trivial
    res.calls = sorted(ex.calls); res.models = sorted(ex.models)
    t0 = time.time()
    ms = int(opts.get('ms', 20000)) * (3 if tier == 'thorough' else 1)
    # group VCs with the same goal and path
    r = solve.prove_all([(v.pc, v.goal) for v in ex.vcs], ms=ms, jobs=int(opts.get('jobs', 2)), deadline=deadline)
    for v, (st, be, model) in zip(ex.vcs, r):
        if st == 'refuted' and not interpreted(v): st = 'refuted?'
        res.vcs.append((v.label, v.kind, v.where, st, be, model, v.picks, v.order))
    # vacuity: at least one complete path has a satisfiable path condition
    res.solver_s = time.time() - t0
    return res


def run_all(mod, suite, hs, tier, deadline, jobs=8):
    out = {}
    todo = list(hs); running = {}
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < jobs:
            h = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    sys.setrecursionlimit(20000)
                    try:
                        x = run_harness(mod, suite, h, tier, deadline)
                    except Exception as e:
                        import traceback
                        x = Result(h); x.err = 'internal error: %s' % traceback.format_exc()[-600:]
                    b = pickle.dumps(x)
                    with os.fdopen(w, 'wb') as f: f.write(b)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [pid, h, b'']
        rs, _, _ = select.select(list(running), [], [], 1.0)
        for r in list(running):
            pid, h, buf = running[r]
            fin = False
            if r in rs:
                b = os.read(r, 1 << 20)
                if b: running[r][2] += b
                else: fin = True
            if not fin and time.time() > deadline + 20:
                try: os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError: pass
                fin = True
            if fin:
                os.close(r); os.waitpid(pid, 0)
                try: out[h] = pickle.loads(running[r][2])
                except Exception:
                    x = Result(h); x.err = 'worker died'; out[h] = x
                del running[r]
    return out


def write_replay(path, h, vcinfo, model):
    label, kind, where, st, be, m, picks, order = vcinfo
    with open(path, 'w') as f:
        f.write('harness %s\n' % h)
        f.write('# obligation: %s\n# at: %s\n# status: %s %s\n' % (label, where, st, be))
        for p in picks: f.write('pick %d\n' % p)
        for k, v in sorted((model or {}).items()):
            if v[0] == 'r':
                f.write('set %s %s\n' % (v[1] if v[2] == 1 else '%d/%d' % (v[1], v[2]), k))
            else: f.write('set %d %s\n' % (v[1], k))


def replay_native(exe, path, timeout=60):
    try:
        r = run([exe, '--replay', path], timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired:
        return True, 'FAILED the call does not end within %d s' % timeout
    failed = r.returncode not in (0, 2, 3)
    return failed, r.stdout


def fuzz_native(exe, h, seed, n, secs):
    """returns (failing seed text or None, output)"""
    try:
        r = run([exe, '--harness', h, '--fuzz', str(n), '--seed', str(seed), '--secs', str(secs)], timeout=secs + 60,
                env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired as e:
        # the time limit is checked between the cases: one of them does not end
        return True, 'FAILED %s a case does not end within 60 s' % h
    return r.returncode not in (0, 2, 3), r.stdout


def parse_fail(out):
    """values printed by the native runtime -> model, picks"""
    vals = {}; picks = []
    for l in out.split('\n'):
        m = re.match(r'^  (.*) = (.*)$', l)
        if m: vals[m.group(1)] = m.group(2)
    return vals
