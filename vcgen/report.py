"""Decision procedure of one check and its evidence file."""
import os, sys, json, time, tempfile, shutil, glob, re, subprocess
from . import driver as D

ROOT = D.ROOT
ASSUME_BASE = [
    'clang 18 front end and LLVM sroa translate the C++ source faithfully to IR',
    'the VC generator vcgen/exec.py (memory model, exception model, library models) and z3 are correct',
    'operator new never fails; nothing else runs concurrently',
]
ASSUME_REAL = 'floating-point arithmetic is treated as exact real arithmetic (rounding, overflow and NaN are outside the proof), but narrowing a double to float where the types in use do not ask for it is a failed obligation'


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def main(a):
    t0 = time.time()
    prop, tier = a.prop, os.environ.get('VERIF_TIER') if False else a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        return check(a, prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, prop, tier, seed, tmp, t0):
    files = sorted(glob.glob(os.path.join(ROOT, 'specs', prop + '.cpp')) + glob.glob(os.path.join(ROOT, 'specs', prop + '_*.cpp')))
    if not files:
        print('no specification for', prop); return 2
    replays = os.path.join(ROOT, 'replays')
    os.makedirs(replays, exist_ok=True)
    if a.replay:
        for f in files:
            s = D.Suite(f)
            if open(a.replay).read().startswith('program '):
                mod, text = D.extract(s, tmp)
                print(text[:3000] if mod is None else s.name + ' compiles')
                if mod is None: return 1
                continue
            exe, msg = D.native(s, tmp)
            if not exe: print(msg); continue
            bad, out = D.replay_native(exe, a.replay)
            print(out)
            if bad: return 1
        return 0
    budget = 600 if tier == 'quick' else 800
    deadline = t0 + budget * 0.72
    uses = {}; loops = set()
    obligations = []; errors = []; funcs = set(); models = set(); solver_s = exec_s = 0.0
    violations = []; undecided = []; bounded = []; vac = 0; paths = 0; trivial = 0
    backends = {}; broken = []
    anyreal = False
    stats = {'evaluations': 0, 'distinct': 0, 'samples': []}
    if a.suite: files = [f for f in files if re.search(a.suite, os.path.basename(f))]
    for f in files:
        s = D.Suite(f)
        native_only = s.opts.get('mode') == 'native'
        if native_only:
            bounded += native_suite(s, prop, tier, seed, tmp, replays, violations, broken, t0, stats)
            continue
        mod, text = D.extract(s, tmp)
        if mod is None:
            if 'internal' in s.opts:
                # refers to the representation, which may change freely
                undecided.append((s.name, 'the representation it refers to is gone')); continue
            if D.headers_compile(s, tmp) and os.path.join(D.REPO, 'nytl') in text:
                # the specification is a program using the documented interface: the headers compile, it is rejected
                path = os.path.join(replays, '%s-%s-program.txt' % (prop, s.name))
                with open(path, 'w') as g:
                    g.write('program specs/%s.cpp\n# the headers compile, a program using their documented interface does not:\n# %s\n' % (s.name, text[:6000].replace('\n', '\n# ')))
                obligations.append((s.name, 'the program is accepted', 'ensure', 'refuted', 'clang'))
                # where the property quantifies over programs, this one is the failing input
                violations.append({'key': s.name + '/program-rejected', 'replay': path, 'input': 'programs' in s.opts})
                continue
            broken.append((s.name, text[-3000:])); continue
        anyreal = anyreal or ' double ' in text
        hs = D.harnesses(mod, tier)
        if a.only: hs = [h for h in hs if re.search(a.only, h)]
        rs = D.run_all(mod, s, hs, tier, deadline)
        for h in hs:
            r = rs[h]
            paths += r.paths; trivial += r.trivial
            solver_s += r.solver_s; exec_s += r.exec_s
            funcs |= set(r.calls)
            for m in r.models:
                k, _, n = m.partition(': ')
                if k.startswith('contract'): uses[n] = next((w for rx, w in s.why if rx.search(n)), 'assumed')
                elif k == 'loop contract': loops.add(n)
                else: models.add(m)
            need = []
            for i, v in enumerate(r.vcs):
                label, kind, where, st, be, model, picks, order = v
                obligations.append((h, label, kind, st, be))
                if st == 'proved': backends[be] = backends.get(be, 0) + 1
                else: need.append(v)
            if a.v:
                print('%-40s paths=%d steps=%d vcs=%d open=%d exec=%.1fs solve=%.1fs %s' % (h, r.paths, r.steps, len(r.vcs), len(need), r.exec_s, r.solver_s, r.err or ''))
                for v in need[:8]: print('    open:', v[0], v[3], v[4], 'at', v[2][:150], v[5], v[6])
            if not r.err and not any(v[1] == 'ensure' for v in r.vcs):
                errors.append((h, 'no obligation generated'))
            if r.err: errors.append((h, r.err))
            if need or r.err or not any(v[1] == 'ensure' for v in r.vcs):
                decide_open(s, h, r, need, prop, tier, seed, tmp, replays, violations, undecided, bounded, a)
    if any(v['input'] for v in violations): violations = [v for v in violations if v['input']]
    wall = time.time() - t0
    kf = known_findings(prop)
    live = []
    for v in violations:
        hit = None
        for key, what in kf:
            if key == v['key'] or v['key'].startswith(key): hit = (key, what)
        if hit: print('KNOWN-FINDING: property=%s %s' % (prop, hit[1]))
        else: live.append(v)
    proved = sum(1 for o in obligations if o[3] == 'proved')
    own = re.compile(r'^@?"?_ZZ?(TH|N[KVRO]*)4nytl')
    nyt = sorted(set(demangle(sorted(f for f in funcs if own.search(f)))))
    lib = sorted(set(demangle(sorted(f for f in funcs if not own.search(f) and re.search(r'^@?"?_Z[ZN]*[KVRO]*(St|S[abcdiost]|9__gnu_cxx)', f)))))
    un = sorted(uses); dm = demangle(un)
    contracts = ['%s: %s' % (d, uses[n]) for n, d in zip(un, dm)]
    ln = sorted(loops); dl = demangle([x.split(' for ', 1)[1] for x in ln])
    invariants = ['%s: invariant %s' % (d, x.split(' for ', 1)[0]) for x, d in zip(ln, dl)]
    assumptions = list(ASSUME_BASE)
    if anyreal: assumptions.append(ASSUME_REAL)
    assumptions += ['contract of ' + c for c in contracts if ': verified' not in c]
    assumptions += ['library model: ' + m for m in sorted(models) if not m.startswith('vc_') and not m.startswith('llvm.')]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level(prop),
        'coverage': {
            'obligations': len(obligations), 'discharged': proved, 'trivially_true_safety_obligations': trivial,
            'paths': paths, 'harnesses': len(set(o[0] for o in obligations)),
            'functions_under_contract': nyt[:400], 'library_functions_verified_along': lib[:400],
            'callee_contracts_used': contracts, 'loop_invariants': invariants, 'backends': backends,
            'solver_s': round(solver_s, 2), 'vc_generation_s': round(exec_s, 2),
            'undecided': ['%s: %s' % u for u in undecided][:60] + ['%s: %s' % (n, 'does not compile') for n, _ in broken],
            'bounded_stand_ins': bounded[:60],
            'checker_cmd': 'python3-vt %s/check.py %s --tier %s' % (ROOT, prop, tier),
            'trusted_base': ['clang 18', 'LLVM sroa', 'vcgen (VC generator, memory/exception/library models, polynomial prover)', 'z3'],
        },
        'assumptions': assumptions, 'wall_s': round(wall, 2),
        'violations': len(live),
        'violation_list': [{'key': v['key'], 'replay': v['replay'], 'input': v['input']} for v in live],
    }
    if stats['evaluations']:
        ev['coverage'].update({
            'evaluations': stats['evaluations'], 'distinct_nontrivial': stats['distinct'],
            'rule': 'bounded stand-in: every sequence of choices of the harness up to the stated number of actions (distinct by construction), then random ones',
            'samples': stats['samples'][:6]})
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for n, m in broken: print('BROKEN: %s does not compile against the current tree\n%s' % (n, m))
    for u in undecided: print('UNDECIDED: %s: %s' % u)
    for b in bounded: print('BOUNDED: %s' % (b,))
    shown = set()
    for v in live:
        print('VIOLATION property=%s replay=%s%s' % (prop, v['replay'], '' if v['input'] else ' no-failing-input-found'))
        print('  obligation: %s' % v['key'])
    print('%s %s: %d obligations, %d discharged, %d undecided, %d bounded, %.1fs' % (prop, tier, len(obligations), proved, len(undecided), len(bounded), wall))
    if live: return 1
    if broken and not obligations and not bounded: return 2
    if broken: return 2
    return 0


def level(prop):
    try: return next(c['level'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks'] if c['property'] == prop)
    except (OSError, StopIteration, ValueError): return 'proof'


def slug(x): return re.sub(r'[^A-Za-z0-9]+', '-', x)[:60].strip('-')


def decide_open(s, h, r, need, prop, tier, seed, tmp, replays, violations, undecided, bounded, a):
    """the harness has open obligations: look for a real failing input"""
    # a specification of the representation: its states are not reached through the interface, so nothing is replayed
    exe, msg = D.native(s, tmp) if 'internal' not in s.opts else (None, '')
    found = False
    cands = sorted([v for v in need if v[3].startswith('refuted')], key=lambda v: (v[1] != 'ensure', v[3] != 'refuted'))
    seen = set()
    if exe:
        n = 0
        for v in cands:
            if (v[0], v[3]) in seen: continue
            if n >= 12: break
            n += 1
            path = os.path.join(replays, '%s-%s-%s.txt' % (prop, h, slug(v[0])))
            D.write_replay(path, h, v, v[5])
            bad, out = D.replay_native(exe, path)
            if bad:
                with open(path, 'a') as f: f.write('# ' + out.replace('\n', '\n# ') + '\n')
                violations.append({'key': h + '/' + slug(v[0]), 'replay': path, 'input': True})
                found = True; seen.add((v[0], v[3]))
                break
            os.unlink(path)
        if not found:
            runs = int(s.opts.get('fuzz', 20000)) * (10 if tier == 'thorough' else 1)
            bad, out = D.fuzz_native(exe, h, seed, runs, 20 if tier == 'quick' else 60)
            if bad:
                m = re.search(r'^FAILED \S+ ?(.*)$', out, re.M)
                path = os.path.join(replays, '%s-%s-fuzz.txt' % (prop, h))
                write_fuzz_replay(path, h, out)
                violations.append({'key': h + '/' + slug(m.group(1) if m else 'crash'), 'replay': path, 'input': True})
                found = True
    if found: return
    hard = [v for v in need if v[3] == 'refuted']
    # a specification of the representation whose callee or loop contracts do not fit the code any more decides nothing
    if hard and 'norefute' not in s.opts and not ('internal' in s.opts and r.err):
        v = hard[0]
        path = os.path.join(replays, '%s-%s-%s.txt' % (prop, h, slug(v[0])))
        D.write_replay(path, h, v, v[5])
        with open(path, 'a') as f:
            f.write('# no failing input found natively; the solver refuted this obligation of the current source\n')
        violations.append({'key': h + '/' + slug(v[0]), 'replay': path, 'input': False})
        return
    for v in need: undecided.append((h, '%s (%s %s)' % (v[0], v[3], v[4])))
    if r.err: undecided.append((h, r.err))
    if 'internal' not in s.opts: bounded.append('%s: native stand-in, %s' % (h, ('random inputs, seed %d: no failure' % seed) if exe else 'does not compile natively'))


def write_fuzz_replay(path, h, out):
    vals = []; picks = []
    with open(path, 'w') as f:
        f.write('harness %s\n' % h)
        for l in out.split('\n'):
            m = re.match(r'^  (.*) = (.*)$', l)
            if m:
                f.write('set %s %s\n' % (m.group(2), m.group(1)))
                if re.match(r'^pick', m.group(1)): f.write('pick %s\n' % m.group(2))
        f.write('# ' + out.replace('\n', '\n# ') + '\n')


def native_suite(s, prop, tier, seed, tmp, replays, violations, broken, t0, stats):
    """bounded stand-in: all choices up to a depth (optimised build), random ones beyond it (sanitised build)"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        (exe, msg), (san, msg2) = ex.map(lambda pl: D.native(s, tmp, pl), [True, False])
    if not exe or not san:
        broken.append((s.name, (msg or msg2)[-3000:])); return []
    hs = D.run([exe, '--list'], timeout=60).stdout.split()
    if tier == 'quick': hs = [h for h in hs if not h.endswith('_thorough')]
    q = tier == 'quick'
    secs = float(s.opts.get('enumsecs', 25)) if q else 250
    dep = int(s.opts.get('depth', 4)) + (0 if q else 4)
    runs = int(s.opts.get('runs', 60000)) * (1 if q else 20)
    jobs = []
    for h in hs:
        if 'noenum' not in s.opts: jobs.append((h, [exe, '--harness', h, '--enum', str(secs), '--depth', str(dep)]))
        jobs.append((h, [san, '--harness', h, '--fuzz', str(runs), '--seed', str(seed), '--secs', str(15 if q else 150)]))
    def go(j):
        try: return D.run(j[1], timeout=850, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', VERIF_TIER=tier))
        except subprocess.TimeoutExpired: return None
    out = []; failed = set()
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(go, jobs))
    for (h, cmd), r in zip(jobs, rs):
        if r is None: out.append('%s: no end' % h); continue
        if r.returncode not in (0, 2, 3):
            if h in failed: continue
            failed.add(h)
            m = re.search(r'^FAILED (\S+?):? (.*)$', r.stdout, re.M)
            path = os.path.join(replays, '%s-%s-%s.txt' % (prop, s.name, h))
            write_fuzz_replay(path, h, r.stdout[-12000:])
            violations.append({'key': s.name + '/' + h + '/' + slug(m.group(2) if m else 'crash'), 'replay': path, 'input': True})
        for l in r.stdout.split('\n'):
            m = re.match(r'^OK (\S+) enumerated=(\d+) depth=(-?\d+) complete=(\d+) nontrivial=(\d+) checked=(\d+) sample=(.*)$', l)
            if m:
                stats['evaluations'] += int(m.group(2)); stats['distinct'] += int(m.group(4))
                stats['samples'].append('%s: choices %s' % (h, m.group(7)))
                out.append('%s: all %s choice sequences with at most %s actions' % (h, m.group(4), m.group(3)))
            m = re.match(r'^OK (\S+) runs=(\d+) checked=(\d+)$', l)
            if m:
                stats['evaluations'] += int(m.group(2))
                out.append('%s: %s random cases, seed %d, with address and undefined behaviour sanitizers' % (h, m.group(2), seed))
    return out
