#!/usr/bin/env python3
"""Decide one property: compile /repo's current sources and the property's harness to LLVM IR, execute the
harness symbolically, replay every counterexample against the natively compiled code, write the evidence.
usage: run.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep] [-v]"""
import sys, os, re, json, subprocess, tempfile, shutil, time, fcntl, glob, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
NPROC = os.cpu_count() or 4
EVID = os.environ.get('SX_EVID', os.path.join(HERE, 'evidence'))
T0 = time.time()
IRFLAGS = ('-std=c++11 -O1 -g -Xclang -disable-llvm-passes -ffp-contract=off -D_GLIBCXX_ASSERTIONS '
           '-fno-discard-value-names -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -w').split()
OPT2 = ('function(sroa,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;'
        'no-speculate-blocks;no-simplify-cond-branch>)')
# findings of these kinds are limits of the machinery, never reported
LIMITS = ('unsupported', 'unmodelled', 'stack depth limit', 'function memory', 'sx_', 'assume on',
          'double used as integer')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def die(msg):
    print('ERROR: ' + msg); sys.exit(3)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(BUILD, 'symex')
        src = glob.glob(os.path.join(HERE, 'engine', '*'))
        if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(s) for s in src):
            return exe
        r = sh(['bash', os.path.join(HERE, 'engine', 'build.sh'), BUILD])
        if r.returncode: die('engine build failed\n' + r.stdout[-3000:])
        return exe

class Entry:
    def __init__(s, name, file, opts): s.name, s.file, s.o = name, file, opts

def parse_entries(prop, tier, only):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', prop + '*.cc'))):
        for line in open(f):
            m = re.match(r'//\s*@h\s+(\w+)\s*(.*)', line)
            if not m: continue
            o = dict(kv.split('=', 1) for kv in m.group(2).split())
            o.setdefault('mode', 'fpu')
            if o.get('tier') == 'thorough' and tier != 'thorough': continue
            if tier == 'thorough':
                for k in list(o):
                    if k.startswith('t_'): o[k[2:]] = o[k]
            if only and m.group(1) not in only.split(','): continue
            out.append(Entry(m.group(1), f, o))
    return out

def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cc'), recursive=True))

def main():
    args = sys.argv[1:]; prop = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; verbose = False
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 1
        elif args[i] == '--only': only = args[i + 1]; i += 1
        elif args[i] == '--keep': keep = True
        elif args[i] == '-v': verbose = True
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exe = build_engine()
    work = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    try:
        rc = run(prop, tier, seed, exe, work, only, verbose)
    finally:
        if keep: print('work dir', work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def run(prop, tier, seed, exe, work, only, verbose):
    entries = parse_entries(prop, tier, only)
    if not entries: die('no harness for ' + prop)
    budget = 840 if tier == 'quick' else 3300
    pool = ThreadPoolExecutor(NPROC)
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness')]
    irinc = ['-isystem', os.path.join(HERE, 'runtime', 'stubs')]
    bc = os.path.join(work, 'bc'); os.mkdir(bc)
    srcs = repo_sources()
    hfiles = sorted({e.file for e in entries})
    def ir(src, out): return sh(['clang++'] + IRFLAGS + irinc + inc + ['-c', src, '-o', out])
    jobs = {}
    for k, s in enumerate(srcs): jobs[pool.submit(ir, s, os.path.join(bc, '%d.bc' % k))] = s
    for h in hfiles: jobs[pool.submit(ir, h, os.path.join(work, os.path.basename(h) + '.bc'))] = h
    jobs[pool.submit(ir, os.path.join(HERE, 'runtime', 'sx_model.cc'), os.path.join(work, 'model.bc'))] = 'model'
    for f in as_completed(jobs):
        if f.result().returncode: die('compiling %s failed\n%s' % (jobs[f], f.result().stdout[-3000:]))
    for h in hfiles:
        r = sh(['llvm-link-18'] + sorted(glob.glob(bc + '/*.bc')) + [os.path.join(work, os.path.basename(h) + '.bc'),
               os.path.join(work, 'model.bc'), '-o', os.path.join(work, os.path.basename(h) + '.linked.bc')])
        if r.returncode: die('link failed\n' + r.stdout[-3000:])
    nat = Native(work, srcs, inc, pool)
    # ---- symbolic execution of every entry
    def one(e):
        base = os.path.join(work, e.name)
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + e.name,
                os.path.join(work, os.path.basename(e.file) + '.linked.bc'), '-o', base + '.1.bc'])
        if r.returncode: return e, None, 'opt: ' + r.stdout[-2000:]
        r = sh(['opt-18', '-passes=' + OPT2, base + '.1.bc', '-o', base + '.2.bc'])
        if r.returncode: return e, None, 'opt: ' + r.stdout[-2000:]
        left = budget - (time.time() - T0)
        wall = max(5, min(float(e.o.get('wall', 60 if tier == 'quick' else 600)), left - 20))
        cmd = [exe, base + '.2.bc', '--entry', e.name, '--mode', e.o['mode'], '--unwind', e.o.get('unwind', '8'),
               '--timeout', e.o.get('timeout', '4000'), '--wall', str(wall), '--seed', str(seed), '--out', base + '.json']
        for k in ('paths', 'samples', 'deep', 'search', 'dag', 'steps'):
            if k in e.o: cmd += ['--' + k, e.o[k]]
        if e.o.get('guided') == '1': cmd += ['--guided']
        if tier == 'thorough' or e.o.get('cross') == '1': cmd += ['--cross']
        try: r = sh(['bash', '-c', 'ulimit -v 24000000; exec "$@"', 'x'] + cmd, timeout=wall * 1.5 + 60)
        except subprocess.TimeoutExpired: return e, None, 'timeout'
        if not os.path.exists(base + '.json'): return e, None, 'engine ended with %d: %s' % (r.returncode, r.stdout[-1500:])
        return e, json.load(open(base + '.json')), ''
    nat.start(hfiles, entries)
    order = sorted(entries, key=lambda e: -float(e.o.get('wall', 60)))
    results = []
    epool = ThreadPoolExecutor(NPROC)
    for f in as_completed([epool.submit(one, e) for e in order]):
        e, j, err = f.result(); results.append((e, j, err))
        if verbose:
            if j: print('%-28s %-4s paths %d cut %d pend %d q %d unk %d find %d undec %d %.1fs' % (e.name, j['mode'], j['paths'], j['cut_paths'],
                     j['pending'], j['queries'], j['unknown'], len(j['findings']), len(j['undecided']), j['wall_s']))
            else: print('%-28s FAILED %s' % (e.name, err))
            sys.stdout.flush()
    results.sort(key=lambda r: r[0].name)
    # ---- replay
    known = load_known(prop)
    rdir = os.path.join(EVID, 'replays', prop); shutil.rmtree(rdir, ignore_errors=True)
    viol = []; known_hit = set(); notrep = []; limits = []
    todo = []
    for e, j, err in results:
        if not j: limits.append({'entry': e.name, 'msg': err[:400]}); continue
        for f in j['findings']:
            if f['kind'] == 'error' and f['msg'].startswith(LIMITS): limits.append({'entry': e.name, 'msg': f['msg'], 'where': f['where'][:300]}); continue
            todo.append((e, f))
        for f in j['undecided']:
            limits.append({'entry': e.name, 'msg': ('undecided ' + f['kind'] + ': ' + f['msg']), 'where': f['where'][:300], 'choices': f['choices']})
    reps = list(pool.map(lambda ef: nat.replay(ef[0], ef[1]), todo))
    for (e, f), (ok, log) in zip(todo, reps):
        rec = {'entry': e.name, 'kind': f['kind'], 'msg': f['msg'], 'where': f['where'][:600], 'inputs': f['inputs'], 'choices': f['choices']}
        if not ok: rec['native'] = log[-600:]; notrep.append(rec); continue
        kf = match_known(known, e, f)
        if kf is not None: known_hit.add(kf); continue
        viol.append((e, f, log))
    # ---- witness paths on the native build (translator validation)
    wit = [(e, w) for e, j, _ in results if j for w in j['witnesses']]
    wrep = list(pool.map(lambda ew: nat.witness(*ew), wit))
    wok = sum(1 for r in wrep if r == 'ok'); wbad = [{'entry': ew[0].name, 'result': r, 'inputs': ew[1]['inputs'], 'choices': ew[1]['choices']} for ew, r in zip(wit, wrep) if r != 'ok']
    # ---- report
    seen = set(); nviol = 0
    for e, f, log in viol:
        key = (e.name, f['kind'], f['msg'])
        if key in seen: continue
        seen.add(key); nviol += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (e.name, nviol))
        json.dump({'property': prop, 'entry': e.name, 'harness': os.path.relpath(e.file, HERE), 'kind': f['kind'], 'what': f['msg'], 'where': f['where'],
                   'inputs': f['inputs'], 'choices': f['choices'], 'native_log': log[-4000:],
                   'replay_cmd': 'python3 /verif/replay.py ' + path}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s %s: %s  at %s' % (e.name, f['kind'], f['msg'], f['where'][:300]))
        print('  inputs %s choices %s' % (json.dumps(f['inputs'])[:600], json.dumps(f['choices'])[:300]))
    for k in known:
        if k['id'] in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    write_evidence(prop, tier, seed, results, nviol, notrep, limits, sorted(known_hit), len(wit), wok, wbad)
    tot = lambda k: sum(j[k] for _, j, _ in results if j)
    na = sum(a['reached'] for _, j, _ in results if j for a in j['asserts'].values())
    print('%s %s: %d entries, %d paths (%d cut by bounds), %d assertion instances, %d queries, solver %.1fs, %d/%d witness replays agree, %d unreproduced, %d limits, wall %.1fs -> %s'
          % (prop, tier, len(results), tot('paths'), tot('cut_paths'), na, tot('queries'), tot('solver_s'), wok, len(wit), len(notrep), len(limits), time.time() - T0,
             'VIOLATED' if nviol else 'held'))
    if verbose:
        seen = {}
        for x in limits + notrep + wbad: seen.setdefault((x.get('entry'), x.get('msg', x.get('result', ''))), []).append(x)
        for v in seen.values(): print('   note x%d' % len(v), json.dumps(v[0])[:600])
    return 1 if nviol else 0

class Native:
    """Native builds of /repo's sources plus the harness, for replay."""
    VAR = {'plain': ['-O1', '-ffp-contract=off'],
           'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer'],
           'dbg': ['-O0', '-g', '-D_GLIBCXX_ASSERTIONS']}
    def __init__(s, work, srcs, inc, pool):
        import threading
        s.work, s.srcs, s.inc = work, srcs, inc; s.lock = {v: threading.Lock() for v in s.VAR}; s.lib = {}; s.exe = {}; s.pool = ThreadPoolExecutor(NPROC)
        s.elock = threading.Lock(); s.elocks = {}
        s.threading = threading
    def start(s, hfiles, entries): pass
    def getlib(s, v):
        with s.lock[v]:
            if v in s.lib: return s.lib[v]
            d = os.path.join(s.work, 'n_' + v); os.makedirs(d)
            cc = 'clang++' if v == 'asan' else 'g++'
            rs = list(s.pool.map(lambda ks: sh([cc, '-std=c++11', '-w'] + s.VAR[v] + s.inc + ['-c', ks[1], '-o', d + '/%d.o' % ks[0]]), enumerate(s.srcs)))
            for r in rs:
                if r.returncode: die('native build failed\n' + r.stdout[-2000:])
            a = os.path.join(d, 'lib.a'); sh(['ar', 'rcs', a] + glob.glob(d + '/*.o'))
            s.lib[v] = a; return a
    def getexe(s, e, v):
        lib = s.getlib(v)
        with s.elock: lk = s.elocks.setdefault((e.name, v), s.threading.Lock()); hl = s.elocks.setdefault((e.file, v), s.threading.Lock())
        cc = 'clang++' if v == 'asan' else 'g++'
        ho = os.path.join(s.work, 'n_' + v, os.path.basename(e.file) + '.o')
        with hl:
            if not os.path.exists(ho):
                r = sh([cc, '-std=c++11', '-w'] + s.VAR[v] + s.inc + ['-c', e.file, '-o', ho])
                if r.returncode: die('native harness build failed\n' + r.stdout[-2000:])
        with lk:
            x = os.path.join(s.work, 'n_' + v, e.name)
            if not os.path.exists(x):
                r = sh([cc, '-std=c++11', '-w'] + s.VAR[v] + s.inc + ['-DSX_ENTRY=' + e.name, os.path.join(HERE, 'runtime', 'sx_native.cc'), ho, lib, '-o', x])
                if r.returncode: die('native link failed\n' + r.stdout[-2000:])
            return x
    def go(s, e, v, f, pre=(), tmo=60):
        x = s.getexe(e, v)
        fd, fn = tempfile.mkstemp(dir=s.work); os.close(fd); write_replay(fn, f)
        env = dict(os.environ, SX_REPLAY=fn, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0')
        try: r = sh(list(pre) + [x], env=env, timeout=tmo, cwd=s.work)
        except subprocess.TimeoutExpired: return 'timeout', 'native run exceeded %ds' % tmo
        return r.returncode, r.stdout
    def replay(s, e, f):
        """(reproduced, log)"""
        rc, log = s.go(e, 'plain', f)
        if f['kind'] == 'assert':
            return (rc == 42 and ('SX_ASSERT_FAIL ' + f['msg']) in log), log
        if rc not in (0, 42, 'timeout'): return True, 'plain build: exit %s\n%s' % (rc, log)
        if rc == 42: return True, 'plain build: ' + log
        rc, log = s.go(e, 'asan', f)
        if rc not in (0, 42, 'timeout'): return True, 'sanitizer build: exit %s\n%s' % (rc, log)
        if 'uninitialised' in f['msg']:
            rc, log = s.go(e, 'dbg', f, pre=['valgrind', '-q', '--error-exitcode=99', '--expensive-definedness-checks=yes'], tmo=200)
            if rc == 99: return True, log
        return False, log
    def witness(s, e, w):
        rc, log = s.go(e, 'plain', w, tmo=30)
        if rc == 0 and 'SX_OK' in log: return 'ok'
        if rc == 0: return 'assumption false natively'
        return 'exit %s %s' % (rc, log[-200:])

def write_replay(fn, f):
    with open(fn, 'w') as o:
        for k, v in f['inputs'].items(): o.write('v %s %s\n' % (k, v))
        for k, v in f['choices']: o.write('c %s %d\n' % (k, v))

def load_known(prop):
    fn = os.path.join(HERE, 'known_findings.jsonl'); out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l or l.startswith('#') or not l.startswith('{'): continue
            k = json.loads(l)
            if k.get('property') == prop and k.get('status', 'open') == 'open': out.append(k)
    return out

def match_known(known, e, f):
    for k in known:
        if k['entry'] != e.name or k['kind'] != f['kind'] or k['msg'] != f['msg']: continue
        if 'where' in k and k['where'] not in f['where']: continue
        ch = dict((a, b) for a, b in f['choices'])
        if all(ch.get(a) == b for a, b in k.get('choices', {}).items()): return k['id']
    return None

def write_evidence(prop, tier, seed, results, nviol, notrep, limits, known_hit, nwit, wok, wbad):
    ent = []; fns = set(); stubs = set()
    S = lambda k: sum(j[k] for _, j, _ in results if j)
    proved = reached = structural = 0
    for e, j, err in results:
        if not j: ent.append({'entry': e.name, 'error': err[:300]}); continue
        fns.update(j['functions']); stubs.update(j['stubs'])
        for a in j['asserts'].values(): reached += a['reached']; proved += a['proved']; structural += a['structural']
        ent.append({'entry': e.name, 'mode': j['mode'], 'loop_unwind': j['unwind'], 'query_timeout_ms': j['query_timeout_ms'], 'paths': j['paths'],
                    'paths_cut_at_bound': j['cut_paths'], 'paths_left_at_time_limit': j['pending'], 'cut_where': j['cut_where'][:6], 'symbolic_inputs': j['symbols'],
                    'queries': j['queries'], 'unsat': j['unsat'], 'sat': j['sat'], 'unknown': j['unknown'], 'normal_form_decided': j['ring_decided'],
                    'solver_s': round(j['solver_s'], 3), 'asserts': j['asserts'], 'vacuity_reached': j['reach'],
                    'vacuous_asserts': [l for l, a in j['asserts'].items() if a['reached'] and not a['witnessed']]})
    samples = [{'entry': e.name, 'inputs': w['inputs'], 'choices': w['choices']} for e, j, _ in results if j for w in j['witnesses'][:1]][:5]
    cov = {'explanation': 'bounded symbolic execution of the LLVM IR of /repo\'s current sources; every assertion instance on every explored path is decided by the solver (or by '
                          'normal form in REAL mode) for all input values in the stated ranges; counterexamples count only after native replay',
           'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': wok, 'samples': samples,
           'assertion_instances': reached, 'assertion_instances_proved': proved, 'decided_syntactically': structural,
           'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'queries_unknown': S('unknown'), 'solver_s': round(S('solver_s'), 2),
           'cvc5_cross_checked': S('cross_ok'), 'cvc5_disagree': S('cross_bad'),
           'paths_cut_at_loop_bound': S('cut_paths'), 'paths_left_at_time_limit': S('pending'), 'exhaustive': False,
           'witness_replays': nwit, 'witness_replays_agreeing': wok, 'witness_replays_differing': wbad[:10],
           'counterexamples_not_reproduced': notrep[:20], 'undecided_or_unsupported': limits[:60], 'undecided_or_unsupported_count': len(limits),
           'known_findings_hit': known_hit, 'functions_encoded': sorted(fns), 'stubs_and_models': sorted(stubs), 'entries': ent}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - T0, 2), 'violations': nviol,
          'assumptions': ['fpu mode: double arithmetic and libm are uninterpreted functions with sign/monotonicity axioms, comparisons exact, +0 and -0 identified; verdicts hold for any such functions',
                          'fpx mode: bit-precise IEEE binary64', 'real mode: doubles read as real numbers, decimal constants exact; the claim is about exact arithmetic, rounding is outside it',
                          'operator new never fails; iostream formatting is stubbed in the IR build', 'input ranges and loop bounds per entry as listed in the harness and here']}
    os.makedirs(EVID, exist_ok=True)
    fn = os.path.join(EVID, prop + '.json')
    json.dump(ev, open(fn + '.tmp', 'w'), indent=1); os.replace(fn + '.tmp', fn)

if __name__ == '__main__': main()
