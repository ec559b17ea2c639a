#!/usr/bin/env python3
"""Plants the bugs described in a spec file in scratch copies of /repo, confirms each and stores it under seeded/.
usage: plant.py SPEC.py [--check] [ID...]    --check: also run the property's check on the changed copy
A spec calls BUG(id, prop, [(file, old, new)...], demo, needs, breaks)."""
import sys, os, json, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def BUG(id, prop, edits, demo, needs, breaks): BUGS.append((id, prop, edits, demo, needs, breaks))
PRE = '''#include <cmath>
#include <cstdio>
#include <list>
#include <string>
#include <vector>
INCLUDES
static int failed = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); failed = 1; } } while (0)
#define NEAR(a, b, t) do { double a_ = (a), b_ = (b); if (!(std::fabs(a_ - b_) <= (t))) { std::printf("FAILED line %d: %s = %.12g, expected %.12g\\n", __LINE__, #a, a_, b_); failed = 1; } } while (0)
'''
SH = '''#!/bin/bash
# run with cwd at the repository root after its build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -w -I include "$D/demo.cc" $(find src -name '*.cc') -o "$W/demo" || exit 4
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
'''
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', shell=isinstance(cmd, str), **kw)
def one(b, check):
    id, prop, edits, demo, needs, breaks = b
    ok = False; wt = '/tmp/wt/' + id; shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/wt', exist_ok=True)
    try:
        sh(['git', 'clone', '-q', '/repo', wt])
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: return id, 'edit matches %d times in %s: %s' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', wt, 'diff']).stdout
        out = os.path.join(HERE, 'seeded', id); os.makedirs(out, exist_ok=True)
        m = re.match(r'((?:\s*#include[^\n]*\n)*)', demo.lstrip()); inc = m.group(1)
        body = demo.lstrip()[len(inc):]
        if 'int main' not in body: body = 'int main() {\n' + body.rstrip() + '\n  return failed;\n}\n'
        open(out + '/demo.cc', 'w').write(PRE.replace('INCLUDES', inc.strip()) + body)
        open(out + '/demo.sh', 'w').write(SH); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', out + '/demo.sh'], cwd='/repo')
        r1 = sh(['bash', out + '/demo.sh'], cwd=wt)
        if r0.returncode: return id, 'DEMO FAILS ON CLEAN: ' + r0.stdout[-600:]
        if r1.returncode in (0, 4): return id, 'DEMO DOES NOT FAIL (%d): %s' % (r1.returncode, r1.stdout[-300:])
        b = open('/opt/vp/build.sh').read().replace('/repo', wt); open(wt + '/b.sh', 'w').write(b)
        r = sh(['bash', wt + '/b.sh'])
        if r.returncode: return id, 'BUILD FAILED ' + r.stdout[-500:]
        t = open('/opt/vp/test.sh').read().replace('/repo', wt).replace('/opt/vp/build.sh', wt + '/b.sh')
        open(wt + '/t.sh', 'w').write(t)
        sh(['bash', wt + '/t.sh', wt + '/o.json'])
        res = json.load(open(wt + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        want = base.get('passed') or base.get('stable') or base
        lost = sorted(set(want) - set(res['passed']))
        if lost: return id, 'TESTS CATCH IT: ' + ' '.join(lost[:5])
        ok = True; msg = 'planted; demo: ' + (re.findall(r'FAILED.*', r1.stdout) or [r1.stdout[:150]])[0][:160]
        if check:
            r = sh(['python3', os.path.join(HERE, 'run.py'), prop], env=dict(os.environ, SX_REPO=wt, SX_EVID=wt + '/evid'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') ]; d = [l for l in r.stdout.splitlines() if l.startswith('  ')]
            msg += '\n      check %s rc=%d %s' % ('CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, (d[0][:200] if v and d else r.stdout[-300:]))
        return id, msg
    finally:
        if not ok: shutil.rmtree(os.path.join(HERE, 'seeded', id), ignore_errors=True)
        shutil.rmtree(wt, ignore_errors=True)
args = sys.argv[1:]; check = '--check' in args; args = [a for a in args if a != '--check']
exec(open(args[0]).read())
ids = args[1:]
sel = [b for b in BUGS if not ids or b[0] in ids]
with ThreadPoolExecutor(2 if check else 4) as ex:
    for id, msg in ex.map(lambda b: one(b, check), sel): print('%-28s %s' % (id, msg), flush=True)
