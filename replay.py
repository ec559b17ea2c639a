#!/usr/bin/env python3
"""replay.py FILE.json: rebuild /repo natively and run a recorded counterexample against it (exit 1 if it still fails)."""
import sys, json, tempfile, shutil, os
import run
j = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp(prefix='sx-replay-')
try:
    inc = ['-I' + os.path.join(run.REPO, 'include'), '-I' + os.path.join(run.HERE, 'harness')]
    n = run.Native(work, run.repo_sources(), inc, None)
    ok, log = n.replay(run.Entry(j['entry'], os.path.join(run.HERE, j['harness']), {}), {'kind': j['kind'], 'msg': j['what'], 'inputs': j['inputs'], 'choices': j['choices']})
    print(log); print('REPRODUCED' if ok else 'not reproduced')
finally: shutil.rmtree(work)
sys.exit(1 if ok else 0)
