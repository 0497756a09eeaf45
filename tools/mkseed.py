#!/usr/bin/env python3
"""mkseed.py [ID...]: builds seeded/<id>/ from tools/seeds.py, confirming in a scratch copy of /repo that the patch
applies to original lines, that the stable tests pass with it and that the demonstration passes without and fails with it"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seeds import SEEDS
REPO, PY = '/repo', '/opt/venv/bin/python'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def build(sid, spec):
    d = os.path.join(HERE, 'seeded', sid)
    prop, edits, needs, breaks, demo = spec
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        work = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', REPO, work], check=True)
        run(['git', 'checkout', '--', '.'], work)
        for f, old, new in edits:
            p = os.path.join(work, f)
            s = open(p, encoding='utf-8', newline='').read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %r' % (s.count(old), f, old)
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        patch = run(['git', 'diff'], work).stdout
        ours = 0
        import re
        for f in {e[0] for e in edits}:
            df = run(['git', 'diff', '-U0', f], work).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', df, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if not n:
                    continue
                bl = run(['git', 'blame', '-s', '-L', '%d,%d' % (a, a + n - 1), 'HEAD', '--', f], work).stdout
                for l in bl.splitlines():
                    if '6a683e0' not in l.split()[0]:
                        return 'changes a line of ours: ' + l
                    ours += 1
        if not ours:
            return 'changes no original line'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w', newline='').write(patch)
        shutil.copy(HERE + '/tools/seedlib/fake.py', d + '/fake.py')
        if 'minisql' in demo:
            shutil.copy(HERE + '/tools/seedlib/minisql.py', d + '/minisql.py')
        open(d + '/demo.py', 'w').write('from fake import *\n' + demo.strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 %s "$d/demo.py"\n' % PY)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        dd = os.path.join(tmp, 'demo')
        shutil.copytree(d, dd)
        clean = run(['bash', dd + '/demo.sh'], REPO)
        if clean.returncode:
            return 'demo fails on the clean tree\n' + clean.stderr[-1500:]
        broken = run(['bash', dd + '/demo.sh'], work)
        if not broken.returncode:
            return 'demo passes with the patch'
        last = (broken.stderr.strip().splitlines() or ['?'])[-1]
        files = sorted({e[0] for e in edits})
        for f in files:
            compile(open(os.path.join(work, f), encoding='utf-8').read(), f, 'exec')
        return 'ok (%s)' % last[:150]
    finally:
        shutil.rmtree(tmp, True)


if __name__ == '__main__':
    for sid in sys.argv[1:] or sorted(SEEDS):
        print(sid, SEEDS[sid][0], build(sid, SEEDS[sid]), flush=True)
