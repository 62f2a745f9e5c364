"""plant.py [--check] [--force] ID...: builds seeded/<ID> from tools/bugs.py, tests it in a scratch copy under /tmp and optionally runs the check of its property there."""
import json
import multiprocessing.pool
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from bugs import BUGS, PRELUDE  # noqa: E402

SH = '''#!/bin/bash
# exit 0: property holds in the tree in the current folder
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors='replace')


def main(ids, check):
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        src = '/tmp/seed/' + b['id']
        if os.path.isdir(src):
            shutil.rmtree(src)
        os.makedirs('/tmp/seed', exist_ok=True)
        sh(['cp', '-a', '/repo', src], '/tmp')
        msgs = []
        for f, old, new in b['edits']:
            p = os.path.join(src, 'sqpdfo', f)
            s = open(p).read()
            k = s.count(old)
            if k != 1:
                msgs.append('%s: %d matches of %r' % (f, k, old))
                continue
            s = s.replace(old, new)
            open(p, 'w').write(s)
        if msgs:
            print(b['id'], 'BAD', msgs)
            continue
        rc, diff = sh(['git', 'diff'], src)
        base = sh('git diff c5220d2 HEAD -- sqpdfo', '/repo')[1]
        added = {l[1:] for l in base.split('\n') if l.startswith('+') and l[1:].strip()}
        mine = [l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:] in added]
        if mine:
            msgs.append('touches own lines %r' % mine)
        d = '/tmp/seed/new-' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        env = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': '/opt/vp/plugins', 'OPENBLAS_NUM_THREADS': '1', 'OPENBLAS_CORETYPE': 'Nehalem', 'PYTHONHASHSEED': '0'}
        rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed -W ignore --tb=line --ignore=tests/test_sqpdfo_all.py tests', src, env)
        if rc:
            msgs.append('TESTS ' + ' '.join(l for l in out.split('\n') if 'FAILED' in l or 'Error' in l)[:300])
        shutil.rmtree('/tmp/seed/demo-' + b['id'], ignore_errors=True)
        shutil.copytree(d, '/tmp/seed/demo-' + b['id'])
        rc, out = sh(['/tmp/seed/demo-' + b['id'] + '/demo.sh'], '/repo', t=300)
        if rc:
            msgs.append('demo fails on /repo: ' + out[-300:])
        rc, out = sh(['/tmp/seed/demo-' + b['id'] + '/demo.sh'], src, t=300)
        if not rc:
            msgs.append('demo passes on the patched tree')
        else:
            print('   demo:', out.strip().split('\n')[-1][:200])
        keep = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(keep, ignore_errors=True)
        if not msgs:
            shutil.copytree(d, keep)
        shutil.rmtree(d)
        shutil.rmtree('/tmp/seed/demo-' + b['id'])
        if check and not msgs:
            rc, out = sh([os.path.join(HERE, 'check.sh'), b['property']], '/tmp', {'VERIF_REPO': src, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
            hit = 'VIOLATION property=' + b['property'] in out
            msgs.append('CAUGHT' if rc == 1 and hit else 'MISSED rc=%d' % rc)
            print('   check:', [l for l in out.split('\n') if l.strip() and not l.startswith(('PLEASE', 'WARN'))][:1])
        print(b['id'], b['property'], 'OK' if not [m for m in msgs if m != 'CAUGHT'] else '', msgs, flush=True)
        shutil.rmtree(src)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if len(args) == 1:
        main(args, '--check' in sys.argv)
    else:
        ids = [b['id'] for b in BUGS if not args or b['id'] in args or b['id'].split('-')[0] in args]
        flags = [a for a in sys.argv[1:] if a.startswith('--')]
        with multiprocessing.pool.ThreadPool(2 if '--check' in flags else 6) as pool:
            for out in pool.imap(lambda i: sh([sys.executable, __file__, i] + flags, HERE, t=3000)[1], ids):
                print(out.rstrip(), flush=True)
