"""catch.py [-a] [ID...]: run, on a scratch copy with each planted bug, the check of its
property (-a: every check) and say which report it."""
import os
import shutil
import subprocess as sp
import sys
import tempfile
import json
import time

args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir('/verif/seeded'))
allc = ['C%02d' % i for i in range(1, 1 + sum(1 for _ in open('/verif/properties.jsonl')))]
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='catch.')
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        sp.run(['git', '-C', repo, 'apply', d + '/patch.diff'], check=True)
        hit, miss = [], []
        for c in (allc if every else [prop]):
            t = time.time()
            r = sp.run(['/verif/check.sh', c, 'quick'], env=dict(
                os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            ok = r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout
            (hit if ok else miss).append('%s(%.0fs%s)' % (c, time.time() - t, '' if r.returncode in (0, 1) else ' rc=%d' % r.returncode))
        print('%-30s %s caught by %s%s' % (i, prop, ' '.join(hit) or 'NONE',
              '' if every else ('' if hit else '  <== MISSED ' + ' '.join(miss))), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
