"""plant.py SPEC.py: turn bug specs into /verif/seeded/<id>/ after confirming, in a
scratch copy, that the patch applies and builds, that the 366 stable tests pass with
it, that it touches only lines of the original repository, and that the demo tells the
two trees apart.  SPEC.py defines BUGS = [dict(id, prop, edits=[(file[, 'Class.method'], old, new)],
demo, needs, breaks)]."""
import ast
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess as sp
import sys
import tempfile

ENV = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
ENV.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')
PY = '/opt/venv/bin/python'
BASE = sp.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'],
              capture_output=True, text=True).stdout.strip()


def blame_ok(path, diff):
    """Every removed line (and, for pure insertions, the neighbours) is original."""
    bad = []
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+', diff, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        if n == 0:
            continue
        out = sp.run(['git', '-C', '/repo', 'blame', '-l', '-s', '-L', '%d,+%d' % (a, n),
                      'HEAD', '--', path], capture_output=True, text=True).stdout
        for line in out.splitlines():
            if not line.lstrip('^').startswith(BASE[:30]):
                bad.append(line[41:])
    return bad


def span(s, where):
    """Offsets of 'Class.method' (or 'Class', 'function') in the source s."""
    node = ast.parse(s)
    for name in where.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == name][-1]
    lines = s.splitlines(True)
    return (sum(map(len, lines[:node.lineno - 1])), sum(map(len, lines[:node.end_lineno])))


def one(b):
    tmp = tempfile.mkdtemp(prefix='plant.')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, *where, old, new in b['edits']:
            p = os.path.join(repo, 'src/sortedcontainers', f)
            s = open(p).read()
            i, j = span(s, where[0]) if where else (0, len(s))
            if s[i:j].count(old) != 1:
                return b['id'], 'edit text occurs %d times in %s: %r' % (
                    s[i:j].count(old), f, old)
            open(p, 'w').write(s[:i] + s[i:j].replace(old, new) + s[j:])
        diff = sp.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        zero = sp.run(['git', '-C', repo, 'diff', '-U0'], capture_output=True, text=True).stdout
        for part in re.split(r'^diff --git ', zero, flags=re.M)[1:]:
            path = re.search(r'^\+\+\+ b/(.*)$', part, re.M).group(1)
            bad = blame_ok(path, part)
            if bad:
                return b['id'], 'touches lines of a fix: %r' % bad
        dest = os.path.join(tmp, 'bug')
        os.mkdir(dest)
        open(dest + '/patch.diff', 'w').write(diff)
        open(dest + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(dest + '/demo.sh', 'w').write(
            '#!/bin/bash\n# run with cwd = the repository\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(dest + '/meta.json', 'w'), indent=1)
        r0 = sp.run(['bash', dest + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True,
                    text=True, timeout=300)
        if r0.returncode:
            return b['id'], 'demo fails on the unchanged tree: ' + r0.stderr[-400:]
        r1 = sp.run(['bash', dest + '/demo.sh'], cwd=repo, env=ENV, capture_output=True,
                    text=True, timeout=300)
        if not r1.returncode:
            return b['id'], 'demo passes with the patch'
        env = dict(ENV, PYTHONPATH=repo + '/src')
        w = sp.run([PY, '-c', 'import sortedcontainers as s; print(s.__file__)'], env=env,
                   capture_output=True, text=True).stdout
        assert w.startswith(repo), w
        t = sp.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120',
                    '-p', 'no:randomly'], cwd=repo, env=env, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        if '366 passed' not in tail or 'failed' in tail:
            names = [l for l in t.stdout.splitlines() if l.startswith('FAILED')]
            return b['id'], 'tests: %s %s' % (tail, names[:2])
        final = os.path.join('/verif/seeded', b['id'])
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        return b['id'], 'kept'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    bugs = [b for b in bugs if not only or b['id'] in only]
    with cf.ThreadPoolExecutor(8) as ex:
        for i, r in ex.map(one, bugs):
            print('%-28s %s' % (i, r), flush=True)
