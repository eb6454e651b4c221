"""Runs the checks on every seeded bug again and writes the table in DESIGN.md: replant.py [id ...].

Each bug is applied to a scratch copy of /repo. Nothing here is used by the checks.
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/replant-copy'
PY = '/opt/venv/bin/python'
RESULT = os.path.join(ROOT, 'tools', 'caught.json')


def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(i, tests=True):
    d = os.path.join(ROOT, 'seeded', i)
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree('/repo', COPY, symlinks=True)
    r = run('git', '-C', COPY, 'apply', d + '/patch.diff')
    if r.returncode:
        return 'patch does not apply'
    t = run(PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'kajiki/tests', cwd=COPY)
    if ' 142 passed' not in ' ' + t.stdout.strip().split('\n')[-1]:
        return 'tests fail'
    if run('bash', d + '/demo.sh', cwd='/repo').returncode:
        return 'demo fails on the unchanged tree'
    if not run('bash', d + '/demo.sh', cwd=COPY).returncode:
        return 'demo passes with the change'
    prop = json.load(open(d + '/meta.json'))['property']
    c = run('python3-vt', 'check.py', prop, cwd=os.path.join(ROOT, 'pbt'),
            env=dict(os.environ, KJ_REPO=COPY, KJ_EVIDENCE='/tmp/replant-ev'))
    m = re.search(r'^scenario (\w+):', c.stdout, re.M)
    if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout:
        return '%s %s' % (prop, m.group(1) if m else '')
    return 'missed by %s' % prop


def table(res):
    rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
    for i in sorted(res):
        m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], res[i]))
    return '\n'.join(rows)


def main():
    res = json.load(open(RESULT)) if os.path.exists(RESULT) else {}
    have = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    res = dict((k, v) for k, v in res.items() if k in have)
    for i in sys.argv[1:] or have:
        if i == '--table':
            continue
        res[i] = one(i)
        print(i, res[i], flush=True)
    with open(RESULT, 'w') as f:
        json.dump(res, f, indent=1, sort_keys=True)
        f.write('\n')
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    s = re.sub(r'(?s)<!-- table -->.*<!-- end -->',
               lambda m: '<!-- table -->\n' + table(res) + '\n<!-- end -->', s)
    open(p, 'w').write(s)
    shutil.rmtree(COPY, ignore_errors=True)


main()
