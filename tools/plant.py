"""Confirms planted bugs and writes seeded/<id>/: plant.py SPECS.py [id ...].

A spec is {id, property, edits: [(file, old, new)], demo, needs, breaks}. The demo is Python; it
must assert what the property says. Nothing here is used by the checks.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get('PLANT_COPY', '/tmp/plant-copy')
PY = '/opt/venv/bin/python'
BASE = 'f1d51ee'
SH = '''#!/bin/bash
# exit 0: the property holds; run in the root of the repository
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import kajiki
from kajiki import XMLTemplate, TextTemplate, MockLoader, FileLoader
'''


def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree('/repo', COPY, symlinks=True)


def old_lines_are_original(files):
    """Every removed line comes from before our own commits."""
    added = set(run('git', '-C', '/repo', 'log', '--format=%H', BASE + '..HEAD').stdout.split())
    for f in files:
        blame = run('git', '-C', '/repo', 'blame', '-l', '-s', f).stdout.split('\n')
        diff = run('git', '-C', COPY, 'diff', '-U0', '--', f).stdout.split('\n')
        n = 0
        for line in diff:
            if line.startswith('@@'):
                n = int(line.split()[1][1:].split(',')[0])
            elif line.startswith('-') and not line.startswith('---'):
                if blame[n - 1].split()[0].lstrip('^') in added:
                    return 'line %d of %s is ours: %s' % (n, f, line)
                n += 1
    return None


def main():
    specs = runpy.run_path(sys.argv[1])['BUGS']
    for s in specs:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        fresh()
        d = os.path.join(ROOT, 'seeded', s['id'])
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(COPY, f)
            text = open(p, encoding='utf-8').read()
            if text.count(old) != 1:
                bad = 'found %d times: %r' % (text.count(old), old)
                break
            open(p, 'w', encoding='utf-8').write(text.replace(old, new))
        if bad:
            print(s['id'], 'BAD', bad[-300:].replace(chr(10), ' | '))
            continue
        bad = old_lines_are_original(sorted(set(e[0] for e in s['edits'])))
        t = run(PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'kajiki/tests', cwd=COPY)
        if ' 142 passed' not in ' ' + t.stdout.strip().split('\n')[-1]:
            bad = 'tests: ' + t.stdout[-1500:]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(HEAD + s['demo'])
        open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(
            run('git', '-C', COPY, 'diff').stdout)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = run('bash', d + '/demo.sh', cwd='/repo')
        b = run('bash', d + '/demo.sh', cwd=COPY)
        if a.returncode != 0:
            bad = 'demo fails on the unchanged tree: ' + a.stdout[-800:]
        elif b.returncode == 0:
            bad = 'demo passes with the change'
        if bad:
            shutil.rmtree(d)
            print(s['id'], 'BAD', bad[-300:].replace(chr(10), ' | '))
            continue
        if os.environ.get('PLANT_NOCHECK'):
            continue
        for prop in [s['property']] + list(s.get('also', ())):
            c = run('python3-vt', 'check.py', prop, cwd=os.path.join(ROOT, 'pbt'),
                    env=dict(os.environ, KJ_REPO=COPY))
            last = c.stdout.strip().split('\n')
            caught = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
            print(s['id'], prop, 'caught' if caught else 'MISSED rc=%d %s' % (
                c.returncode, last[-1][:200]),
                [x for x in last if x.startswith('scenario')][:1] or '', flush=True)
    shutil.rmtree(COPY, ignore_errors=True)


main()
