"""Writes MANIFEST.json from the properties and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'default': 'property-based testing (Hypothesis): generated templates and contexts',
}
NOTE = ('Searched, not proved: holds on every generated case of the run (counts and samples in the '
        'evidence file). Trusts Hypothesis, CPython 3.12 as evaluator of the reference model, and '
        'the worker protocol; the code under test runs on the PyPy it is installed for.')


def main():
    tech = {}
    p = os.path.join(ROOT, 'tools', 'techniques.json')
    if os.path.exists(p):
        tech = json.load(open(p))
    checks, na = [], []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        prop = json.loads(line)
        i = prop['id']
        if os.path.exists(os.path.join(ROOT, 'pbt', 'p_%s.py' % i.lower())):
            t = tech.get(i, {})
            checks.append({
                'property': i,
                'quick_cmd': 'VERIF_TIER=quick python3-vt pbt/check.py %s' % i,
                'thorough_cmd': 'VERIF_TIER=thorough python3-vt pbt/check.py %s' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': t.get('technique', TECH['default']),
                'level': 'exploration',
                'level_note': (t.get('note', '') + ' ' + NOTE).strip(),
            })
        else:
            na.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import hypothesis" && /opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import kajiki"',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks are needed in /repo: all checks drive the public interface.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
