"""Writes MANIFEST.json from properties.jsonl and the harness modules present in checks/."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Bounded: every value of the symbolic inputs within the bounds stated in checks/{m}.py and in the evidence, on every path of the '
        'instrumented package source; nothing outside them. Counterexamples are replayed against the uninstrumented package before they are '
        'reported. Trusts the symbolic models of str/bytes, number formatting, numpy and files in symx/ (witness inputs of every path are '
        'replayed on the real code) and z3.')


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        m = p.lower()
        if os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            checks.append({'property': p, 'quick_cmd': 'python3-vt run.py %s --tier quick' % p,
                           'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p,
                           'technique': 'symbolic execution of the package source, z3 verdict per assertion, counterexample replay',
                           'level': 'model_checking', 'level_note': NOTE.format(m=m)})
        else:
            na.append({'property': p, 'reason': 'no check built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: the machinery instruments a parsed copy of the source in memory on every run.'}, f, indent=1)
        f.write('\n')


main()
