"""Writes MANIFEST.json: every property with a check module that is not listed in HELD is claimed."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(HERE, 'checks', pid.lower() + '.py')
        if not os.path.exists(path) or pid in PENDING:
            na.append(dict(property=pid, reason=PENDING.get(pid, 'check under construction')))
            continue
        c = consts(path)
        note = 'The real functions are executed symbolically (regenerated from /repo on every run); z3 decides each assertion for every value within the bounds, and counterexamples are replayed on the real code. Bounds: %s. Assumes: %s.' % (
            c.get('BOUNDS', 'see evidence'), '; '.join(c.get('ASSUMPTIONS', [])) or 'nothing beyond the trusted base of DESIGN.md')
        checks.append(dict(property=pid, quick_cmd='bin/check ' + pid, thorough_cmd='VERIF_TIER=thorough bin/check ' + pid,
                           technique=c.get('TECHNIQUE', 'symbolic execution of the real Python code and TensorFlow graph, decided by an SMT solver (z3)'),
                           level='model_checking', level_note=note))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md for bounds, assumptions and the trusted base; known_findings.txt for the defects repaired.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
