"""Writes properties.jsonl and MANIFEST.json from one table (python3 gen_meta.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python run_check.py '
TECH = 'symbolic execution of the real Python code (AST-instrumented import), every branch and assertion decided by z3, counterexamples replayed concretely'
TRUST = ('Bounded: see "bounds" in the evidence. Real arithmetic stands in for floats, transcendental functions are uninterpreted with the listed axioms; '
         'trusts z3, CPython, the engine in symx/ (each path is re-run concretely on the untransformed code from a model) and the reference semantics in checks/.')
from properties_table import P, NA


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != 'note'}
            f.write(json.dumps(q) + '\n')
        for p, r in NA:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    man = dict(version=1, setup_cmd='/opt/venv/bin/python setup_check.py',
               checks=[dict(property=p['id'], quick_cmd=PY + p['id'], thorough_cmd=PY + p['id'] + ' --tier thorough', technique=TECH,
                            level='model_checking', level_note=(p['note'] + ' ' if p['note'] else '') + TRUST) for p in P],
               not_applicable=[dict(property=p['id'], reason=r) for p, r in NA])
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
