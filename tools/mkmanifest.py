"""Writes MANIFEST.json from the checks present and the notes below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

NA = {
    'P27': 'The bound is a statement about probabilities over the choice of randomness by an adversary; no dataflow, typestate or syntactic rule over '
           'the source decides it. The structural parts it rests on (every constraint checked, independent weights, query point distinct from the '
           'interpolation domain, uniform sampling) are claimed separately as P09, P17, P20 and P22.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    import importlib
    from sa.check import level
    for p in props:
        i = p['id']
        if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            na.append({'property': i, 'reason': NA.get(i, 'No static check built for it yet.')})
            continue
        m = importlib.import_module('checks.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py ' + i,
            'thorough_cmd': 'python3-vt check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the source into a guarded value-flow normal form, equality of normal forms'),
            'level': level(m),
            'level_note': m.R.rule + '. Bounds: ' + (m.R.bounds or 'none') + '. Trusts the analyser in sa/ and the reference text in spec/.',
        })
    man = {'version': 1, 'setup_cmd': 'python3-vt -c "import ast, sys; sys.exit(0)"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Findings repaired in /repo are listed in KNOWN_FINDINGS.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
