"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'model': 'property-based testing: generated inputs (Hypothesis) against an independent reference model of the standard',
    'round': 'property-based testing: round-trip relation over generated parameters and messages (Hypothesis)',
    'stateful': 'model-based (stateful) property-based testing: generated call histories against a reference model',
    'meta': 'property-based testing: metamorphic relation over generated histories (pairs of runs that must agree)',
    'reject': 'property-based testing: generated valid and invalid arguments against an executable specification of acceptance',
    'sched': 'schedule fuzzing: generated thread schedules, replayed by a deterministic scheduler, against a '
             'reference model (Hypothesis)',
    'fault': 'property-based testing with injected faults: scripted operating-system random output against a reference model',
}
KIND = dict(C01='model', C02='model', C03='round', C04='stateful', C05='stateful', C06='model', C07='model',
            C08='stateful', C09='reject', C10='meta', C11='stateful', C12='reject', H01='model', H02='meta', H03='stateful', M01='model',
            M02='stateful', P01='model', P02='stateful', R01='stateful', R02='stateful', S01='model', S02='model',
            S03='model', S04='fault', S05='reject', S06='meta', O01='model', O02='reject', I01='stateful',
            I02='reject', I03='meta', I04='stateful', I05='sched', I06='meta', I07='sched', U01='model', U02='meta', X01='stateful', F01='fault')
GUIDED = '; the same checks also driven by a coverage-guided search over mutated cases'
UNGUIDED = ('I05', 'I06', 'I07', 'U02')
TRUST = ('Sampled evidence, not a proof: the property held on every generated case of the run (counts, classes and '
         'samples in the evidence file). ')
REF = ('Trusts harness/refgost.py, a reference written from the standards, which selftest.py (setup_cmd) checks '
       'against published examples that it carries itself.')
NOTES = {
    'H02': 'The oracle is the same hash in one call, plus the reference model.',
    'C03': 'The oracle is the message itself; padding by the reference.',
    'C10': 'Two keys with the same later inputs must give equal results; a probabilistic statement for the '
           '"no correct result" part (collision odds below 2^-30 per case, tags of 4 bytes or more).',
    'S05': 'Violating curves come from a table built offline by tools/mkcurves.py and are re-verified by the '
           'selftest.',
    'C11': 'The oracle is an invariant over the state: no byte window of the secrets is reachable.',
    'U02': 'Counts executed lines of Python code; what the interpreter does inside one line is not seen.',
    'S06': 'The canonical image is computed by the reference and compared through keys and signatures.',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
        ids = [json.loads(line)['id'] for line in f]
    checks = []
    for pid in ids:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py check %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[KIND[pid]] + ('' if pid in UNGUIDED else GUIDED),
            'level': 'exploration',
            'level_note': (TRUST + (NOTES[pid] + ' ' if pid in NOTES else '') + REF).strip(),
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 run.py selftest',
        'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks: the checks use the public interface of the package in /repo and replace os.urandom '
                 'in their own processes only. run.py re-executes itself under python3-vt (Hypothesis). A failure is '
                 'shrunk and written to replays/<id>.json; "python3 run.py replay FILE" runs it again.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
