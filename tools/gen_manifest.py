#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl')) if l.strip()]
M = {'C01': 'history', 'C03': 'history', 'C34': 'history', 'C09': 'multi'}
NOTE = {
    'history': 'TLC checks the specification\'s own invariants and its refinement exhaustively at small scope; the code is bound by trace validation: every step of every recorded history, '
               'spec-generated and random, must be a step the specification allows. Nothing is claimed for histories that were not executed.',
    'multi': 'TLC explores every interleaving of the parallel map model; the code is bound by comparing recorded outcomes over feature configurations and thread counts under the specification\'s agreement '
             'predicate. Real schedules are those the operating system produced.',
    'call': 'TLC checks the laws of the specification exhaustively at small scope; the code is bound by trace validation: TLC accepts a recorded call only if its result is one the specification allows for '
            'that input. Inputs are enumerated by TLC at small scope and drawn at random beyond it; nothing is claimed for inputs that were not executed.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'TLA+ specification model-checked with TLC, and TLC trace validation of recorded library calls',
                   'level': 'model_checking', 'level_note': NOTE[M.get(i, 'call')]})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the public API exposes everything the specification observes.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
