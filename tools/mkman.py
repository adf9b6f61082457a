#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIC = 'TLA+/TLC trace validation: recorded cleanings replayed against spec/Cleaner.tla; pictures (spec/Svg.tla Render) of input and output must agree'
TECH = {
    'C01': PIC + ', default options', 'C02': PIC + '; documents from spec/Author.tla and random grammars',
    'C03': PIC + ', resolved paint servers', 'C04': PIC + ', path interpreter', 'C05': PIC + ', outlines and strokes',
    'C06': PIC + ', computed properties', 'C08': PIC + ', what paints is still there', 'C14': PIC + ', cascade with every task off',
    'C18': PIC + ', text tokens',
    'C07': 'TLA+/TLC trace validation against spec/Cleaner.tla: references, unique/kept/trimmed ids, and pictures',
    'C09': 'TLA+/TLC trace validation against spec/Cleaner.tla: completeness and exactness of removals (spec/Contracts.tla)',
    'C10': 'TLA+/TLC trace validation against spec/Cleaner.tla: Refuse is enabled exactly for offending or unresolvable documents',
    'C11': 'TLC model checking of spec/Cli.tla; every terminal state replayed with the real executable on real files',
    'C12': 'TLA+/TLC trace validation of the option parser against spec/OptTrace.tla and spec/Options.tla',
    'C13': 'TLA+/TLC trace validation of repeated passes and multipass runs against spec/Cleaner.tla (Settle, Multipass)',
    'C15': 'TLA+/TLC trace validation of every number against spec/Round.tla (exact arithmetic)',
    'C16': 'TLA+/TLC trace validation: outputs in different notations must be the same document (spec/Cleaner.tla Rewrite)',
    'C17': 'TLA+/TLC trace validation of a request/answer process against spec/Process.tla: Died and Hung are never enabled',
    'C19': 'TLA+/TLC trace validation of a request/answer process against spec/Process.tla: an answer is a function of the case',
}
NOTE = {
    'C01': 'Bounded: about 13 000 generated documents (random grammar, eight profiles, documents enumerated by TLC) per quick run.',
    'C11': 'Exhaustive over the configurations of the model; the contents of files are samples.',
    'C12': 'All options with all values singly, pairs of flags, and random lists; not all lists.',
    'C15': 'About 12 000 documents and 300 000 numbers per quick run, in documents whose numbers no other task computes.',
    'C17': 'About 150 000 texts through the library and 1 600 through the executable per quick run; nesting up to 2000 levels.',
    'C19': 'Cases are repeated in different orders in one process, repeated, and through files and standard streams of new processes.',
}
DEFAULT = 'Bounded: thousands of generated documents per run, each judged by TLC; documents enumerated by TLC up to a small size where spec/Author.tla has a family for the property. Not a proof over all documents.'
NOT = {}
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT.items()],
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harness crate in /verif/harness drives the public library API and the checks run the real binary', 'source_commits': []}}
for l in open(V + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in NOT:
        continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/run.py %s' % i, 'thorough_cmd': 'python3 checks/run.py %s' % i,
                        'technique': TECH[i], 'level': 'model_checking', 'level_note': NOTE.get(i, DEFAULT)})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
