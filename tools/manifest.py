"""Write MANIFEST.json (run after changing the list of checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
T = {
 'C01': 'TLA+ model of the object grammar (TLC); its states written and read back by the library and compared with the model',
 'C02': 'TLA+ model of documents (TLC); its states and the sample documents loaded and saved by the library, compared with the model',
 'C03': 'TLA+ model of the object grammar (TLC); states replayed: repeated saves, reloads, other processes',
 'C04': 'TLA+ Render operator (TLC); texts of the library read by an independent reader and compared with the model tree',
 'C05': 'TLA+ model of the reader as a stack machine (TLC); its runs replayed into parse_sexp',
 'C06': 'TLA+ enumeration of texts and the places they live in (TLC); replayed through writer and reader',
 'C07': 'TLA+ model of optional slots (TLC); tokens written and values read compared with the model',
 'C08': 'TLA+ state machine of an editing session (TLC); histories replayed step by step, documents compared with the model',
 'C09': 'TLA+ state machine of identifiers and renames (TLC); histories replayed',
 'C10': 'TLA+ state machine of files and bound documents (TLC); histories replayed in a scratch directory',
 'C11': 'TLA+ state machine of failing saves (TLC); histories replayed in a scratch directory',
 'C12': 'TLA+ acceptance relation between readers and expressions (TLC); every pair replayed',
 'C13': 'TLA+ model of independent objects (TLC); edit histories replayed on pairs of objects',
 'C14': 'TLA+ Guard operator (TLC); states replayed: refused exactly if the model refuses',
 'C15': 'TLA+ model of alternative spellings (TLC); documents replayed and compared with the canonical one',
 'C16': 'TLA+ Render operator (TLC); texts in all layouts compared with the model tree',
 'C17': 'TLA+ Render operator (TLC); order of tokens of reordered documents and assignments compared with the model',
 'C18': 'TLA+ state machine of factories (TLC); histories of creations and edits replayed',
 'C19': 'TLA+ enumeration of numerals (TLC); replayed through writer and reader of every numeric slot',
}
sys.path.insert(0, os.path.join(V, 'harness'))
import registry
note = ('TLC checks the laws of the specification on the explored states; every explored state or history is replayed against the real '
        'code and compared with the specification. Bounded: nesting depth, number of edits and the drawn concrete values; trusts TLC, '
        'the harness\' own S-expression reader and the data independence of leaf values.')
checks = [{'property': p, 'quick_cmd': f'/opt/venv/bin/python harness/check.py {p}',
           'thorough_cmd': f'/opt/venv/bin/python harness/check.py {p} --thorough',
           'evidence_file': f'evidence/{p}.json', 'technique': T[p], 'level': 'model_checking', 'level_note': note}
          for p in props if p in registry.CHECKS]
na = [{'property': p, 'reason': 'its model is still being built'} for p in props if p not in registry.CHECKS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. The checks import the library from /repo/src of the working tree; nothing is cached.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
