#!/usr/bin/env python3
"""Write MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

V = plans.VERIF
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {
    'parse': 'TLC checks exhaustively, for every text over small alphabets up to a bounded length, that the push-down automaton of spec/Parser.tla accepts '
             'and denotes exactly what the declarative grammar (spec/Grammar.tla) says; every text visited is replayed into json::parse in a checked and an '
             'optimised build. Recorded calls on generated texts (all byte values in all contexts, all \\u escapes, nesting limits, number edges, mutated and '
             'truncated documents; faults late in long texts, behind many elements or members and after whitespace runs of every length) are validated against the '
             'automaton by TLC. Outside the bounds the result is sampled, not proved.',
    'emit': 'TLC checks on every small value that the specified call sequence renders to minimal valid JSON that the specified reader maps back to the value; '
            'all these behaviours are replayed through every sink. Recorded outputs for generated values are validated by TLC against spec/Emit.tla character by character.',
    'numbers': 'Exact decimal arithmetic on digit sequences in TLA+ (spec/Num.tla, spec/Floats.tla) decides each recorded operation of the real code; '
               'edge values are enumerated, the rest is sampled over the full range of mantissas and exponents, in a checked and an optimised build.',
    'hist': 'TLC explores the specified machine exhaustively within small constants; histories of the real code, generated from the specification and at random, '
            'are validated step by step by TLC against the same actions (full observable state compared after every call).',
}
NOTE.update({
    'C14': 'TLC explores every object of up to 3 (thorough: 4) keys for every way of hashing them (all collision patterns) and checks that the hash tree refines the '
           'insertion-ordered map; every operation on every state visited is replayed into the real Object with keys that really collide. Random histories of the real '
           'code (up to 18 keys, long runs of up to 1000) are validated call by call against the map by TLC.',
    'C15': 'TLC explores every history of key-buffer allocation, growth, cloning and removal within small bounds for dangling, double free and leaks; all histories are '
           'replayed into the real code under a monitoring allocator (poisoned frees, canaries, always-moving growth; inaccessible memory right behind each key). Random histories of objects and documents are '
           'validated by TLC, which compares the full state of every value after every call and demands that nothing is left at the end.',
    'C16': 'TLC checks the laws of every mutator at every place of every small document and replays all of them into the real code; random histories are validated call by call.',
    'C17': 'TLC checks the laws of reading, touching and assigning along every short path into every small document and replays all of them; random histories with paths up '
           'to length 4 and huge positions are validated with the full document compared after every access.',
    'C18': 'TLC checks that the inline and the heap representation agree under every observer for all short strings around the limit; pairs straddling the real limit are '
           'pushed through every observer of the real code in every representation and judged by TLC, as are random strings.',
    'C19': 'TLC checks that the specified equality is an equivalence over a universe of values (all triples) and all pairs are replayed through every comparison operator of '
           'the real code; random pairs, near misses and primitives are judged by TLC.',
    'C21': 'TLC models how the macros consume their input and emits every form at every position as Rust source, which is compiled against the crate, run, and compared with '
           'the specified parser reading the denoted text; conversions of generated Rust data of every supported type are judged by TLC.',
    'C22': 'Every small value of the specification is constructed and questioned, as are random values that lived through mutations; TLC judges every answer.',
    'C26': 'TLC explores every interleaving and nesting of up to 3 (thorough: 4) calls on 2 (3) threads, with callbacks that are suspended or panic (and refuses a control with '
           'a shared buffer); every schedule is stepped through real threads, and TLC validates each byte delivered and each answer against the call it belongs to. Random '
           'schedules with more calls and threads, and free-running threads doing the same tasks, are judged in the same way; free-running interleavings are sampled. '
           'What may be sent and shared is decided by the compiler.',
    'C24': 'TLC checks every script of up to 3 (4) steps on up to 3 (4) items, and all are replayed on all six iterators; random longer scripts are judged by TLC.',
})
KIND = {'C26': 'C26', 'C14': 'C14', 'C15': 'C15', 'C16': 'C16', 'C17': 'C17', 'C18': 'C18', 'C19': 'C19', 'C21': 'C21', 'C22': 'C22', 'C24': 'C24', 'C25': 'numbers', 'C01': 'parse', 'C02': 'parse', 'C03': 'parse', 'C04': 'parse', 'C05': 'parse', 'C06': 'emit', 'C07': 'emit', 'C08': 'emit',
        'C23': 'emit', 'C09': 'numbers', 'C10': 'numbers', 'C11': 'numbers', 'C12': 'numbers', 'C13': 'numbers'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in plans.PLANS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': plans.PLANS[i].get('technique', 'TLA+ specification model checked with TLC, its behaviours replayed into the real code, and recorded traces of the real code validated against it by TLC'),
            'level': 'model_checking',
            'level_note': plans.PLANS[i].get('note', NOTE[KIND.get(i, 'hist')]),
        })
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
BULK = (' Containers of up to 131073 members, built in every way, changed one at a time and in groups, are judged by spec/Bulk.tla, which works backwards from the '
        'last operation and which BulkMC checks against the operations one at a time.')
for c in checks:
    if any(d['driver'] == 'bulk' for d in plans.PLANS[c['property']]['drives']):
        c['level_note'] += BULK
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public API. Specifications in spec/ (TLA+, TLC), harness crate in harness/, runner in tools/.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
