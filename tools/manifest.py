#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = {
 'C01': 'abstract interpretation of MIR: per-state transfer of every coding method against the typestate rules',
 'C02': 'abstract interpretation of MIR: no effect on refusing paths',
 'C03': 'abstract interpretation of MIR: failed-mark typestate',
 'C04': 'abstract interpretation of MIR with bit-level symbolic values: bytes handed to the writer',
 'C05': 'abstract interpretation of MIR with bit-level symbolic values: value and bytes consumed',
 'C06': 'abstract interpretation of MIR with bit-level symbolic values: outcome on out-of-range bits',
 'C07': 'abstract interpretation of MIR: reachability of panics',
 'C08': 'abstract interpretation of MIR: taint and bounds of allocation sizes',
 'C09': 'abstract interpretation of MIR: parent chain of the coding stack',
 'C10': 'abstract evaluation of schema functions, abstract interpretation of the serde impls of std types against the schema',
 'C11': 'abstract evaluation of derived schema functions, abstract interpretation of derived serde impls against the schema',
 'C12': 'abstract evaluation of the meta-schema, abstract interpretation of the serde impls of Schema against it and of the content they carry; comparison with FORMAT.txt',
 'C13': 'abstract interpretation of MIR against a specification of the coder: dynamic values',
 'C14': 'abstract interpretation of MIR against a specification of the coder: serde glue driven by arbitrary values and visitors',
 'C15': 'ownership (token) analysis of MIR over the buffer hand-over functions',
 'C16': 'abstract interpretation of MIR: log balance ghost, comparison of paths with and without log',
 'C17': 'abstract interpretation of MIR: error provenance',
 'C18': 'compile-fail witnesses with compiling twins; query over the effective visibilities of the type-checked crate',
 'C19': 'abstract evaluation of schema! expansions (every form, nested) against the spelled schema; expansion in a crate with shadowed names must compile',
 'C20': 'abstract interpretation of client code over the error API with symbolic kinds, inner errors and messages; symbolic text of the displays',
 'C21': 'abstract interpretation of the rendering of one node, compositional over the schema; symbolic text',
 'C25': 'exact abstract interpretation of MIR with lap counting: loops that come back to the same state or are driven by a stated number',
 'C26': 'effect analysis of the monomorphised call graph: mutable statics, thread locals, ambient calls, hash order, addresses',
 'C27': 'abstract interpretation of the comparison, order and clone impls on pairs of symbolic values, compositional over their parts',
 'C28': 'type checking of generic client code (witness programs with weaker twins)',
 'C24': 'cycles of the monomorphised call graph',
}
NOTE = ('Holds for all schemas, arguments, inputs and I/O failures within the abstract semantics; trusted: the MIR driver, the models of '
        'std functions, the abstract domains. Paths the domains cannot follow are reported in the evidence as undecided and never raise an alarm.')
NA = json.load(open('/verif/MANIFEST.json'))['not_applicable']
import os, sys
sys.path.insert(0, '/verif/tools')
try:
    from manifest_more import TECH as T2, NOTES as N2
    TECH.update(T2)
except ImportError:
    N2 = {}
checks = []
for p in sorted(TECH):
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': TECH[p], 'level': 'other', 'level_note': N2.get(p, NOTE)})
allp = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
REASON = {x['property']: x['reason'] for x in NA}
na = [{'property': p, 'reason': REASON.get(p, 'Not claimed yet: its check is under construction.')} for p in allp if p not in TECH]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
