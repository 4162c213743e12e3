#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the two tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'typestate (property simulation over LLVM IR with GLib models)',
 'P02': 'record-schema extraction from writer and reader, paired field by field',
 'P03': 'path-sensitive dataflow on the unsaved mark; effect enumeration',
 'P04': 'interval analysis of admitted lengths against reader widths',
 'P05': 'typestate and guarded-effect analysis of the loader',
 'P06': 'bounds analysis: call obligations and index intervals',
 'P07': 'definite-initialisation and nullness dataflow',
 'P08': 'effect analysis of timer callbacks; call-graph query',
 'P09': 'symbolic effect comparison decided on residues; writer enumeration',
 'P10': 'path-sensitive gating analysis',
 'P11': 'call-graph reachability against the async-signal-safe list; effect query',
 'P12': 'constant propagation through handler, pipe and dispatcher',
 'P13': 'symbolic term extraction and polynomial comparison',
 'P14': 'phase automaton and guarded-call analysis',
 'P15': 'symbolic loop-step analysis with linear inequalities',
 'P16': 'typestate automaton over fork, wait and exit',
 'P17': 'comparator summarisation checked over all orderings',
 'P18': 'holder enumeration and ownership typestate before free',
 'P19': 'write-once field analysis; key-field comparison',
 'P20': 'effect symmetry analysis of reference and registration operations',
 'P21': 'iterator-invalidation effect analysis over the call graph',
 'P22': 'effect analysis of chain construction, registration and release',
 'P23': 'symbolic step extraction; interval analysis of divisors and indexes',
 'P24': 'guarded-effect analysis of removals',
 'P25': 'inductive bound analysis on history and tree depth',
 'P26': 'sign, finiteness and monotonicity analysis of bid terms',
 'P27': 'key/field/unit extraction compared with the shipped configuration',
 'P28': 'transactional effect analysis of the configuration load',
 'P29': 'option-table consistency and per-option effect analysis',
 'P30': 'file-system effect inventory over the call graph',
 'P31': 'resource typestate (acquire/release) on every path',
 'P32': 'guarded-admission analysis',
 'P33': 'path analysis of the log handler and log opening',
 'P34': 'effect analysis of the scan callbacks per classification',
 'P35': 'symbolic effect analysis of the accounting step',
 'P36': 'order automaton over main and state loading',
}
NOTE = {}
NA = {
 'P37': 'Statistical quality of predictions on real workloads: a quantity over run-time histories that no static argument bounds.',
 'P38': 'The file format writes reals with %lg (six significant digits), so bit-exactness does not hold by design; how much precision is enough is a numerical, run-time question.',
 'P39': 'Process identifiers are reused by the kernel between two observations; the race is in the environment and the /proc interface offers the program nothing static analysis could relate.',
 'P40': 'Elapsed time and I/O interference depend on hardware and load; no static bound in reach.',
}
checks, na = [], []
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in ids:
    if os.path.exists(os.path.join(V, 'checks', p + '.py')) and p in TECH:
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 engine/check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py %s' % p,
                       'technique': 'static analysis: ' + TECH[p], 'level': 'other',
                       'level_note': NOTE.get(p, 'Static: decided from the LLVM IR of the current sources for all inputs and paths, relative to the library models in engine/api.py and the assumptions in DESIGN.md; no code is run.')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'Not claimed: the analysis for this property is not finished; see DESIGN.md.')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import frontend; frontend.ensure_exporter()"',
           'checks': checks, 'not_applicable': na,
           'notes': 'One engine (engine/), one file per property (checks/). The exporter is rebuilt on demand into /verif/build.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
