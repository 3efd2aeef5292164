#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (not needed by the checks)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import importlib.util
spec = importlib.util.spec_from_file_location('drive', HERE + '/drive.py')
drive = importlib.util.module_from_spec(spec)
spec.loader.exec_module(drive)
NOTE = {
    'C01': 'seeded search over source kinds, read splits and buffer sizes',
    'C02': 'seeded search over failure positions and source kinds',
    'C03': 'seeded search over partial acceptances and failures of the sink',
    'C04': 'seeded search over device failure positions, buffering modes, flush and close failures',
    'C05': 'seeded search over values and capacities around the needed length',
    'C06': 'seeded search over operation histories and failing allocations',
    'C07': 'seeded search over documents, entry points and failing allocations',
    'C08': 'seeded search over operation histories against a reference model',
    'C09': 'seeded search over document streams, read splits, failures and iterator interleavings',
    'C10': 'seeded search over messages, write and read splits and cut positions',
    'C11': 'seeded search over histories with failures followed by probe operations',
    'C12': 'seeded search over thread schedules with a happens-before race detector',
    'C13': 'seeded search over thread schedules with a happens-before race detector',
    'C14': 'seeded search over schema graphs, fetch failures and request orders',
    'C15': 'seeded search over documents and patches with failing steps against a reference interpreter',
    'C16': 'seeded search over entry points and fault kinds with a resource ledger',
    'C17': 'seeded search over corruptions and deliveries',
    'C18': 'seeded search over writing histories and crash points',
    'C19': 'seeded search over values, formats, write and read splits',
    'C20': 'seeded search over tool invocations and disk failures',
}
NA = {
    'C30': 'The verdict is a pure function of schema and document: no schedule, fault or delivery enters it, so a simulator has nothing to decide; input generation against a second validator would be a different technique. Loading faults around validation are C14.',
    'C31': 'Conversions and arithmetic are pure functions of their operands with no environment to simulate.',
    'C32': 'Encoding and decoding are pure functions of a byte string; splitting over several buffers is exercised as part of C19.',
    'C33': 'Option parsing is a pure function of declarations and arguments.',
    'C34': 'Computing a difference and parsing a path are pure functions of their arguments; applying patches under failures is C15.',
}
checks = []
for p in sorted(drive.RUNS):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 drive.py check %s quick' % p,
        'thorough_cmd': 'python3 drive.py check %s thorough' % p,
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': NOTE[p] + '; one seed is one exactly repeatable execution, violations are minimised and replayed in a fresh process before they are reported; not exhaustive',
        'evidence_file': 'evidence/%s.json' % p,
    })
m = {'version': 1, 'setup_cmd': 'python3 drive.py setup',
     'hooks': {'guard': 'LIBVARIANT_SIM', 'enable': 'none needed: all seams are the public interfaces of the library or link-time replacements, no hook was added to the repository', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
