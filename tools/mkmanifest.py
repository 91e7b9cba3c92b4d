#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, vlib
MC = 'TLA+/TLC: '
NOTE = ('Bounded. TLC explores the specification completely within its bounds and judges every recorded run of the real code (no verdict is '
        'computed outside TLA+); runs cover all behaviours emitted by the specification and seeded random ones. Trusts TLC, the harness that records, '
        'and that inputs not run behave like those run. ')
WHAT = {
    'C01': ('error bound judged on decompressed frames by exact rational arithmetic in TLA+; error-control loop model-checked (ErrCtl)', ''),
    'C02': ('losslessness at error 0 judged on decompressed series; error-control loop model-checked (ErrCtl)', ''),
    'C03': ('stream parsed by the TLA+ wire grammar, sample counts against the input', ''),
    'C04': ('TLC-enumerated series and recorded runs; RLE round trip', ''),
    'C05': ('TLC-enumerated series and recorded runs; rounding defined in TLA+ on bit patterns', ''),
    'C06': ('reported error against the exact error, computed in TLA+', ''),
    'C07': ('choice among recorded candidates judged against the TLA+ selection rule', ''),
    'C08': ('plans of TLC-enumerated lengths and recorded series against the partition rule', ''),
    'C09': ('recorded stream sessions against the stream machine', ''),
    'C10': ('wire grammar in TLA+: TLC-generated streams decoded by the code, and the code\'s bytes equal to the TLA+ encoding', ''),
    'C11': ('crash points (every cut), magics and versions enumerated by TLC over the stream machine, replayed into the code', ''),
    'C12': ('recorded multi-process histories validated as behaviours of a function machine', ''),
    'C13': ('range and end points judged on decompressed frames', ''),
    'C14': ('WBRO machine (append/save/reload) model-checked, its behaviours replayed, recorded histories judged', ''),
    'C15': ('time-index machine model-checked; its behaviours replayed, recorded histories judged', ''),
    'C16': ('time-index machine model-checked; its behaviours replayed, recorded histories judged', ''),
    'C17': ('time-index machine model-checked; its behaviours replayed, recorded histories judged', ''),
    'C18': ('time-index machine model-checked; its behaviours replayed, recorded histories judged', ''),
    'C19': ('time-index machine with save/reload model-checked; its behaviours replayed, recorded histories judged', ''),
    'C20': ('command machine over a small directory model-checked; its behaviours replayed through the real commands', ''),
    'C21': ('directory contents enumerated by TLC, replayed through the real commands', ''),
    'C22': ('CSV files enumerated by TLC, replayed through the real command', ''),
    'C23': ('CSV-compressor machine; TLC-enumerated row sequences replayed through the real command', ''),
    'C24': ('torn-write machine; every limit replayed through the real commands', ''),
    'C25': ('WAV files enumerated by TLC, replayed through the real command', ''),
    'C26': ('index files in every division into runs enumerated by TLC and loaded by the code; saved files read by the TLA+ grammar of the layout', ''),
    'C27': ('command machine of the CSV tool model-checked; its sequences of runs replayed through the real command', ''),
    'C28': ('command lines enumerated by TLC with what they stand for, replayed through the real commands', ''),
    'C29': ('interleavings of commands model-checked; TLC-emitted schedules enforced on the real commands, access by access', ''),
    'C30': ('commands under short, interrupted and failing accesses and kills model-checked; TLC-emitted fault plans enforced on the real commands', ''),
    'C31': ('runs of a printing machine enumerated by TLC, replayed through the real command', ''),
    'C32': ('clock machine: times enumerated by TLC, and recorded answers judged', ''),
    'C33': ('measures defined exactly in TLA+ (numbers of any size); pairs enumerated by TLC and recorded answers judged', ''),
    'C34': ('ways of writing a path and combinations of surroundings enumerated by TLC, replayed through the real commands', ''),
    'C35': ('choice of a codec by sample level model-checked; recorded choices judged by the same operators and exact errors', ''),
    'C36': ('discrete Fourier transform in TLA+ (model-checked with Parseval and inversion); recorded spectra judged against it', ''),
    'C37': ('the order of trials model-checked (Spacing, ErrCtl); every coarser trial reconstructed and judged against the bound by exact rational arithmetic in TLA+', ''),
    'C38': ('one pass over a series model-checked against exact definitions in TLA+; series enumerated by TLC and recorded answers judged', ''),
}
props = [json.loads(l) for l in open(os.path.join(vlib.VERIF, 'properties.jsonl'))]
have = check.table()
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 tools/check.py %s' % p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % p['id'],
                 'technique': 'TLA+/TLC model-based conformance: ' + WHAT[p['id']][0], 'level': 'model_checking',
                 'level_note': NOTE + WHAT[p['id']][1]} for p in props if p['id'] in have],
     'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in props if p['id'] not in have]}
with open(os.path.join(vlib.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
