#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the list of workloads present in sim/work and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.join(HERE, '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
PURE = {
 'C23': 'pure function of its input: no schedule, clock, I/O, allocator or caller in it; generating inputs would only dress up input generation as simulation (conversion is exercised inside C06, C07, C20 and C21, where streams, threads and allocations fail)',
 'C24': 'pure function over caller-sized buffers, no environment involved (exercised under thread interleavings in C20 and allocation failure in C21)',
 'C25': 'pure function of two strings; nothing the simulator controls can influence it',
 'C26': 'pure arithmetic over its arguments; only the callback-driven enumeration has an environment, and that part is claimed in C22',
 'C27': 'pure functions of one buffer; the allocation-failure behaviour of those that allocate is claimed in C21',
}
LEVEL_NOTE = 'seeded search over fault sequences and schedules; samples, does not enumerate: a clean batch is evidence, not proof'
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'sim', 'work', i + '.cpp')):
        checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i,
                       'technique': 'deterministic simulation with fault injection: seeded search, minimised replay', 'level': 'exploration',
                       'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': PURE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
