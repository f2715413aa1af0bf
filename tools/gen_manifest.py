#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
TECH = {
 'asan': 'reference-oracle monitor under AddressSanitizer+UBSan',
 'dbg': 'reference-oracle monitor under AddressSanitizer+UBSan+debug containers',
 'tsan': 'monitor under ThreadSanitizer',
 'plain': 'memcheck run', 'rel': 'optimised stress run',
}
SPECIAL = {
 'C14': 'offline checker of recorded key requests (uniqueness, order) + ThreadSanitizer',
 'C15': 'AddressSanitizer, UBSan, LeakSanitizer, debug containers and valgrind memcheck on random API histories',
 'C16': 'ThreadSanitizer plus bitwise comparison of concurrent with sequential results',
 'C23': 'forked misuse runs observed for fatal check/exception under AddressSanitizer+UBSan',
}
NOTE = ('Held on the executions produced: seeded random and hostile workloads run through the real code and judged by an independent oracle online. '
        'It is not a proof: inputs and histories that were not generated are not covered. Trusted: the oracle in harness/%s, compiler and sanitizer runtimes.')
KNOTE = (' The code needs kindr%s, which is not installed: it is compiled against the minimal stand-in in shim/, so kindr\'s own behaviour is trusted as modelled there.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p not in CHECKS:
        na.append(dict(property=p, reason='no check yet')); continue
    s = CHECKS[p]['stages'][0]
    note = NOTE % s['src']
    if s.get('kindr'):
        note += KNOTE % (' and ROS' if s.get('ros') else '')
    checks.append(dict(property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='python3 run.py %s --thorough' % p,
                       technique='runtime monitoring: ' + SPECIAL.get(p, TECH[s['variant']]), level='exploration', level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='none', enable='no hooks are needed: all monitors observe the public interface; no guarded code was added to /repo', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
