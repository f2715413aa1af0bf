#!/usr/bin/env python3
"""Which lines of the library do the workloads reach? (development aid, no verdict)
usage: coverage.py [property...]   prints the uncovered executable lines per file."""
import glob, gzip, json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import CHECKS
ids = sys.argv[1:] or sorted(CHECKS)
for k in run.VARIANTS: run.VARIANTS[k] = ['g++', '-O0', '--coverage', '-fprofile-update=atomic']
hits = {}
for i in ids:
    w = tempfile.mkdtemp(prefix='cov')
    try:
        exes = run.build(CHECKS[i]['stages'], w)
        for st in CHECKS[i]['stages']:
            if st.get('args') == ['--wrap']: continue
            exe = exes[(st['src'], st['variant'])]
            n = max(1, min(st['quick'], 600))
            os.makedirs(w + '/scratch', exist_ok=True)
            env = dict(os.environ, **run.SAN_ENV)
            subprocess.run([exe, '--seed', '1', '--cases', str(n), '--out', w + '/o', '--scratch', w + '/scratch'] + st.get('args', []), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)
        for g in glob.glob(w + '/*.gcda'):
            subprocess.run(['gcov', '--json-format', '--stdout', g], cwd=w, stdout=open(w + '/g.json', 'wb'), stderr=subprocess.DEVNULL)
            for line in open(w + '/g.json'):
                try: d = json.loads(line)
                except ValueError: continue
                for f in d['files']:
                    p = os.path.join(d.get('current_working_directory', ''), f['file'])
                    if not p.startswith(run.REPO + '/'): continue
                    for l in f['lines']:
                        key = (p, l['line_number'])
                        hits.setdefault(key, {}); hits[key][i] = hits[key].get(i, 0) + l['count']
    finally:
        shutil.rmtree(w, ignore_errors=True)
files = {}
for (p, l), h in hits.items(): files.setdefault(p, {})[l] = sum(h.values())
for p in sorted(files):
    u = sorted(l for l, c in files[p].items() if c == 0)
    print('%s: %d of %d executable lines reached' % (os.path.relpath(p, run.REPO), len(files[p]) - len(u), len(files[p])))
    text = open(p, errors='replace').read().split('\n')
    for l in u: print('   %5d  %s' % (l, text[l - 1].strip()[:120]))
