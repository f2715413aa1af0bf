#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): mutates a scratch copy of /repo, runs the checks of the
mutated file against it (VERIF_REPO) and reports survivors, with the verdict of the stable tests on them.
usage: mutate.py SCRATCH_REPO FILE CHECK,CHECK,... [--sample N] [--scale X] [--tests test.sh] [--lines A-B]"""
import argparse, json, os, random, re, subprocess, sys
ap = argparse.ArgumentParser()
ap.add_argument('repo'); ap.add_argument('file'); ap.add_argument('checks')
ap.add_argument('--sample', type=int, default=10**6); ap.add_argument('--scale', default='0.3')
ap.add_argument('--tests'); ap.add_argument('--lines'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--log', default='/tmp/mutants.log')
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(a.repo, a.file)
orig = open(path).read()
lines = orig.split('\n')
OPS = [(r'(?<![<>=!\-])<(?![<=])\s', '<= '), (r'(?<![<>=!\-])>(?![>=])\s', '>= '), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'(?<=[\w)\]])\s*\+\s*(?=[\w(])(?!\+)', ' - '), (r'(?<=[\w)\]])\s*-\s*(?=[\w(])', ' + '), (r'\+=', '-='), (r'-=', '+='),
       (r'(?<=[\w)\]])\s*\*\s*(?=[\w(])', ' / '), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '2.0'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'),
       (r'(?<![\w.])2(?![\w.])', '1'), (r'\+\+(\w+)', r'--\1'), (r'(\w+)\+\+', r'\1--'), (r'\+\+(\w+)', r'\1'),
       (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'), (r'\.begin\(\)', '.end()'), (r'\.end\(\)', '.begin()'),
       (r'upper_bound', 'lower_bound'), (r'lower_bound', 'upper_bound'), (r'\bbreak;', ';'), (r'if \((.*)\) \{', r'if (!(\1)) {'), (r'if\((.*)\) \{', r'if (!(\1)) {'),
       (r'first', 'second'), (r'second', 'first'), (r'initial', 'final'), (r'final', 'initial'), (r'start', 'end')]
lo, hi = (map(int, a.lines.split('-')) if a.lines else (1, len(lines)))
muts = []
for i, l in enumerate(lines):
    s = l.strip()
    if not lo <= i + 1 <= hi or not s or s.startswith(('//', '*', '/*', '#', 'template', 'typedef', 'using', '///')):
        continue
    code = l.split('//')[0]
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if new != code: muts.append((i, new))
    if s.endswith(';') and not s.startswith(('return', 'const', 'throw', 'typedef', 'using', 'friend')) and ('(' in s or '=' in s) and not re.match(r'^[\w:<>, ]+ \w+( = .*|\(.*\))?;$', s):
        muts.append((i, re.sub(r'\S.*', ';', code, count=1)))
muts = list(dict.fromkeys(muts))
random.Random(a.seed).shuffle(muts)
muts = sorted(muts[:a.sample])
log = open(a.log, 'a')
def say(x):
    print(x, flush=True); log.write(x + '\n'); log.flush()
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
n = dict(killed=0, survived=0, tests=0, broken=0)
say('# %s: %d mutants' % (a.file, len(muts)))
checks = a.checks.split(',')
for i, new in muts:
    t = list(lines); t[i] = new
    open(path, 'w').write('\n'.join(t))
    verdict, notes = None, ''
    try:
        for c in checks:
            p = subprocess.run(['python3', os.path.join(V, 'run.py'), c, '--scale', a.scale], cwd=V, env=dict(os.environ, VERIF_REPO=a.repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1: verdict = c; break
            if p.returncode == 2:
                notes += ' ' + c + ':2'
        if verdict:
            n['killed'] += 1
            checks.remove(verdict); checks.insert(0, verdict)
            say('killed %s L%d: %s' % (verdict, i + 1, new.strip()))
            continue
        if a.tests:
            subprocess.run(['bash', a.tests, '/tmp/mt/out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = set(json.load(open('/tmp/mt/out.json'))['passed'])
            if stable - ok:
                n['tests'] += 1
                say('TESTKILL L%d: %s   (%d tests)%s' % (i + 1, new.strip(), len(stable - ok), notes)); continue
        n['survived'] += 1
        say('SURVIVED L%d: %s   <- %s%s' % (i + 1, new.strip(), lines[i].strip(), notes))
    finally:
        open(path, 'w').write(orig)
say('# %s: %s' % (a.file, n))
