#!/usr/bin/env python3
# tools/mutants.py HEADER "PID PID ..." [count] [seed] : samples single-token mutants of a header (scratch copies) and runs the
# given checks on each; prints the ones no check flags, for review (equivalent, or a gap).
import sys, re, os, random, subprocess, tempfile, shutil
hdr, pids, count, seed = sys.argv[1], sys.argv[2].split(), int(sys.argv[3]) if len(sys.argv) > 3 else 20, int(sys.argv[4]) if len(sys.argv) > 4 else 1
base = os.environ.get('BASE', '/repo')
here = os.path.dirname(os.path.abspath(__file__))
src = open(f'{base}/include/thls/{hdr}').read().split('\n')
RULES = [(r'(?<![<>=!\-])<=(?!=)', '<'), (r'(?<![<>=!\-])>=(?!=)', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'==', '!='), (r'!=', '=='),
    (r'(?<=[\w\)]) ?\+ ?(?=[\w\(])', '-'), (r'(?<=[\w\)]) ?- ?(?=[\w\(])', '+'), (r'(?<!&)&(?!&)(?=\s?[\w!~\(])', '|'), (r'(?<!\|)\|(?!\|)', '&'), (r'&&', '||'), (r'\|\|', '&&'),
    (r'\^', '|'), (r'\b0\b(?!b|x)', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b2\b', '3'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'0b00', '0b01'), (r'0b01', '0b10'), (r'0b10', '0b11'), (r'0b11', '0b01'), (r'0b10', '0b00'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?!=)(?=[\w\(])', ''), (r'~(?=[\w\(])', ''), (r'\bwFX\b', 'wFY'), (r'\bwFY\b', 'wFX'), (r'\bzpad_hi\b', 'opad_hi'), (r'\bzg\b', 'og'), (r'\bog\b', 'zg'),
    (r'\btake_msb\b', 'take_lsb'), (r'MPFR_RNDN', 'MPFR_RNDZ'), (r'<<', '>>'), (r'>>(?=\s?[\w\(])', '<<')]
cand = []
com = False
for i, l in enumerate(src):
    c = re.sub(r'/\*.*?\*/', '', l)
    if com:
        if '*/' in c: com = False
        continue
    if '/*' in c: com = True; c = c[:c.index('/*')]
    c = c.split('//')[0]
    if re.search(r'assert|cerr|printf|throw|^\s*#|^\s*template|DEBUG|std::string|log\)|include|typedef struct|enable_if', c): continue
    lo, hi = int(os.environ.get('LO', 0)), int(os.environ.get('HI', 10**9))
    if not lo <= i + 1 <= hi: continue
    for k, (p, r) in enumerate(RULES):
        for m in re.finditer(p, c):
            if p in (r' < ', r' > ') and 'template' in c: continue
            cand.append((i, m.start(), m.end(), r))
random.seed(seed); random.shuffle(cand)
n = comp = caught = 0
for i, a, b, r in cand:
    if n >= count: break
    d = tempfile.mkdtemp(prefix='mtn_', dir='/tmp'); shutil.copytree(base + '/include', d + '/include')
    s = list(src); s[i] = s[i][:a] + r + s[i][b:]
    open(f'{d}/include/thls/{hdr}', 'w').write('\n'.join(s))
    res = []; bad = part = False
    for p in pids:
        try: q = subprocess.run(['python3', here + '/../check.py', p], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True, timeout=900); rc = q.returncode; o = q.stdout + q.stderr
        except subprocess.TimeoutExpired: rc = 124; o = ''
        res.append(rc)
        part = part or 'not analysed' in o
        if rc == 1: bad = True; break
        if rc == 3 and 'error:' in o: break
    shutil.rmtree(d)
    n += 1
    if res and res[-1] == 3: comp += 1; tag = 'NOANSWER' if 'error:' not in o else 'nocompile'
    elif bad: caught += 1; tag = 'caught'
    else: tag = 'SURVIVED' if not part else 'partial'
    if tag not in ('caught', 'nocompile'): print(f'{tag} {res} {hdr}:{i+1}: {src[i].strip()[:110]}  ==>  {s[i].strip()[:110]}', flush=True)
print(f'{hdr}: {n} mutants, {comp} do not compile / no answer, {caught} caught', flush=True)
