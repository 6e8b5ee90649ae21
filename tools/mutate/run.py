"""usage: run.py MUTANTS.json COUNT [SEED] [FILTER]: applies a random sample of the changes, one at a time, and prints those that build and pass
the tests, with what the analyser says.   env SA, JOBS"""
import sys, os, subprocess, shutil, tempfile, re, json, random, queue
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
sa = os.environ.get('SA', '/verif/bin/sa')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ms = [json.loads(l) for l in open(sys.argv[1])]
if len(sys.argv) > 4: ms = [m for m in ms if re.search(sys.argv[4], m['what'])]
random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(ms)
ms = ms[:int(sys.argv[2])]
jobs = int(os.environ.get('JOBS', '7'))
tmp = tempfile.mkdtemp(prefix='mutate')
free = queue.Queue()
for i in range(jobs):
    shutil.copytree('/repo', f'{tmp}/{i}', symlinks=True); free.put(f'{tmp}/{i}')
def run(cmd, cwd, t=60):
    try: return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return None
def one(m):
    d = free.get()
    f = m['file'].replace('/repo', d, 1)
    old = open(f, 'rb').read()
    try:
        open(f, 'wb').write(old[:m['from']] + m['text'].encode() + old[m['to']:])
        if run(['bash', '-c', 'go build $(go list -e ./... | grep -vx github.com/mem-memov/semnet/internal/mock/phrase)'], d).returncode: return 'nobuild'
        r = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '20s', './...'], d)
        if r is None: return 'tests'
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
        if stable - passed: return 'tests'
        r = run([sa], None, 700) if False else None
        try: r = subprocess.run([sa], env=dict(env, SA_DIR=d, SA_SPEC='all'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700, errors='replace')
        except subprocess.TimeoutExpired: return 'TIMEOUT'
        v, u = {}, {}
        for l in r.stdout.splitlines():
            k = re.match(r'(violated|undecided) \[([^\]]*)\] (\S+) \[([^\]]*)\]', l)
            if not k: continue
            if k.group(1) == 'violated' and k.group(3) == 'complete-before-reach' and k.group(4) in ('bit.Fetch', 'bit.Provide', 'class.ProvideEntity'): continue
            x = v if k.group(1) == 'violated' else u
            for p in k.group(2).split(): x[p] = x.get(p, 0) + 1
        return ('ALARM' if v else 'undec' if u else 'SILENT') + f' V {v} U {u}' + (f' RC {r.returncode}' if r.returncode else '')
    finally:
        open(f, 'wb').write(old)
        free.put(d)
n = {}
with ThreadPoolExecutor(jobs) as ex:
    for m, r in zip(ms, ex.map(one, ms)):
        n[r.split()[0]] = n.get(r.split()[0], 0) + 1
        if r not in ('nobuild', 'tests'): print(r.split()[0], m['what'], '|', r, '|', json.dumps(m['text'])[:80], flush=True)
print(n)
shutil.rmtree(tmp, ignore_errors=True)
