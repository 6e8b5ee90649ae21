"""usage: run.py [-f] TRANSFORM... : every transform applied to every package (-f: to every function separately) of a scratch copy; prints what the analyser says.
env SA = analyser, AR = autorefac binary, TESTS=1 to run the tests too, PK = packages (space separated)"""
import sys, os, subprocess, shutil, tempfile, re, json
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
sa = os.environ.get('SA', '/verif/bin/sa'); ar = os.environ.get('AR', '/tmp/autorefac')
C = 'internal/concrete/'
pkgs = os.environ.get('PK', '').split() or ['.'] + [C + p for p in 'bit character class class/node detail fact phrase remark story word'.split()]
args = sys.argv[1:]
per = '-f' in args
trs = [a for a in args if a != '-f'] or 'invert named closure defer impl free index switch temps checked vars forbreak failed alias compare literals hoist once blocks outparam tail rename fields unexported order'.split()
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def one(job):
    tr, pk, fn = job
    tmp = tempfile.mkdtemp(prefix='autoref'); repo = tmp + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    name = f"{tr}:{pk.replace(C, '')}{':' + fn if fn else ''}"
    try:
        r = run([ar, repo, tr, pk] + ([fn] if fn else []), repo)
        if r.returncode: return name + ' REWRITE ' + r.stdout[-300:]
        if 'changed' not in r.stdout: return None
        r = run(['bash', '-c', 'go build $(go list -e ./... | grep -vx github.com/mem-memov/semnet/internal/mock/phrase)'], repo)
        if r.returncode: return name + ' BUILD ' + r.stdout[:300]
        if os.environ.get('TESTS'):
            r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], repo); passed = set()
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
            if lost: return name + f' TESTS {sorted(lost)[:3]}'
        if os.environ.get('KEEP'):
            d = os.environ['KEEP'] + '/' + name.replace('/', '_'); shutil.rmtree(d, ignore_errors=True); shutil.copytree(repo, d, symlinks=True)
        import time
        t0 = time.time()
        try: r = subprocess.run([sa], env=dict(env, SA_DIR=repo, SA_SPEC='all'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700, errors='replace')
        except subprocess.TimeoutExpired: return name + ' TIMEOUT'
        open('/tmp/autoref/' + name.replace('/', '_') + '.out', 'w').write(r.stdout)
        v, u = {}, {}
        for l in r.stdout.splitlines():
            m = re.match(r'(violated|undecided) \[([^\]]*)\] (\S+) \[([^\]]*)\]', l)
            if not m: continue
            if m.group(1) == 'violated' and m.group(3) == 'complete-before-reach' and m.group(4) in ('bit.Fetch', 'bit.Provide', 'class.ProvideEntity'): continue
            d = v if m.group(1) == 'violated' else u
            for p in m.group(2).split(): d[p] = d.get(p, 0) + 1
        bad = re.findall(r'^BAD .*', r.stdout, re.M)
        ok = re.search(r'^C05 no-panic held (\d+)', r.stdout, re.M)
        return f"{name} {'ALARM' if v else 'undec' if u or r.returncode else 'quiet'} V {v} | U {u} {bad[:1]} {'RC %d' % r.returncode if r.returncode else ''} {ok.group(1) if ok else '-'} {time.time()-t0:.0f}s"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
os.makedirs('/tmp/autoref', exist_ok=True)
jobs = []
for tr in trs:
    for pk in pkgs:
        if per:
            for f in run([ar, '/repo', 'list', pk], '/repo').stdout.split(): jobs.append((tr, pk, f))
        else: jobs.append((tr, pk, ''))
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, jobs):
        if r: print(r, flush=True)
