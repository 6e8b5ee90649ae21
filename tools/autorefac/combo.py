"""usage: combo.py FIRST COUNT : random combinations of transforms (per package one or two, in sequence); prints what the analyser says.
env SA, AR, TESTS as for run.py; STEPS = transforms per copy"""
import sys, os, subprocess, shutil, tempfile, re, json, random
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
sa = os.environ.get('SA', '/verif/bin/sa'); ar = os.environ.get('AR', '/tmp/autorefac')
C = 'internal/concrete/'
pkgs = ['.'] + [C + p for p in 'bit character class class/node detail fact phrase remark story word'.split()]
trs = 'invert named closure defer impl free index switch temps checked vars forbreak failed alias compare literals hoist once blocks outparam tail rename fields unexported order steps'.split()
per_func = set('invert named closure defer impl free index switch temps checked vars forbreak alias compare literals hoist once blocks outparam tail steps'.split())
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def builds(repo):
    return run(['bash', '-c', 'go build $(go list -e ./... | grep -vx github.com/mem-memov/semnet/internal/mock/phrase)'], repo)
def one(seed):
    rnd = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='combo'); repo = tmp + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    done = []
    try:
        for _ in range(int(os.environ.get('STEPS', '14'))):
            tr = rnd.choice(trs); pk = rnd.choice(pkgs); fn = []
            if tr in per_func and rnd.random() < .7:
                fs = run([ar, repo, 'list', pk], repo).stdout.split()
                if not fs: continue
                fn = [rnd.choice(fs)]
            shutil.copytree(repo, tmp + '/prev', symlinks=True)
            r = run([ar, repo, tr, pk] + fn, repo)
            ok = r.returncode == 0 and 'changed' in r.stdout and builds(repo).returncode == 0
            if ok: done.append(f"{tr}:{pk.replace(C, '')}:{''.join(fn)}")
            else: shutil.rmtree(repo); shutil.move(tmp + '/prev', repo)
            shutil.rmtree(tmp + '/prev', ignore_errors=True)
        name = f'combo{seed}'
        if os.environ.get('TESTS'):
            r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], repo); passed = set()
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
            if lost: return name + f' TESTS {sorted(lost)[:3]} {done}'
        import time
        t0 = time.time()
        try: r = subprocess.run([sa], env=dict(env, SA_DIR=repo, SA_SPEC='all'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700, errors='replace')
        except subprocess.TimeoutExpired: return name + f' TIMEOUT {done}'
        v, u = {}, {}
        for l in r.stdout.splitlines():
            m = re.match(r'(violated|undecided) \[([^\]]*)\] (\S+) \[([^\]]*)\]', l)
            if not m: continue
            if m.group(1) == 'violated' and m.group(3) == 'complete-before-reach' and m.group(4) in ('bit.Fetch', 'bit.Provide', 'class.ProvideEntity'): continue
            d = v if m.group(1) == 'violated' else u
            for p in m.group(2).split(): d[p] = d.get(p, 0) + 1
        bad = re.findall(r'^BAD .*', r.stdout, re.M)
        if v or u or bad or r.returncode:
            d = f'/tmp/combo/{name}'; shutil.rmtree(d, ignore_errors=True); shutil.copytree(repo, d, symlinks=True)
            open(f'/tmp/combo/{name}.out', 'w').write(r.stdout)
        return f"{name} {'ALARM' if v else 'undec' if u or r.returncode else 'quiet'} V {v} | U {u} {bad[:1]} {'RC %d' % r.returncode if r.returncode else ''} {time.time()-t0:.0f}s {done if v or u or bad else len(done)}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
os.makedirs('/tmp/combo', exist_ok=True)
a, c = int(sys.argv[1]), int(sys.argv[2])
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, range(a, a + c)): print(r, flush=True)
