"""Writes /verif/seeded/<id>/ from a description file and verifies it in a scratch copy.
usage: plant.py FILE.py [id...]   FILE.py defines BUGS = [dict(id, property, edits, needs, breaks, demo)]
edits: list of (file, old, new) with old occurring exactly once (or (file, old, new, n) for the n-th)."""
import sys, os, subprocess, shutil, json, tempfile
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for b in ns['BUGS']:
    if want and b['id'] not in want: continue
    d = '/verif/seeded/' + b['id']
    tmp = tempfile.mkdtemp(prefix='plant')
    repo = tmp + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    ok = True
    try:
        for e in b['edits']:
            f, old, new = e[:3]
            p = repo + '/' + f
            s = open(p).read()
            c = s.count(old)
            n = e[3] if len(e) > 3 else None
            if c == 0 or (n is None and c != 1):
                print(b['id'], 'EDIT', f, 'occurs', c, repr(old[:60])); ok = False; break
            i = -1
            for _ in range((n or 0) + 1): i = s.index(old, i + 1)
            open(p, 'w').write(s[:i] + new + s[i + len(old):])
        if not ok: continue
        r = run(['gofmt', '-l', '.'], repo)
        diff = run(['git', 'diff'], repo).stdout
        r = run(['bash', '-c', 'go build $(go list -e ./... | grep -vx github.com/mem-memov/semnet/internal/mock/phrase)'], repo)
        if r.returncode: print(b['id'], 'BUILD', r.stdout[:600]); continue
        r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], repo)
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
        lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
        if lost: print(b['id'], 'TESTS FAIL', sorted(lost)); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(here + '/helper_test.go', d); shutil.copy(here + '/demo.sh', d)
        open(d + '/demo_test.go', 'w').write(b['demo'])
        run(['gofmt', '-w', d + '/demo_test.go'], d)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = run(['bash', d + '/demo.sh'], '/repo')
        r2 = run(['bash', d + '/demo.sh'], repo)
        good = r1.returncode == 0 and r2.returncode != 0 and '--- FAIL' in r2.stdout + r1.stdout or ('panic' in r2.stdout and r1.returncode == 0)
        print(b['id'], b['property'], 'clean', r1.returncode, 'patched', r2.returncode, 'OK' if good else 'BAD')
        if not good: print(r1.stdout[:1500], '\n---\n', r2.stdout[:1500])
        elif os.environ.get('V'): print(r2.stdout[:500])
    finally:
        shutil.rmtree(tmp)
