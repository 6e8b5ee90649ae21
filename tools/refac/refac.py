"""Applies behaviour-preserving edits to scratch copies and prints what the analyser says.
usage: refac.py FILE.py [id...]   FILE.py defines R = [dict(id, edits)]; env SA = analyser binary.
edits: (file, old, new) or (file, old, new, n) with n='all' for every occurrence, or (file, None, text) for a new file."""
import sys, os, subprocess, shutil, json, tempfile, re
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
sa = os.environ.get('SA', '/verif/bin/sa')
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(b):
    tmp = tempfile.mkdtemp(prefix='refac'); repo = tmp + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    try:
        for e in b['edits']:
            f, old, new = e[:3]; p = repo + '/' + f
            if old is None:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(new); continue
            s = open(p).read()
            if old.startswith('@'):  # a whole function
                i = s.find('\n' + old[1:])
                if i < 0: return f"{b['id']} EDIT {f} no {old}"
                j = s.index('\n}\n', i) + 3
                open(p, 'w').write(s[:i + 1] + new.strip('\n') + '\n' + s[j:]); continue
            c = s.count(old); n = e[3] if len(e) > 3 else None
            if c == 0 or (n is None and c != 1): return f"{b['id']} EDIT {f} occurs {c} {old[:60]!r}"
            if n == 'all': s = s.replace(old, new)
            else:
                i = -1
                for _ in range((n or 0) + 1): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        if os.environ.get('KEEP'):
            d = os.environ['KEEP'] + '/' + b['id']; shutil.rmtree(d, ignore_errors=True); shutil.copytree(repo, d, symlinks=True)
        r = run(['bash', '-c', 'go build $(go list -e ./... | grep -vx github.com/mem-memov/semnet/internal/mock/phrase)'], repo)
        if r.returncode: return f"{b['id']} BUILD {r.stdout[:600]}"
        if not os.environ.get('NOTEST'):
            r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], repo)
            passed = set()
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
            if lost: return f"{b['id']} TESTS FAIL {sorted(lost)}"
        try:
            r = subprocess.run([sa], env=dict(env, SA_DIR=repo, SA_SPEC='all'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700, errors='replace')
        except subprocess.TimeoutExpired: return f"{b['id']} TIMEOUT"
        open(f"/tmp/refac.{b['id']}.out", 'w').write(r.stdout)
        v, u = {}, {}
        for l in r.stdout.splitlines():
            m = re.match(r'(violated|undecided) \[([^\]]*)\] (\S+) \[([^\]]*)\]', l)
            if not m: continue
            if m.group(1) == 'violated' and m.group(3) == 'complete-before-reach' and m.group(4) in ('bit.Fetch', 'bit.Provide', 'class.ProvideEntity'): continue
            d = v if m.group(1) == 'violated' else u
            for p in m.group(2).split(): d[p] = d.get(p, 0) + 1
        bad = re.findall(r'^BAD .*', r.stdout, re.M)
        return f"{b['id']} {'ALARM' if v else 'quiet'} V {v} | U {u} {bad[:2]} {'' if r.returncode == 0 else 'RC %d' % r.returncode}"
    finally: shutil.rmtree(tmp)
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, [b for b in ns['R'] if not want or b['id'] in want]): print(l, flush=True)
