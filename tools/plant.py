#!/usr/bin/env python3
"""plant.py ID [--nocheck] [--tier T]: turn /tmp/plant/ID/{spec.py,main.go} into seeded/ID after confirming it.
spec.py defines: property, needs, breaks, edits=[(file, old, new[, count])], optional race=True, plc=True (copy of the controller model), enip=True (copy of the small EtherNet/IP client)."""
import sys, os, subprocess, shutil, json, runpy, re
V = '/verif'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off')

def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

def edit(root, f, old, new, n=1):
    p = os.path.join(root, f)
    s = open(p, newline='').read()
    crlf = '\r\n' in s
    s = s.replace('\r\n', '\n')
    if s.count(old) != n: sys.exit(f'{f}: {s.count(old)} matches of {old[:60]!r}')
    s = s.replace(old, new)
    if crlf: s = s.replace('\n', '\r\n')
    open(p, 'w', newline='').write(s)

def tests(repo):
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = set(x if isinstance(x, str) else x.get('name', x.get('id')) for x in (base.get('passed') or base.get('stable') or base.get('tests') or []))
    rc, out = sh('go test -json ./... 2>/dev/null', repo, t=600)
    st = {}
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Test') and d.get('Action') in ('pass', 'fail', 'skip'): st[d['Package'], d['Test']] = d['Action']
    return base, names, st

def check(repo, prop, tier, seed, tmp):
    shutil.copy(V + '/harness/go.sum', tmp + '/go.sum')
    m = open(V + '/harness/go.mod').read().replace('=> /repo', '=> ' + repo)
    open(tmp + '/go.mod', 'w').write(m)
    env = dict(ENV, GOFLAGS='-mod=mod', CGO_ENABLED='1', VERIF_SEED=str(seed))
    rc, out = sh(f'go build -race -modfile={tmp}/go.mod -o {tmp}/vrun ./cmd/vrun', V + '/harness', env)
    if rc: return 99, out
    os.makedirs(tmp + '/v', exist_ok=True)
    shutil.copy(V + '/known_findings.txt', tmp + '/v')
    os.makedirs(tmp + '/tmp', exist_ok=True)
    return sh(f'TMPDIR={tmp}/tmp unshare -rn sh -c "ip link set lo up; exec {tmp}/vrun -prop {prop} -tier {tier} -verif {tmp}/v"', tmp, env)

def main():
    i = sys.argv[1]
    src = '/tmp/plant/' + i
    spec = runpy.run_path(src + '/spec.py')
    tmp = f'/tmp/plantwork.{i}'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    repo = tmp + '/repo'
    sh(f'cp -a /repo {repo}')
    sh('git checkout -q -- . && git clean -fdq', repo)
    d = tmp + '/seed'
    os.makedirs(d + '/src')
    shutil.copy(src + '/main.go', d + '/src')
    if spec.get('plc', True): shutil.copytree(V + '/harness/plc', d + '/src/plc')
    if spec.get('enip'): shutil.copytree(V + '/tools/demo/enip', d + '/src/enip')
    s = open(V + '/tools/demo/demo.sh').read().replace('RACE', '-race' if spec.get('race') else '')
    open(d + '/demo.sh', 'w').write(s); os.chmod(d + '/demo.sh', 0o755)
    denv = {k: v for k, v in ENV.items() if not k.startswith('VERIF')}
    for k in range(2):
        rc, out = sh(f'unshare -rn sh -c "ip link set lo up; exec bash {d}/demo.sh"', repo, denv, 300)
        if rc: sys.exit(f'demo fails on the unchanged tree: {rc}\n{out[-3000:]}')
    base_rc, base_names, base_st = 0, None, None
    for e in spec['edits']: edit(repo, *e)
    rc, out = sh('git diff', repo)
    rc, names = sh('git diff --name-only', repo)
    subprocess.run(f'git diff > {d}/patch.diff', shell=True, cwd=repo)
    # do the changed lines come from the original tree?
    rc, bl = sh("git diff -U0 | grep -c '^-[^-]'", repo)
    rc, out = sh('go build ./... && go vet . 2>&1 | head -5', repo)
    if rc: sys.exit('build: ' + out[-2000:])
    rc, out = sh('git apply --check -R ' + d + '/patch.diff', repo)
    if rc: sys.exit('patch: ' + out)
    rc, out = sh(f'unshare -rn sh -c "ip link set lo up; exec bash {d}/demo.sh"', repo, denv, 300)
    print('demo with patch: rc', rc, out[-600:])
    if rc == 0 or rc == 3: sys.exit('demo does not fail with the change')
    base, nm, st = tests(repo)
    bad = [k for k, v in st.items() if v == 'fail']
    want = nm
    keyed = {f'{p}::{t}' for (p, t) in st} | {t for (_, t) in st} | {f'{p}/{t}' for (p, t) in st}
    fails = []
    for p, t in bad:
        for key in (f'{p}::{t}', t, f'{p}/{t}', f'{p}.{t}', f'{p}:{t}'):
            if key in want: fails.append(key)
    print('tests:', len(st), 'failed', len(bad), 'stable failed', fails[:5])
    if fails: sys.exit('breaks stable tests')
    # origin of changed lines
    rc, hunks = sh("git diff -U0 | grep -E '^(---|@@)'", repo)
    f = None; own = orig = 0
    for l in hunks.splitlines():
        if l.startswith('---'): f = l[6:]
        else:
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l); a = int(m[1]); n = int(m[2]) if m[2] is not None else 1
            if n == 0: continue
            rc, b = sh(f'git blame -s -L {a},+{n} HEAD -- {f}', repo)
            for x in b.splitlines():
                if x.startswith('^') or x.split()[0].lstrip('^').startswith('4ab812b'): orig += 1
                else: own += 1
    print('changed lines: original', orig, 'mine', own)
    if not orig: print('WARNING: changes no original line')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(f'{V}/seeded/{i}', ignore_errors=True)
    shutil.copytree(d, f'{V}/seeded/{i}')
    if '--nocheck' not in sys.argv:
        rc, out = check(repo, spec['property'], 'quick', 1, tmp)
        print('check', spec['property'], 'rc', rc); print('\n'.join(out.splitlines()[:6])[:1200])
    shutil.rmtree(tmp, ignore_errors=True)
main()
