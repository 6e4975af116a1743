#!/usr/bin/env python3
"""Creates and tests planted bugs in scratch copies of /repo (developer aid; no check uses it).

seed.py new FILE...   makes /verif/seeded/<id>/ from seed descriptions (Python files defining SEEDS)
seed.py test [ID...]  applies each, runs the stable tests and the demo with and without it
seed.py run [ID...]   the same, and then the property's check (-j N at a time)
seed.py check [ID...] only the property's check
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
V = '/verif/seeded'
R = '/repo'
DEMO = '''#!/bin/bash
# Runs the demonstration test in the package it belongs to, from outside the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zdemo_test.go" "$d/demo_test.go" > "$t/overlay.json"
timeout 250 go test %(flags)s-overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, **kw)

def copy():
    d = tempfile.mkdtemp(prefix='seedw.')
    sh(f'cp -a {R}/. {d}/ && git -C {d} checkout -q -- .')
    return d

def new(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d = f'{V}/{s["id"]}'
        if os.path.exists(d + '/patch.diff') and not os.environ.get('FORCE'):
            continue
        w = copy()
        ok = True
        for f, old, newtext in s['edits']:
            p = f'{w}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], f, 'matches', t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, newtext))
        diff = sh(f'git -C {w} diff').stdout
        shutil.rmtree(w)
        if not ok:
            continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], flags='-race ' if s.get('race') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        print('made', s['id'])

def demo(d, w):
    t = open(d + '/demo.sh').read().replace('. /opt/vp/env.sh', f'. /opt/vp/env.sh; cd {w}').replace('$(dirname "$0")', d)
    return sh(t, cwd=w)

def tests(w):
    o = tempfile.mktemp()
    sh(f'. /opt/vp/env.sh; cd {w}; go test -json -race -cpu=1 -vet=off -count=1 -timeout 2m ./... > {o}.j; python3 /opt/vp/results.py {o} gojson:{o}.j')
    r = json.load(open(o)); b = json.load(open('/opt/vp/BASELINE.json'))
    os.remove(o); os.remove(o + '.j')
    m = sorted(set(b['stable']) - set(r['passed']))
    return 'tests=ok' if not m else f'tests=BAD {m[:4]}'

def one(i, mode):
    d = f'{V}/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    res = [i, prop]
    w = copy()
    try:
        if mode != 'check':
            r = demo(d, w)
            res.append('demo0=ok' if r.returncode == 0 else 'demo0=BAD\n' + r.stdout[-1500:] + r.stderr[-500:])
        r = sh(f'git -C {w} apply {d}/patch.diff')
        if r.returncode:
            return f'{i} PATCH DOES NOT APPLY {r.stderr}'
        if mode != 'check':
            res.append(tests(w))
            r = demo(d, w)
            res.append('demo1=ok' if r.returncode else 'demo1=BAD(passes)')
            if 'build failed' in r.stdout: res.append('BUILDFAIL ' + r.stdout[-500:] + r.stderr[-500:])
        if mode != 'test' and all('BAD' not in x for x in res):
            v = tempfile.mkdtemp(prefix='seedv.')
            sh(f'cp -a /verif/bin /verif/zverif /verif/properties.jsonl /verif/known-findings.txt /verif/claimed.txt {v}/; mkdir {v}/evidence')
            t0 = time.time()
            r = sh(f'. /opt/vp/env.sh; VERIF_SEED=1 VERIF_TIER=quick timeout 900 {v}/bin/gosym -verif {v} -repo {w} {prop}')
            shutil.rmtree(v)
            vl = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            why = [l for l in r.stdout.splitlines() if 'assert' in l or ': ' in l][:1]
            res.append(('CAUGHT' if r.returncode == 1 and vl else f'MISSED rc={r.returncode} ' + r.stdout[-300:]) + f' {time.time()-t0:.0f}s {why[:1]}')
    finally:
        shutil.rmtree(w)
    return ' | '.join(res)

args = sys.argv[2:]
jobs = 1
if '-j' in args:
    k = args.index('-j'); jobs = int(args[k + 1]); del args[k:k + 2]
if sys.argv[1] == 'new':
    for p in args: new(p)
else:
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(one, i, sys.argv[1]) for i in args or sorted(os.listdir(V))]:
            print(f.result(), flush=True)
