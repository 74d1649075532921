#!/usr/bin/env python3
"""Makes and validates a planted bug: seed.py <spec.py> [id...]
A spec defines SEEDS: list of dicts id, property, needs, breaks, edits
[(file, old, new)], demo (Go source), lib (bool: forging library), flags."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    w = '/tmp/seed_' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}')
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) < 1: print(s['id'], 'edit not found in', f, repr(old[:60])); ok = False; break
        if t.count(old) > 1 and not s.get('first'): print(s['id'], 'edit ambiguous in', f, t.count(old)); ok = False; break
        open(p, 'w').write(t.replace(old, new, 1))
    if not ok: shutil.rmtree(w); continue
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f'cd {w} && gofmt -l phase1 phase2 keys common lagrange')
    open(d + '/patch.diff', 'w').write(sh(f'git -C {w} diff').stdout)
    shutil.copy(V + '/tools/seedlib/demo.sh', d)
    open(d + '/demo.go', 'w').write(s['demo'])
    if s.get('lib', True):
        for f in ('points.go', 'files.go', 'lib.go'):
            src = V + '/harness/' + f
            if not os.path.exists(src): src = V + '/tools/seedlib/' + f
            shutil.copy(src, d)
    if s.get('flags'): open(d + '/flags', 'w').write(s['flags'] + '\n')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {w}').replace('LOGS=/opt/vp/logs', f'LOGS={w}.logs')
    b = sh(f'. /opt/vp/env.sh; cd {w} && go build ./... && go build -tags verif ./...')
    if b.returncode: print(s['id'], 'BUILD', b.stderr[-1500:]); shutil.rmtree(w); continue
    open(w + '.test.sh', 'w').write(t)
    r = sh(f'bash {w}.test.sh {w}.json')
    res = json.load(open(w + '.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('stable_pass') or base
    passed = set(res.get('passed', []))
    missing = [x for x in ns.get('STABLE', []) if x not in passed]
    clean = sh(f'cd /repo && bash {d}/demo.sh')
    bad = sh(f'cd {w} && bash {d}/demo.sh')
    print(s['id'], 'tests', r.stdout.strip()[-60:], '| clean', clean.returncode, '| patched', bad.returncode, bad.stdout.strip()[-160:], bad.stderr.strip()[-160:])
    if clean.returncode: print(clean.stdout[-600:], clean.stderr[-600:])
    sh(f'rm -rf {w}.logs {w}.json {w}.test.sh')
    if '--keep' not in sys.argv: pass
