"""usage: seed.py specfile...   spec: python file defining id, property, edits=[(file, old, new)], needs, breaks, demo"""
import sys, os, subprocess, json, shutil, re
ENV = dict(os.environ, LD_LIBRARY_PATH='/opt/venv/lib', JAX_PLATFORMS='cpu', MKL_NUM_THREADS='1', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/w/mpl', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
export LD_LIBRARY_PATH=/opt/venv/lib JAX_PLATFORMS=cpu MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, env=ENV, **k)
def one(spec, tests=True, check=True):
    ns = {}; exec(open(spec).read(), ns)
    i = ns['id']; w = f'/tmp/s/{i}'; out = f'/verif/seeded/{i}'
    shutil.rmtree(w, ignore_errors=True); sh(f'cp -a /repo {w}')
    os.makedirs(out, exist_ok=True)
    for f, old, new in ns['edits']:
        p = f'{w}/simphox/{f}'; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = sh('git diff', cwd=w).stdout; open(out + '/patch.diff', 'w').write(d)
    # blame
    bad = []; base = sh('git -C /repo rev-list 26d4834').stdout.split()
    for f in {e[0] for e in ns['edits']}:
        dd = sh(f'git diff -U0 simphox/{f}', cwd=w).stdout
        for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
            n = int(n) if n else 1
            if n == 0: bad.append((f, a, 'pure insertion')); continue
            bl = sh(f'git blame -s -l -L {a},+{n} HEAD -- simphox/{f}', cwd=w).stdout
            for l in bl.splitlines():
                if l.split()[0].lstrip('^')[:39] not in [b[:39] for b in base]: bad.append((f, a, l[:120]))
    open(out + '/demo.py', 'w').write(ns['demo']); open(out + '/demo.sh', 'w').write(DEMO)
    json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(out + '/meta.json', 'w'), indent=1)
    res = {'id': i, 'blame': bad}
    ru = sh(f'bash {out}/demo.sh', cwd='/repo'); rp = sh(f'bash {out}/demo.sh', cwd=w)
    res['demo'] = (ru.returncode, rp.returncode)
    if ru.returncode: print(ru.stderr[-1500:])
    print('   patched demo:', (rp.stdout + rp.stderr).strip().splitlines()[-1:])
    if tests:
        sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=/tmp/s/{i}.xml tests', cwd=w)
        import xml.etree.ElementTree as ET
        failed = []
        for t in ET.parse(f'/tmp/s/{i}.xml').iter('testcase'):
            if any(c.tag in ('failure', 'error') for c in t): failed.append(f"{t.get('classname')}::{t.get('name')}")
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        st2 = ' '.join(st)
        res['tests_failed'] = [x for x in failed if x.split('::')[-1] in st2]
        os.remove(f'/tmp/s/{i}.xml')
    if check and res['demo'][0] == 0 and res['demo'][1] != 0:
        for c in [ns['property']] + ns.get('also', []):
            e = dict(ENV, VERIF_SEED='1', VERIF_TIER='quick')
            v = f'/tmp/s/verif-{i}'; shutil.rmtree(v, ignore_errors=True); os.makedirs(v)
            sh(f'cp -a /verif/harness /verif/run.sh /verif/setup.sh /verif/known_findings.txt {v}/')
            q = subprocess.run(['unshare', '-rm', 'bash', '-c', f'mount --bind {w} /repo && mount --bind {v} /verif && cd /verif && bash run.sh {c} quick'], capture_output=True, text=True, env=e)
            lines = [l for l in q.stdout.splitlines() if ' case=' in l]
            res['check_' + c] = (q.returncode, [l[:110] for l in lines][:4], len([l for l in q.stdout.splitlines() if l.startswith('VIOLATION')]), q.stderr[-200:])
            shutil.rmtree(v)
    shutil.rmtree(w)
    print(res, flush=True)
    caught = {k[6:]: v[0] == 1 for k, v in res.items() if k.startswith('check_')}
    if caught:
        import fcntl
        with open('/verif/tools/planted.json', 'r+') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            db = json.load(f)
            old = db.get(i, {})
            db[i] = dict(first=old.get('first', caught), now={**old.get('now', {}), **caught})
            f.seek(0); f.truncate(); json.dump(dict(sorted(db.items())), f, indent=1); f.write('\n')
for s in sys.argv[1:]:
    if s.startswith('-'): continue
    one(s, tests='-t' not in sys.argv, check='-c' not in sys.argv)
