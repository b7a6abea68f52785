"""Plant bugs in scratch copies of /repo and keep those that qualify.

usage: plant.py DEFS.py [id ...]      (DEFS.py defines BUGS, a list of dicts
id, prop, edits [(file, old, new)], needs, breaks, demo (python text), jit)

For each bug: copy /repo, edit, demo on clean and on patched, the check of the
property on the patched copy, the test suite on the patched copy.  A bug which
passes the tests and whose demo distinguishes goes to /verif/seeded/<id>.
"""
import json, os, shutil, subprocess, sys, runpy, concurrent.futures as cf

VENV = '. /opt/vp/env.sh 2>/dev/null; '
STABLE = None
PRE = '''import os, sys, tempfile, shutil, atexit, warnings
{jit}warnings.simplefilter("ignore")
import logging, contextlib, io
import numpy as np
import matplotlib; matplotlib.use("Agg")
SCRATCH = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, SCRATCH, True)
import pyDeltaRCM
from pyDeltaRCM import shared_tools, water_tools, sed_tools, preprocessor
from pyDeltaRCM.model import DeltaModel
_n = [0]

def cfg(**kw):
    _n[0] += 1
    d = dict(out_dir=os.path.join(SCRATCH, "m%d" % _n[0]), Length=1000.0, Width=1600.0,
             dx=50.0, N0_meters=200.0, L0_meters=100.0, Np_water=40, Np_sed=60,
             itermax=2, seed=7)
    d.update(kw)
    return d

def mk(cls=DeltaModel, **kw):
    return cls(**cfg(**kw))

def need(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.exit(1)

'''
SH = '''#!/bin/bash
# run with cwd at the repository root: exit 0 where the property holds
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" timeout {timeout} python "$D/demo.py"
'''

def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ); e.update(env)
    try:
        p = subprocess.run(['bash', '-c', cmd], cwd=cwd, timeout=timeout, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else str(x.stdout)

def make(bug):
    d = f'/tmp/plant/{bug["id"]}'
    shutil.rmtree(d, True)
    os.makedirs(d)
    repo = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    for f, old, new in bug['edits']:
        p = f'{repo}/pyDeltaRCM/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            raise ValueError(f'{s.count(old)} matches of {old!r}')
        open(p, 'w').write(s.replace(old, new))
    out = d + '/keep'
    os.makedirs(out)
    diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    jit = '' if bug.get('jit') else 'os.environ["NUMBA_DISABLE_JIT"] = "1"\n'
    open(out + '/demo.py', 'w').write(PRE.format(jit=jit) + bug['demo'].strip() + '\n')
    open(out + '/demo.sh', 'w').write(SH.format(timeout=bug.get('timeout', 250)))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    return d

def quick(bug):
    try:
        d = make(bug)
    except ValueError as e:
        return {'clean': -1, 'patched': -1, 'error': str(e)}
    r = {}
    r['clean'], o1 = sh(f'bash {d}/keep/demo.sh', '/repo', 300)
    r['patched'], o2 = sh(f'bash {d}/keep/demo.sh', d + '/repo', 300)
    r['demo_out'] = o2[-300:]
    if r['clean'] != 0:
        r['demo_clean_out'] = o1[-1500:]
    return r

def check(bug):
    d = f'/tmp/plant/{bug["id"]}'
    res = {}
    for prop in [bug['prop']] + list(bug.get('also', [])):
        rc, o = sh(f'bash run.sh {prop} quick', '/verif', 900, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
        res[prop] = rc
        open(f'{d}/check_{prop}.log', 'w').write(o)
    return res

def tests(bug):
    d = f'/tmp/plant/{bug["id"]}'
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    rc, o = sh(VENV + f'python -m pytest -q --tb=no --show-capture=no -p no:cacheprovider -n 8 --dist worksteal --mpl '
               f'--mpl-baseline-path=tests/imgs_baseline --timeout=300 -o junit_family=xunit2 --basetemp={d}/tmp --junitxml={d}/j.xml; '
               f'/usr/bin/python3 /opt/vp/results.py {d}/r.json junit:{d}/j.xml', d + '/repo', 900)
    shutil.rmtree(d + '/tmp', True)
    r = json.load(open(d + '/r.json'))
    good = set(r['passed']) if isinstance(r, dict) and 'passed' in r else {k for k, v in r.items() if v in ('passed', 'pass', True)}
    failed = sorted(set(stable) - good)
    return len(set(stable) & good), failed[:5]

if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    sel = sys.argv[2:]
    bugs = [b for b in bugs if not sel or b['id'] in sel]
    with cf.ThreadPoolExecutor(6) as ex:
        qs = list(ex.map(quick, bugs))
    for b, q in zip(bugs, qs):
        ok = q['clean'] == 0 and q['patched'] not in (0, 124 if not b.get('hang') else -1)
        line = f'{b["id"]:28s} demo clean={q["clean"]} patched={q["patched"]}'
        if not ok:
            print(line, 'DEMO-BAD', q, flush=True); continue
        n, failed = tests(b)
        if failed or n < 366:
            print(line, f'TESTS-FAIL passed={n} {failed}', flush=True)
            shutil.rmtree(f'/tmp/plant/{b["id"]}', True); continue
        c = check(b)
        print(line, f'tests={n} check={c}', 'CAUGHT' if c[b['prop']] == 1 else 'MISSED', flush=True)
        dst = f'/verif/seeded/{b["id"]}'
        shutil.rmtree(dst, True)
        shutil.copytree(f'/tmp/plant/{b["id"]}/keep', dst)
        shutil.rmtree(f'/tmp/plant/{b["id"]}/repo', True)
