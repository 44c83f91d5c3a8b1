#!/usr/bin/env python3
"""Run each planted bug's own check against a scratch copy with the bug.  run_seeded.py [ID...]"""
import json, os, shutil, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = f'/verif/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    c = f'/tmp/rs/{i}'
    shutil.rmtree(c, ignore_errors=True); os.makedirs('/tmp/rs', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    r = subprocess.run(['./check', prop], cwd=os.environ.get('VERIF_DIR', '/verif'), capture_output=True, text=True,
                       env=dict(os.environ, FREEGS_REPO=c, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    ok = r.returncode == 1 and any(f'property={prop}' in l for l in v)
    print(i, prop, 'CAUGHT' if ok else f'missed rc={r.returncode}', f'{time.time()-t:.0f}s', (v or r.stderr.strip().splitlines()[-1:] or [''])[0][:160], flush=True)
    shutil.rmtree(c, ignore_errors=True)
