#!/usr/bin/env python3
"""Create and confirm planted bugs.  Usage: plant.py SPEC.py [ID...]

SPEC.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}.
Each is built in a scratch copy of /repo; it is kept in /verif/seeded/<id> only if
the patch keeps the stable tests passing and the demo tells the two trees apart.
Then the property's check is run against the scratch copy (FREEGS_REPO).
"""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
SCRATCH="$scratch" /opt/venv/bin/python "$here/demo.py"
'''
SEEDED = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(bid, b, check=True):
    copy = f'/tmp/plant/{bid}'
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        out = f'/tmp/plant/{bid}.d'
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f, old, new in b['edits']:
            p = f'{copy}/{f}'; s = open(p).read()
            if s.count(old) != 1:
                return bid, f'edit of {f} matches {s.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        d = sh(f'git -C {copy} diff').stdout
        open(f'{out}/patch.diff', 'w').write(d)
        open(f'{out}/demo.sh', 'w').write(DEMO_SH); os.chmod(f'{out}/demo.sh', 0o755)
        open(f'{out}/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{out}/meta.json', 'w'), indent=1)
        good = sh(f'bash {out}/demo.sh', cwd='/repo', timeout=300)
        if good.returncode:
            return bid, 'demo fails on unchanged tree: ' + (good.stdout + good.stderr)[-1500:]
        bad = sh(f'bash {out}/demo.sh', cwd=copy, timeout=300)
        if not bad.returncode:
            return bid, 'demo passes with the patch: ' + (bad.stdout + bad.stderr)[-1500:]
        t = sh(f'. /opt/vp/env.sh >/dev/null 2>&1; PYTHONPATH={copy} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
               f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider freegs', cwd=copy)
        tail = t.stdout.strip().splitlines()[-1:]
        if t.returncode:
            return bid, 'tests fail: ' + t.stdout[-600:]
        os.makedirs(SEEDED, exist_ok=True)
        shutil.rmtree(f'{SEEDED}/{bid}', ignore_errors=True)
        shutil.copytree(out, f'{SEEDED}/{bid}')
        msg = f'kept ({(bad.stderr.strip().splitlines() or [""])[-1][:100]})'
        if check:
            c = sh(f'FREEGS_REPO={copy} VERIF_SEED=1 VERIF_TIER=quick ./check {b["property"]}', cwd='/verif')
            msg += f'  check rc={c.returncode} ' + ' '.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l)[:200]
            if c.returncode not in (0, 1):
                msg += c.stderr[-800:]
        return bid, msg
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f'/tmp/plant/{bid}.d', ignore_errors=True)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    nochk = '--nocheck' in ids
    ids = [i for i in ids if not i.startswith('--')] or list(m.BUGS)
    for i in ids:   # one after another: each check uses all cores
        print(*plant(i, m.BUGS[i], not nochk), flush=True)
