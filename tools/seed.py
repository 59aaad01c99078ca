"""Author's tool (no check runs it): builds seeded/<id>/ from a spec and confirms it.

usage: seed.py SPECFILE [ID...]   - SPECFILE is a python file defining SEEDS: list of dicts
  id, property, needs, what_it_breaks, edits=[(file, old, new)...], demo (python source: exits non-zero/raises when broken)
Work happens in /tmp/seedw (a copy of /repo)."""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
BASE = '617756f'
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; keeps its data in a scratch folder
here="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
export DATA_FOLDER="$S/data" SCRATCH="$S" TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
mkdir -p "$DATA_FOLDER"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
timeout 250 "$PY" "$here/demo.py"
'''


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    if not os.path.exists(W):
        shutil.copytree('/repo', W, symlinks=True)
    for s in specs:
        if want and s['id'] not in want: continue
        sh('git checkout -q -- . && git clean -fdq')
        sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        clean = sh(f'bash {d}/demo.sh')
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # blame of removed lines
        notes = []
        f, ln = None, 0
        for line in sh('git diff -U0').stdout.splitlines():
            if line.startswith('--- a/'): f = line[6:]
            elif line.startswith('@@'): ln = int(line.split()[1][1:].split(',')[0])
            elif line.startswith('-') and not line.startswith('---'):
                b = sh(f'git blame -s -L{ln},{ln} HEAD -- {f}').stdout.split()[0].lstrip('^')
                if not b.startswith(BASE) and not BASE.startswith(b[:7]): notes.append(f'line {ln} of {f} is mine: {line}')
                ln += 1
        bad = sh(f'bash {d}/demo.sh')
        t = sh('DATA_FOLDER=/tmp/seedw_data CUDA_VISIBLE_DEVICES=-1 /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider -W ignore --ignore=tests/Dataset/test_integrated_datasets.py --ignore=tests/Recommender/Baseline/test_item_cf.py --ignore=tests/Recommender/Baseline/test_user_cf.py 2>&1 | tail -8')
        ok = clean.returncode == 0 and bad.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout and 'error' not in t.stdout.splitlines()[-1]
        print(f'{s["id"]}: {"OK" if ok else "BAD"} clean={clean.returncode} patched={bad.returncode} tests={t.stdout.splitlines()[-1][:90]} {notes}')
        if clean.returncode: print(clean.stdout[-500:], clean.stderr[-800:])
        if not ok: print('   ', t.stdout[-300:])
        else: print('   ', (bad.stderr.strip().splitlines() or ['?'])[-1][:160])
        sys.stdout.flush()
    sh('git checkout -q -- .')


main()
