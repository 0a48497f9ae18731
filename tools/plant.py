#!/usr/bin/env python3
"""Make, verify, and run planted bugs (never part of a check).

    plant.py make SPEC.py     write seeded/<id>/ for every bug in SPEC.py
    plant.py verify [ID...]   applies, imports, stable tests pass, demo 0 -> 1
    plant.py run [ID...]      run the check of the bug's property against it

A SPEC.py calls bug(id, property, [(file, old, new)...], demo, needs, what).
Everything happens in scratch copies under /tmp that are removed afterwards.
"""

import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / 'seeded'
REPO = pathlib.Path('/repo')
PY = '/opt/venv/bin/python'
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
    MPLBACKEND='Agg', LC_ALL='C.UTF-8', OPENBLAS_NUM_THREADS='1',
)


def copy():
    where = pathlib.Path(tempfile.mkdtemp(prefix='plant-', dir='/tmp'))
    shutil.copytree(REPO, where / 'repo', symlinks=True)
    return where


def sh(cmd, cwd, **env):
    return subprocess.run(
        cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, universal_newlines=True,
    )


DEMO = '''#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def make(path):
    bugs = []

    def bug(id, prop, edits, demo, needs, what):
        bugs.append((id, prop, edits, demo, needs, what))
    exec(compile(pathlib.Path(path).read_text(), path, 'exec'), {'bug': bug})
    for id, prop, edits, demo, needs, what in bugs:
        where = copy()
        try:
            for name, old, new in edits:
                f = where / 'repo' / 'src' / 'goats' / name
                s = f.read_text()
                if s.count(old) != 1:
                    print(f"{id}: {s.count(old)} matches in {name}: {old[:60]!r}")
                    break
                f.write_text(s.replace(old, new))
            else:
                diff = sh(['git', 'diff'], where / 'repo').stdout
                out = SEEDED / id
                out.mkdir(parents=True, exist_ok=True)
                (out / 'patch.diff').write_text(diff)
                (out / 'demo.sh').write_text(DEMO)
                (out / 'demo.sh').chmod(0o755)
                (out / 'demo.py').write_text(demo.lstrip('\n'))
                (out / 'meta.json').write_text(json.dumps({
                    'property': prop, 'needs': needs, 'what_it_breaks': what,
                }, indent=1) + '\n')
                print('wrote', id)
        finally:
            shutil.rmtree(where)
    return [b[0] for b in bugs]


def original(repo, patch):
    """Changed or neighbouring lines that my own commits added."""
    r = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], REPO)
    base = r.stdout.split()[0][:8]
    bad, name, n = [], None, 0
    blame = {}
    for line in patch.read_text().splitlines():
        if line.startswith('--- a/'):
            name = line[6:]
            out = sh(['git', 'blame', '-s', '--abbrev=8', name], REPO).stdout.splitlines()
            blame[name] = [x.split()[0].lstrip('^') for x in out]
        elif line.startswith('@@'):
            n = int(line.split()[1].split(',')[0][1:]) - 1
        elif line.startswith('-') and not line.startswith('---'):
            if not blame[name][n].startswith(base[:7]):
                bad.append(f"{name}:{n+1}")
            n += 1
        elif line.startswith(' '):
            n += 1
    return bad


def verify(id):
    where = copy()
    repo = where / 'repo'
    try:
        src = SEEDED / id
        laid = where / 'demo'
        laid.mkdir()
        for f in src.iterdir():
            if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
                shutil.copy(f, laid)
        env = {'PYTHONPATH': str(repo / 'src')}
        before = sh(['bash', str(laid / 'demo.sh')], repo, **env)
        r = sh(['git', 'apply', str(src / 'patch.diff')], repo)
        if r.returncode:
            return id, False, 'does not apply: ' + r.stdout
        after = sh(['bash', str(laid / 'demo.sh')], repo, **env)
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                f'--junitxml={where}/junit.xml', 'tests'], repo, **env)
        out = where / 'o.json'
        sh(['/usr/bin/python3', '/opt/vp/results.py', str(out), f'junit:{where}/junit.xml'], repo)
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base.get('stable_pass') or base.get('passed') or base.get('stable') or [])
        lost = sorted(want - set(json.loads(out.read_text())['passed']))
        mine = original(repo, src / 'patch.diff')
        ok = before.returncode == 0 and after.returncode != 0 and not lost and not mine
        msg = f"demo {before.returncode}->{after.returncode}, lost {lost[:3]}, own lines {mine}"
        if before.returncode:
            msg += '\n' + before.stdout[-600:]
        return id, ok, msg
    finally:
        shutil.rmtree(where)


def run(id, prop=None, seed='1'):
    where = copy()
    repo = where / 'repo'
    try:
        src = SEEDED / id
        r = sh(['git', 'apply', str(src / 'patch.diff')], repo)
        if r.returncode:
            return id, False, 'does not apply: ' + r.stdout
        prop = prop or json.loads((src / 'meta.json').read_text())['property']
        shutil.copytree(ROOT, where / 'verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        r = sh(['python3', 'check.py', prop], where / 'verif', VERIF_REPO=str(repo), VERIF_SEED=seed, VERIF_TIER='quick')
        caught = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        return id, caught, r.stdout.strip()[-500:]
    finally:
        shutil.rmtree(where)


def main():
    cmd, *args = sys.argv[1:]
    if cmd == 'make':
        ids = make(args[0])
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for id, ok, msg in ex.map(verify, [i for i in ids if (SEEDED / i).exists()]):
                print(id, 'VALID' if ok else 'INVALID', msg)
        for id in ids:
            print(*run(id), sep='\n  ')
    elif cmd == 'verify':
        ids = args or sorted(p.name for p in SEEDED.iterdir())
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for id, ok, msg in ex.map(verify, ids):
                print(id, 'VALID' if ok else 'INVALID', msg, flush=True)
    elif cmd == 'run':
        ids = args or sorted(p.name for p in SEEDED.iterdir())
        for id in ids:
            i, caught, msg = run(id)
            print(id, 'CAUGHT' if caught else 'MISSED', '' if caught else msg, flush=True)


if __name__ == '__main__':
    main()
