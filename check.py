#!/usr/bin/env python
"""Run the generated check of one property.

    check.py <property> [--tier quick|thorough] [--seed N] [--case NAME]
                        [--scale X] [--replay FILE]

Exit 0: the property held on everything generated.  Exit 1, with a line
`VIOLATION property=<id> replay=<path>`: it does not hold.  Exit 2: the
machinery failed (never evidence about the property).
"""

import argparse
import atexit
import importlib
import json
import os
import pathlib
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
PYTHON = '/opt/venv/bin/python'


def bootstrap():
    """Re-execute with the target interpreter and a fixed environment."""
    want = {
        'PYTHONHASHSEED': '0',
        'PYTHONDONTWRITEBYTECODE': '1',
        'MPLBACKEND': 'Agg',
        'OPENBLAS_NUM_THREADS': '1',
        'OMP_NUM_THREADS': '1',
        'LC_ALL': 'C.UTF-8',
        'TZ': 'UTC',
        'PYTHONWARNINGS': 'ignore',
        'VERIF_BOOTSTRAPPED': '1',
    }
    if os.environ.get('VERIF_BOOTSTRAPPED') == '1':
        return
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    env.update(want)
    os.execve(PYTHON, [PYTHON, str(pathlib.Path(__file__).resolve()), *sys.argv[1:]], env)


def load(pid):
    sys.path.insert(0, str(REPO / 'src'))
    sys.path.insert(0, str(HERE))
    # Threads in parallel children would only fight over the cores.
    mod = importlib.import_module(f'props.{pid.lower()}')
    import goats
    where = pathlib.Path(goats.__path__[0]).resolve()
    if where != (REPO / 'src' / 'goats').resolve():
        raise RuntimeError(f"goats was imported from {where}, not from {REPO}")
    return mod


def worker(mod, pid, seed, tier, jobs, fd, deadline):
    """Run the given (case, shard, count) jobs and stream results to `fd`."""
    from pbt import engine
    out = os.fdopen(fd, 'w')
    for case, shard, count in jobs:
        rng_seed = engine.seed_for(seed, pid, case.name, shard, tier)
        import random
        rng = random.Random(rng_seed)
        stats = {
            'kind': 'shard', 'case': case.name, 'shard': shard,
            'evaluations': 0, 'discarded': 0, 'events': {}, 'keys': [],
            'samples': [], 'stopped': False,
        }
        keys = set()
        for i in range(count):
            if time.time() > deadline:
                stats['stopped'] = True
                break
            gen = engine.Gen(rng=random.Random(rng.getrandbits(64)))
            res = engine.execute(case.fn, gen)
            if res.status == 'discard':
                stats['discarded'] += 1
                continue
            stats['evaluations'] += 1
            for k, v in gen.events.items():
                stats['events'][k] = stats['events'].get(k, 0) + v
            for k in gen.nontrivial_keys:
                keys.add(engine.seed_for(case.name, k))
            if (
                gen.nontrivial_keys and gen.notes
                and len(stats['samples']) < 3 and i % 7 == 0
            ):
                stats['samples'].append(f"[{case.name}] " + ' ; '.join(gen.notes[:12]))
            if res.status in {'fail', 'error'}:
                out.write(json.dumps({
                    'kind': res.status, 'case': case.name, 'shard': shard,
                    'index': i, 'message': res.message, 'trace': res.trace,
                    'choices': gen.choices, 'notes': gen.notes,
                }) + '\n')
                out.flush()
                if res.status == 'fail':
                    break
        stats['keys'] = [format(k, 'x') for k in keys]
        out.write(json.dumps(stats) + '\n')
        out.flush()
    out.close()


def plan(mod, tier, scale, only, nworkers):
    """Split every case into shards and deal them to the workers."""
    jobs = []
    for case in mod.CASES:
        if only and case.name != only:
            continue
        total = case.quick if tier == 'quick' else case.thorough
        total = max(1, int(total * scale))
        shards = min(nworkers * (1 if tier == 'quick' else 4), total)
        base, extra = divmod(total, shards)
        for s in range(shards):
            n = base + (1 if s < extra else 0)
            if n:
                jobs.append((case, s, n))
    lanes = [[] for _ in range(nworkers)]
    for i, job in enumerate(jobs):
        lanes[i % nworkers].append(job)
    return [lane for lane in lanes if lane]


def main():
    bootstrap()
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    p.add_argument('--case')
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--replay')
    p.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1)))
    args = p.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 1
    t0 = time.time()
    pid = args.property
    scratch = tempfile.mkdtemp(prefix='goats-check-')
    os.environ['GOATS_SCRATCH'] = scratch
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    mod = load(pid)
    from pbt import engine
    cases = {c.name: c for c in mod.CASES}
    if args.replay:
        return replay(mod, cases, args.replay)
    deadline = t0 + (420 if tier == 'quick' else 5400)

    lanes = plan(mod, tier, args.scale, args.case, args.workers)
    procs = {}
    for lane in lanes:
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            code = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                worker(mod, pid, seed, tier, lane, w, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs[r] = [child, b'']
    failures, errors, stats = [], [], []
    died = []
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                procs[fd][1] += data
                *lines, procs[fd][1] = procs[fd][1].split(b'\n')
                for line in lines:
                    obj = json.loads(line.decode())
                    {'fail': failures, 'error': errors, 'shard': stats}[obj['kind']].append(obj)
            else:
                child, _ = procs.pop(fd)
                os.close(fd)
                _, status = os.waitpid(child, 0)
                if status != 0 and not failures:
                    died.append(status)
        if failures and procs:
            # One violation decides the run; shards still running are stopped.
            for fd in list(procs):
                child, _ = procs.pop(fd)
                try:
                    os.kill(child, signal.SIGKILL)
                except OSError:
                    pass
                os.close(fd)
                os.waitpid(child, 0)

    known = []
    for fid, probe in getattr(mod, 'PROBES', {}).items():
        entry = finding(pid, fid)
        if entry is None:
            errors.append({'message': f"probe {fid} has no entry in known_findings.jsonl", 'trace': ''})
            continue
        res = engine.run_choices(probe, [])
        if res and res['status'] == 'fail':
            known.append((fid, entry['what']))

    events, keys, samples = {}, set(), []
    for s in stats:
        for k, v in s['events'].items():
            name = f"{s['case']}: {k}"
            events[name] = events.get(name, 0) + v
        keys.update(s['keys'])
    bycase = {}
    for s in stats:
        bycase.setdefault(s['case'], []).extend(s['samples'])
    for name in bycase:
        samples.extend(bycase[name][:3])
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in stats),
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[:24],
            'discarded': sum(s['discarded'] for s in stats),
            'per_case': {
                name: sum(s['evaluations'] for s in stats if s['case'] == name)
                for name in cases
            },
            'classes': dict(sorted(events.items())),
            'stopped_by_time_budget': any(s['stopped'] for s in stats),
            'known_findings_reproduced': [fid for fid, _ in known],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    code = 0
    if failures:
        code = 1
        path = report(mod, pid, seed, tier, cases, failures)
        evidence['wall_s'] = round(time.time() - t0, 2)
        evidence['coverage']['violation'] = str(path)
    elif errors or died:
        code = 2
    outdir = HERE / 'evidence'
    outdir.mkdir(exist_ok=True)
    (outdir / f'{pid}.json').write_text(json.dumps(evidence, indent=1) + '\n')
    for fid, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")
    for e in errors[:3]:
        print(f"harness error: {e['message']}\n{e.get('trace', '')}", file=sys.stderr)
    if died:
        print(f"workers died: {died}", file=sys.stderr)
    print(
        f"{pid} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases,"
        f" {len(keys)} distinct non-trivial,"
        f" {evidence['coverage']['discarded']} discarded,"
        f" {evidence['wall_s']} s, {'VIOLATED' if failures else 'ok' if not code else 'ERROR'}"
    )
    return code


def finding(pid, fid):
    path = HERE / 'known_findings.jsonl'
    for line in path.read_text().splitlines():
        if line.strip():
            obj = json.loads(line)
            if obj.get('id') == fid and obj['property'] == pid and obj['status'] == 'open':
                return obj


def report(mod, pid, seed, tier, cases, failures):
    """Shrink the first reproducible failure and write the replay file."""
    from pbt import engine
    chosen = None
    for f in sorted(failures, key=lambda f: len(f['choices']))[:4]:
        small = engine.shrink(cases[f['case']].fn, f['choices'], budget=45)
        if small:
            chosen = dict(f, **small, reproducible='from the recorded choices')
            break
    if chosen is None:
        chosen = dict(
            failures[0],
            reproducible='only after the earlier cases of the same shard',
        )
    outdir = HERE / 'replays'
    outdir.mkdir(exist_ok=True)
    path = outdir / f'{pid}.json'
    path.write_text(json.dumps({
        'property': pid,
        'case': chosen['case'],
        'choices': chosen['choices'],
        'inputs': chosen['notes'],
        'message': chosen['message'],
        'trace': chosen['trace'],
        'reproducible': chosen['reproducible'],
        'seed': seed, 'tier': tier,
        'shard': chosen['shard'], 'index': chosen['index'],
    }, indent=1) + '\n')
    print(f"case {chosen['case']}: {chosen['message']}")
    for n in chosen['notes']:
        print(f"  {n}")
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    return path


def replay(mod, cases, path):
    """Run the one case that a replay file records."""
    from pbt import engine
    obj = json.loads(pathlib.Path(path).read_text())
    res = engine.execute(cases[obj['case']].fn, engine.Gen(prefix=obj['choices']))
    for n in res.gen.notes:
        print(f"  {n}")
    print(res.status, res.message)
    print(res.trace)
    return 1 if res.status == 'fail' else 0


if __name__ == '__main__':
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        status = 2
    sys.exit(status)
