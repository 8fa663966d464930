"""Runner: shards the cases of a check over worker processes, judges what their monitors saw, writes the evidence."""
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORKERS = int(os.environ.get('VWORKERS', '7'))
DEADLINE = {'quick': 420.0, 'thorough': 800.0}  # no new case is started after this
HANG = {'quick': 300.0, 'thorough': 420.0}  # a single case of a second or so that runs this long hangs


def load(pid):
    return importlib.import_module(f'harness.props.{pid.lower()}')


def case_list(mod, tier, seed):
    """Deterministic list of (scenario name, case seed, size)."""
    cases = []
    for name, fn, quick, thorough in mod.SCENARIOS:
        for i in range(quick if tier == 'quick' else thorough):
            h = hashlib.sha256(f'{seed}/{name}/{i}'.encode()).digest()
            cases.append((name, int.from_bytes(h[:6], 'big'), i))
    random.Random(seed).shuffle(cases)
    return cases


def worker(pid, tier, seed, shard, nshards, out):
    from harness.core import dumps, run_case
    mod = load(pid)
    fns = {name: fn for name, fn, _, _ in mod.SCENARIOS}
    t0 = time.time()
    with open(out, 'a', buffering=1) as f:
        for k, (name, cseed, i) in enumerate(case_list(mod, tier, seed)):
            if k % nshards != shard:
                continue
            if time.time() - t0 > DEADLINE[tier]:
                f.write(dumps({'deadline': True}) + '\n')
                break
            # journal before the case, so that a case which kills the process is known
            f.write(dumps({'start': [name, cseed, i]}) + '\n')
            t = time.time()
            rec = run_case(fns[name], name, cseed, i)
            rec.update(case=[name, cseed, i], t=time.time() - t)
            f.write(dumps(rec) + '\n')
        f.write(dumps({'done': True}) + '\n')


def known_findings(pid):
    keys = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'finding: property={pid} key='):
                key, _, what = line[len(f'finding: property={pid} key='):].partition(' :: ')
                keys[key.strip()] = what.strip()
    return keys


def write_replay(pid, tier, case, key, detail):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    name = f'{pid}-{hashlib.sha256((key + str(case)).encode()).hexdigest()[:10]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, case=case, key=key, detail=detail), f, indent=1, default=str)
    return os.path.relpath(path, HERE)


def replay(path):
    from harness.core import run_case
    r = json.load(open(path))
    mod = load(r['property'])
    fns = {name: fn for name, fn, _, _ in mod.SCENARIOS}
    name, cseed, i = r['case']
    rec = run_case(fns[name], name, cseed, i)
    print(json.dumps(rec, indent=1, default=str)[:6000])
    if rec['violations']:
        print(f'VIOLATION property={r["property"]} replay={path}')
        return 1
    return 0


def main():
    if sys.argv[1] == '--worker':
        _, _, pid, tier, seed, shard, nshards, out = sys.argv
        worker(pid, tier, int(seed), int(shard), int(nshards), out)
        sys.stdout.flush()
        os._exit(0)  # skip interpreter teardown of the native libraries
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = os.environ['VSCRATCH']
    mod = load(pid)
    total = len(case_list(mod, tier, seed))
    n = max(1, min(NWORKERS, total))
    procs = []
    for s in range(n):
        out = os.path.join(scratch, f'w{s}.jsonl')
        open(out, 'w').close()
        err = open(os.path.join(scratch, f'w{s}.err'), 'w')
        p = subprocess.Popen([sys.executable, '-m', 'harness.main', '--worker', pid, tier, str(seed), str(s), str(n), out],
                             stdout=err, stderr=err, cwd=HERE)
        procs.append([p, out, err.name, 0, time.time(), None])
    hung = []
    while any(p[0].poll() is None for p in procs):
        time.sleep(0.2)
        for p in procs:
            if p[0].poll() is not None:
                continue
            size = os.path.getsize(p[1])
            if size != p[3]:
                p[3], p[4] = size, time.time()
            elif time.time() - p[4] > HANG[tier] + (120 if size == 0 else 0):
                hung.append(p[1])
                p[0].send_signal(signal.SIGKILL)
                p[0].wait()
    recs, problems, violations, deadline, samples = [], [], [], False, []
    for p, out, err, *_ in procs:
        lines = [json.loads(x) for x in open(out) if x.strip().endswith('}')]
        started = None
        done = False
        for x in lines:
            if 'start' in x:
                started = x['start']
            elif 'case' in x:
                recs.append(x)
                started = None
            elif 'deadline' in x:
                deadline = True
            elif 'done' in x:
                done = True
        if not done:
            rc = p.returncode
            tail = open(err).read()[-1500:]
            if out in hung:
                if started:
                    violations.append((f'{started[0]}:does not terminate', started, {'seconds': HANG[tier]}))
                else:
                    problems.append('worker hung before its first case')
            elif rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                                                       signal.SIGILL) and started:
                violations.append((f'{started[0]}:crash:signal {-rc}', started, {'stderr': tail}))
            else:
                problems.append(f'worker ended with {rc} in {started}: {tail}')
    events, worst, sigs, evaluations, scen, times = {}, {}, {}, 0, {}, 0.0
    for r in sorted(recs, key=lambda r: r['case'][:2] + [r['case'][2]]):
        if 'inconclusive' in r:
            problems.append(f"{r['case']}: {r['inconclusive']}")
        evaluations += r['evaluations']
        times += r['t']
        sc = scen.setdefault(r['case'][0], dict(cases=0, oracle_evaluations=0, seconds=0.0))
        sc['cases'] += 1
        sc['oracle_evaluations'] += r['evaluations']
        sc['seconds'] = round(sc['seconds'] + r['t'], 2)
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['worst'].items():
            k = f"{r['case'][0]}:{k}"
            worst[k] = max(worst.get(k, 0), v)
        if r['sig'] is not None and r['nontrivial']:
            key = json.dumps([r['case'][0], r['sig']], sort_keys=True)
            if key not in sigs and len([s for s in samples if s['scenario'] == r['case'][0]]) < 2 and len(samples) < 14:
                samples.append(dict(scenario=r['case'][0], case_seed=r['case'][1], observed=r['sig'],
                                    events=r['events'], oracle_evaluations=r['evaluations']))
            sigs[key] = sigs.get(key, 0) + 1
        for key, detail in r['violations']:
            violations.append((key, r['case'], detail))
    known = known_findings(pid)
    fresh, reported = [], set()
    for key, case, detail in violations:
        if key in known:
            if key not in reported:
                print(f'KNOWN-FINDING: property={pid} {known[key]}')
            reported.add(key)
        else:
            fresh.append((key, case, detail))
    seen = set()
    for key, case, detail in fresh:
        if key in seen:
            continue
        seen.add(key)
        path = write_replay(pid, tier, case, key, detail)
        print(f'  {key} case={case} {json.dumps(detail, default=str)[:700]}')
        print(f'VIOLATION property={pid} replay={path}')
    missing = [name for name, _, q, t in mod.SCENARIOS if (q if tier == 'quick' else t) and name not in scen]
    if missing and not deadline:
        problems.append(f'scenarios without any finished case: {missing}')
    if not sigs:
        problems.append('no non-trivial case was observed')
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(recs), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
                            oracle_evaluations=evaluations, observed_events=events, scenarios=scen,
                            planned_cases=total, stopped_at_deadline=deadline,
                            largest_error_over_tolerance={k: float(f'{v:.3g}') for k, v in sorted(
                                worst.items(), key=lambda kv: -kv[1])[:20]},
                            worker_processes=n, cpu_seconds_in_cases=round(times, 1)),
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=len({k for k, _, _ in fresh}), known_findings_reported=len(reported))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier} seed={seed}: {len(recs)}/{total} cases, {evaluations} oracle evaluations, {len(sigs)} distinct '
          f'non-trivial, events={events}, violations={len(seen)}, {time.time() - t0:.1f}s')
    if fresh:
        return 1
    if problems:
        for p in problems[:5]:
            print('INCONCLUSIVE', p[:2000])
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
