"""Which lines of /repo/simphox the workloads of the checks execute (development aid: shows what no monitor has seen).

usage: PYTHONPATH=/repo:/verif python tools/cov.py OUT.json [ids...]    then    python tools/cov.py --report OUT.json
"""
import ast
import json
import multiprocessing as mp
import os
import sys

SRC = '/repo/simphox/'


def run(pid):
    seen = {}
    mon = sys.monitoring

    def line(code, no):
        if code.co_filename.startswith(SRC):
            seen.setdefault(code.co_filename[len(SRC):], set()).add(no)
        return mon.DISABLE
    mon.use_tool_id(1, 'cov')
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    from harness.core import run_case
    from harness.main import case_list, load
    mod = load(pid)
    fns = {n: f for n, f, _, _ in mod.SCENARIOS}
    for name, seed, i in case_list(mod, 'quick', 1):
        run_case(fns[name], name, seed, i)
    return pid, {k: sorted(v) for k, v in seen.items()}


def executable(path):
    out = set()
    code = [compile(open(path).read(), path, 'exec')]
    while code:
        c = code.pop()
        if c.co_name != '<module>':
            out |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        code += [k for k in c.co_consts if hasattr(k, 'co_code')]
    return out


if __name__ == '__main__':
    if sys.argv[1] == '--report':
        data = json.load(open(sys.argv[2]))
        for root, _, files in os.walk(SRC):
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(root, f)
                    rel = p[len(SRC):]
                    ex = executable(p)
                    hit = set().union(*[set(v.get(rel, [])) for v in data.values()]) if data else set()
                    miss = sorted(ex - hit)
                    print(f'{rel}: {len(ex & hit)}/{len(ex)}', 'missing', miss)
    else:
        ids = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir('/verif/harness/props') if f.startswith('c'))
        with mp.get_context('spawn').Pool(6, maxtasksperchild=1) as pool:
            res = {}
            for pid, seen in pool.imap_unordered(run, ids):
                res[pid] = seen
                json.dump(res, open(sys.argv[1], 'w'))
                print(pid, flush=True)
