"""Histories of optimisation runs, checked offline against an independent replay of every iteration."""
import jax
import jax.numpy as jnp
import numpy as np

from simphox.fdfd import FDFD
from simphox.grid import Port
from simphox.opt import OptProblem, OptRecord, OptViz, opt_run
from simphox.transform import get_mask_fn, get_smooth_fn, get_symmetry_fn
from simphox.utils import Box

RULE = ('one to four problems per run: devices with two or three ports (hz-polarised, several sizes, wavelengths and sources, with the same '
        'or different names, shared or own simulations and transforms) and problems without a simulation; 0 to 12 iterations; every '
        'combination of recording intervals 0 to 5, with and without metric functions, progress display and live display; '
        'distinct by the list of problems and the intervals; non-trivial: at least two iterations')
ASSUMPTIONS = ['the optimiser is Adam with the documented step size and its usual constants (0.9, 0.999, 1e-8)',
               'parameters whose gradient is within rounding errors are not compared, since Adam divides by the gradient',
               'the cost of several problems is their mean']
D = 0.1


def device(rng, name, shape=None):
    """A small scatterer with a design region between two guides."""
    n, m = shape or (int(rng.integers(24, 31)), int(rng.integers(18, 25)))
    f = FDFD((n * D, m * D), D, wavelength=float(rng.uniform(1.2, 1.7)), eps=1.0, pml=(0.4, 0.4), name=name, pml_sep=2)
    c = m // 2
    eps = np.full((n, m), float(rng.uniform(1, 1.8)))
    eps[:, c - 2:c + 2] = float(rng.uniform(8, 12))
    f.port = {'a0': Port(0.7, c * D, 180, 0.4), 'b0': Port((n - 7) * D, c * D, 0, 0.4)}
    f.eps = eps
    names = list(f.port) if rng.integers(2) else list(f.port)[::-1]
    f.port = {k: f.port[k] for k in names}
    return f


def region(f, shape):
    x, y = (f.shape[0] - shape[0]) // 2, (f.shape[1] - shape[1]) // 2
    return x, y


def transform(rng, f, shape):
    """Parameters of the design region to the permittivity of the whole device; also as plain numpy."""
    x, y = region(f, shape)
    base = f.eps.copy()
    base[x:x + shape[0], y:y + shape[1]] = 1.0
    pad = ((x, f.shape[0] - x - shape[0]), (y, f.shape[1] - y - shape[1]))
    kind = int(rng.integers(4))
    top = float(rng.uniform(2, 9))
    sym = get_symmetry_fn(False, True) if kind == 1 else (lambda r: r)
    smooth = get_smooth_fn(beta=float(rng.uniform(2, 6)), radius=int(rng.integers(1, 3))) if kind == 2 else (lambda r: r)
    if kind == 3:
        full = jnp.zeros(f.shape)

        def fn(rho):
            return jnp.array(base) + top * full.at[x:x + shape[0], y:y + shape[1]].set(rho ** 2)
    else:
        def fn(rho):
            return jnp.array(base) + top * jnp.pad(smooth(sym(rho)), pad)
    return fn, kind


class Logged:
    """A cost function that can also be evaluated by the oracle, with a weight of its own."""

    def __init__(self, rng, f):
        self.weight = float(rng.uniform(0.3, 2))
        self.target = {p: complex(rng.normal(), rng.normal()) for p in f.port if rng.integers(2)} or {list(f.port)[-1]: 1.0}
        self.insertion = float(rng.uniform(0.1, 0.9)) if rng.integers(2) else 0
        self.ports = list(f.port)
        inner = f.fidelity(self.target, insertion_weight=self.insertion)

        def cost(sf):
            v, aux = inner(sf)
            return self.weight * v, aux
        self.fn = cost

    def value(self, s):
        t = np.array([self.target.get(p, 0) for p in self.ports])
        t = t / np.linalg.norm(t)
        p = np.sum(np.abs(s) ** 2)
        if self.insertion:
            v = -abs(np.vdot(t, s)) ** 2 / p * (1 - self.insertion) - p * self.insertion
        else:
            v = -abs(np.vdot(t, s)) ** 2
        return self.weight * v


class Case:
    """A set of problems with what the oracle needs to evaluate them without the code under test."""

    def __init__(self, rng, size, display=False):
        self.shape = (int(rng.integers(5, 9)), int(rng.integers(5, 9)))
        grid = (int(rng.integers(24, 31)), int(rng.integers(18, 25)))
        count = int(rng.integers(1, 4)) if size % 5 else 1
        same_name = bool(rng.integers(2)) and not display
        self.problems, self.oracles, self.sims = [], [], []
        self.metric_fns = []
        share = bool(rng.integers(3) == 0) and not display
        self.plan = []
        for i in range(count):
            f = self.sims[0] if share and self.sims else device(rng, 'dev' if same_name else f'dev{i}', grid)
            self.sims.append(f)
            source = list(f.port)[int(rng.integers(len(f.port)))]
            fn, kind = transform(rng, f, self.shape)
            cost = Logged(rng, f)
            which = int(rng.integers(1, 3)) if display else int(rng.integers(4))
            ports = list(f.port)
            metrics = (None,
                       lambda s, ports=ports: {'power': float(np.sum(np.abs(np.asarray(s)) ** 2)), 'first': float(abs(s.loc[ports[0]]) ** 2)},
                       lambda s, ports=ports: {'power': float(np.sum(np.abs(np.asarray(s)) ** 2)), 'first': float(abs(s.loc[ports[0]]) ** 2)},
                       lambda s, ports=ports: {'last': float(abs(s.loc[ports[-1]]) ** 2)})[which]
            # what the oracle uses is made before the problem, of the device as it is now
            src = f.port_source({(source, 0): 1})
            measure = f.get_measure_fn()
            fresh = FDFD(f.size, f.spacing, wavelength=f.wavelength, eps=f.eps.copy(), pml=f.pml, pml_sep=f.pml_sep)
            self.problems.append(OptProblem(fn, cost.fn, f, source, metrics))
            self.oracles.append((fresh, fn, cost, src, measure, ports.index(source)))
            self.metric_fns.append((which, ports))
            self.plan.append((kind, source, which, round(f.wavelength, 3)))
        self.sim_problems = list(range(len(self.problems)))
        self.extra = None
        if rng.integers(3) == 0:
            w = rng.normal(size=self.shape)
            self.extra = w
            form = int(rng.integers(2))
            op = OptProblem(None if form else (lambda r: 2 * r), lambda r: (jnp.sum(jnp.array(w) * r) / 20, r), None, None)
            self.extra_factor = 1 if form else 2
            at = int(rng.integers(len(self.problems) + 1))
            self.problems.insert(at, op)
            self.plan.append(('plain', at))
        self.init = rng.uniform(0.2, 1, self.shape)

    def evaluate(self, rho):
        """Cost, permittivities, S-parameters and fields of the parameters, by direct solves."""
        total, out = 0.0, []
        for fresh, fn, cost, src, measure, idx in self.oracles:
            eps = np.asarray(fn(jnp.array(rho)))
            fresh.eps = eps
            e, h = fresh.solve(src)
            s_out, s_in = measure((e, h))
            s = np.asarray(s_out) / np.asarray(s_in)[idx]
            total += cost.value(s)
            out.append((eps, s, h[2].squeeze()))
        if self.extra is not None:
            total += float(np.sum(self.extra * rho) / 20 * self.extra_factor)
        return total / len(self.problems), out

    def gradient(self, rho):
        def total(r):
            v = 0
            for op, i in zip([p for p in self.problems if p.sim is not None], range(len(self.oracles))):
                v = v + op.cost_fn(op.fn(r))[0]
            if self.extra is not None:
                v = v + jnp.sum(jnp.array(self.extra) * r) / 20 * self.extra_factor
            return v / len(self.problems)
        return np.asarray(jax.grad(total)(jnp.array(rho)))


def adam_replay(grad, x, steps, step_size):
    x, m, v, xs, gs = np.asarray(x, dtype=np.float64), 0, 0, [], []
    for i in range(steps):
        xs.append(x)
        g = np.asarray(grad(x), dtype=np.float64)
        gs.append(np.abs(g))
        m, v = 0.1 * g + 0.9 * m, 0.001 * g ** 2 + 0.999 * v
        x = x - step_size * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return xs + [x], gs


class Bar:
    def __init__(self, it):
        self.it, self.said, self.made = it, [], len(it)

    def __iter__(self):
        return iter(self.it)

    def set_description(self, text):
        self.said.append(text)


class Pipe:
    def __init__(self):
        self.sent = []

    def send(self, data):
        self.sent.append(np.array(data) if not hasattr(data, 'coords') else data.copy())


def expected_metrics(case, j, s):
    which, ports = case.metric_fns[j]
    return ({}, *[{'power': np.sum(np.abs(s) ** 2), 'first': abs(s[0]) ** 2}] * 2, {'last': abs(s[-1]) ** 2})[which]


def history(rng, mon, size):
    case = Case(rng, size)
    iters = (2, 4, 3, 7, 5, 1, 6)[size % 7]
    step = float(rng.uniform(0.01, 0.05))
    every = {k: int(rng.integers(0, 4)) for k in ('metric_interval', 'eps_interval', 'field_interval')}
    if size % 4 == 0:
        every = {k: int(rng.integers(1, 3)) for k in every}
    mon.case(iters > 1, problems=str(case.plan), every=str(every), iters=iters, names=str([f.name for f in case.sims]))
    given = case.init.copy()
    single = len(case.problems) == 1 and bool(rng.integers(2))
    bars = []
    pbar = (lambda it: bars.append(Bar(it)) or bars[-1]) if rng.integers(3) == 0 else None
    rec = opt_run(case.problems[0] if single else case.problems, given, iters, step_size=step, pbar=pbar, **every)
    mon.event('optimisation runs')
    mon.event('iterations', iters)
    mon.check(isinstance(rec, OptRecord) and np.array_equal(given, case.init), 'the given parameters are not modified')
    if bars:
        mon.check(len(bars) == 1 and bars[0].made == iters, 'progress display counts the iterations')
    names = [f.name for f in case.sims]
    if not mon.check(np.shape(rec.costs) == (iters,), 'one cost per iteration', got=np.shape(rec.costs)):
        return
    xs, gs = adam_replay(case.gradient, case.init, iters, step)
    sure = np.min([g / g.max() for g in gs], axis=0) > 1e-3
    mon.event('parameters compared', int(sure.sum()))
    final = np.asarray(rec.params)
    mon.check(final.shape == case.init.shape, 'shape of the parameters')
    mon.close(final[sure], xs[-1][sure], 0.05 * step, 'final parameters are those the updates lead to', scale=1)
    mon.check(np.any(final != case.init), 'the parameters change')
    # what the records say about iteration k has to follow from the parameters of iteration k
    recorded = {k: list(range(0, iters, v)) if v else [] for k, v in every.items()}
    if every['eps_interval']:
        mon.check([str(x) for x in rec.eps.coords['name'].values] == names, 'permittivity filed by device')
        mon.check(list(rec.eps.coords['iteration'].values) == recorded['eps_interval'], 'iterations of the permittivity records')
    else:
        mon.check(len(rec.eps) == 0, 'no permittivity recorded')
    if every['field_interval']:
        mon.check([str(x) for x in rec.fields.coords['name'].values] == names, 'fields filed by device')
        mon.check(list(rec.fields.coords['iteration'].values) == recorded['field_interval'], 'iterations of the field records')
    else:
        mon.check(len(rec.fields) == 0, 'no fields recorded')
    has_metrics = every['metric_interval'] and any(w for w, _ in case.metric_fns)
    if has_metrics:
        mon.check([str(x) for x in rec.metrics.coords['name'].values] == names, 'metrics filed by device')
        mon.check(list(rec.metrics.coords['iteration'].values) == recorded['metric_interval'], 'iterations of the metric records')
    else:
        mon.check(len(rec.metrics) == 0, 'no metrics recorded')
    for k in range(iters):
        cost, parts = case.evaluate(xs[k])
        mon.close(float(rec.costs[k]), cost, 3e-3, 'cost of an iteration', scale=max(abs(cost), 0.05))
        for j, (eps, s, hz) in enumerate(parts):
            if k in recorded['eps_interval']:
                got = rec.eps.isel(name=j).sel(iteration=k).values
                mon.close(got, eps, 3e-3, 'permittivity of an iteration', k=k, device=j)
                if k == 0:
                    mon.close(got, eps, 1e-5, 'permittivity of the first iteration')
            if k in recorded['field_interval']:
                mon.close(rec.fields.isel(name=j).sel(iteration=k).values, hz, 2e-2, 'fields of an iteration', scale=np.abs(hz).max(), k=k)
                mon.event('fields compared')
            if has_metrics and k in recorded['metric_interval']:
                want = expected_metrics(case, j, s)
                for name in rec.metrics.coords['metric'].values:
                    got = float(rec.metrics.isel(name=j).sel(iteration=k, metric=name))
                    if str(name) in want:
                        mon.close(got, want[str(name)], 1e-2, 'metrics of an iteration', scale=max(want[str(name)], 0.02), k=k)
                    else:
                        mon.check(np.isnan(got), 'no values for metrics of other problems')
                mon.check(set(want) <= {str(x) for x in rec.metrics.coords['metric'].values}, 'all metrics are recorded')
    # the devices end with the permittivity of the final parameters
    last = {}
    for f, (fresh, fn, *_) in zip(case.sims, case.oracles):
        last[id(f)] = (f, np.asarray(fn(jnp.array(final))))
    for f, eps in last.values():
        mon.close(f.eps, eps, 1e-5, 'devices end with the permittivity of the final parameters')
        mon.check(isinstance(f.eps, np.ndarray) and f.eps.shape == tuple(f.shape), 'permittivity of the device keeps its form')


def influence(rng, mon, size):
    """Records, metrics and displays do not change the course of the optimisation."""
    case = Case(rng, size, display=size % 2 == 0)
    iters = int(rng.integers(2, 7))
    step = float(rng.uniform(0.01, 0.1))
    before = [f.eps.copy() for f in case.sims]
    runs = []
    every = {k: int(rng.integers(1, 4)) for k in ('metric_interval', 'eps_interval', 'field_interval')}
    if size % 3 == 0:
        every[list(every)[int(rng.integers(3))]] = int(rng.integers(iters, iters + 4))
    unique = len({f.name for f in case.sims}) == len(case.sims) and all(w for w, _ in case.metric_fns)
    display = None
    if unique:
        config = {'all': ['power', 'first']} if all(w in (1, 2) for w, _ in case.metric_fns) else None
        display = config and OptViz(cost_dmap=None, simulations_panels={}, costs_pipe=Pipe(),
                                    simulations_pipes={f.name: (Pipe(), Pipe(), Pipe()) for f in case.sims}, metric_config=config,
                                    metrics_pipes={f.name: {'all': Pipe()} for f in case.sims})
    viz_interval = int(rng.integers(1, 4))
    mon.case(True, problems=str(case.plan), every=str(every), display=display is not None, iters=iters)
    for args in ({}, every, dict(pbar=lambda it: Bar(it)), dict(every, viz=display, viz_interval=viz_interval) if display else {'eps_interval': 1}):
        for f, e in zip(case.sims, before):
            f.eps = e
        runs.append(opt_run(case.problems, case.init, iters, step_size=step, **args))
        mon.event('optimisation runs')
        mon.event('iterations', iters)
    for r in runs[1:]:
        mon.close(r.costs, runs[0].costs, 1e-5, 'records and displays do not change the costs')
        mon.close(np.asarray(r.params), np.asarray(runs[0].params), 1e-3 * step, 'records and displays do not change the parameters')
    shorter = opt_run(case.problems, case.init, iters - 1, step_size=step)
    mon.close(shorter.costs, runs[0].costs[:-1], 1e-5, 'a shorter run is the beginning of a longer one')
    if display:
        rec = runs[3]
        sent = display.costs_pipe.sent
        mon.check(len(sent) == iters, 'costs displayed once per iteration')
        for k, x in enumerate(sent):
            mon.close(np.asarray(x, dtype=float), np.asarray(rec.costs, dtype=float)[:k + 1], 1e-12, 'displayed costs')
        for f in case.sims:
            eps, hz, power = display.simulations_pipes[f.name]
            mon.check(len(eps.sent) == len(hz.sent) == len(power.sent) == len(range(0, iters, viz_interval)), 'displayed simulations')
            shown = display.metrics_pipes[f.name]['all'].sent
            mon.check(len(shown) == len(range(0, iters, every['metric_interval'])), 'displayed metrics')
            for k, x in enumerate(shown):
                full = rec.metrics.sel(name=f.name, metric=['power', 'first']).values
                mon.close(x.values, full[:, :k + 1], 1e-9, 'displayed metrics are the recorded ones')
                mon.check(list(x.coords['iteration'].values) == list(range(0, iters, every['metric_interval']))[:k + 1],
                          'iterations of displayed metrics')
        mon.event('displays observed')


def plain(rng, mon, size):
    """Problems without a simulation: any shape of parameters, transforms and numbers of problems."""
    shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    count = int(rng.integers(1, 4))
    targets = [rng.normal(size=shape) for _ in range(count)]
    scale = [float(rng.uniform(0.5, 2)) for _ in range(count)]
    power = [int(rng.integers(1, 3)) for _ in range(count)]
    ident = [bool(rng.integers(2)) for _ in range(count)]

    def make(i):
        t, s, p = jnp.array(targets[i]), scale[i], power[i]
        fn = None if ident[i] else (lambda r: jnp.sin(r))
        return OptProblem(fn, lambda r: (s * jnp.sum((r - t) ** (2 * p)), r), None, None)

    problems = [make(i) for i in range(count)]
    iters = int(rng.integers(0, 13))
    step = float(rng.choice([0.01, 0.1, 1.0]))
    every = {k: int(rng.integers(0, 3)) for k in ('metric_interval', 'eps_interval', 'field_interval')}
    x0 = rng.normal(size=shape)
    mon.case(iters > 1, shape=shape, count=count, iters=iters, every=str(every))

    def cost(x):
        return sum(s * np.sum(((x if i else np.sin(x)) - t) ** (2 * p)) for t, s, p, i in zip(targets, scale, power, ident)) / count

    def grad(x):
        g = 0
        for t, s, p, i in zip(targets, scale, power, ident):
            y = x if i else np.sin(x)
            g = g + s * 2 * p * (y - t) ** (2 * p - 1) * (1 if i else np.cos(x))
        return g / count

    rec = opt_run(problems[0] if count == 1 and rng.integers(2) else problems, x0.copy(), iters, step_size=step, **every)
    mon.event('optimisation runs')
    mon.event('iterations', iters)
    xs, gs = adam_replay(grad, x0, iters, step)
    mon.check(np.shape(rec.costs) == (iters,) and len(rec.metrics) == len(rec.eps) == len(rec.fields) == 0, 'form of the record')
    want = np.array([cost(x) for x in xs[:-1]])
    mon.close(np.asarray(rec.costs, dtype=float), want, 1e-3, 'costs of problems without a simulation',
              scale=max(1.0, np.abs(want).max()) if iters else 1)
    mon.close(np.asarray(rec.params), xs[-1], 1e-3, 'parameters of problems without a simulation', scale=max(1.0, np.abs(xs[-1]).max()))
    mon.event('parameters compared', x0.size)


SCENARIOS = [('history', history, 21, 168), ('influence', influence, 10, 70), ('plain', plain, 28, 280)]
