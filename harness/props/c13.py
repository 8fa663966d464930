"""Simulations reflect the current structure after any history of edits and solves."""
import jax.numpy as jnp
import numpy as np

from harness.maxwell import field, random_eps
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Port
from simphox.mode import ModeLibrary, ModeSolver
from simphox.sim import SimGrid

RULE = ('histories of 8 to 16 operations on one to three simulations at a time: edits (fill, region, component, whole array, '
        'in-place slices, small changes, return to an earlier structure, ports moved) alternating with observations (solves, '
        'operators, modes, port sources, s-parameters, time steps), each compared with a fresh simulation; non-trivial: an '
        'observation follows an edit that follows an observation; distinct by the sequence of operations')
ASSUMPTIONS = ['mode profiles are compared up to their phase', 'a component is any object with bounds, mask and ports']
EXACT, MODAL = 1e-9, 2e-3


class Component:
    """A component as the design library provides it."""

    def __init__(self, rng, shape, spacing):
        lo = [int(rng.integers(0, n // 2)) for n in shape[:2]]
        hi = [int(rng.integers(l + 1, n + 1)) for l, n in zip(lo, shape[:2])]
        self.bounds = (lo[0] * spacing[0], lo[1] * spacing[1], hi[0] * spacing[0] * (1 - 1e-9), hi[1] * spacing[1] * (1 - 1e-9))
        self.region = (slice(lo[0], hi[0]), slice(lo[1], hi[1]))
        self.port = {}

    def mask(self, shape, spacing):
        m = np.zeros(shape)
        m[self.region] = 1
        return m


def edit(rng, mon, sim, past):
    """Apply a random edit and return its name; the permittivity itself is the record of what is painted (see C19)."""
    shape, ndim = sim.eps.shape, sim.ndim
    op = str(rng.choice(['fill', 'region', 'array', 'slice', 'entry', 'scale', 'return', 'all', 'component', 'guide', 'nudge']))
    v = float(rng.uniform(1, 12))
    length = sim.size[-1]
    if op == 'fill':
        sim.fill(float(rng.uniform(0, length / 2)), v)
    elif op == 'all':
        sim.fill(0, v)
    elif op == 'region':
        sim.set_eps(tuple(float(rng.uniform(0.2, 0.8)) * s for s in sim.size3), tuple(float(rng.uniform(0.1, 0.8)) * s for s in sim.size3), v)
    elif op == 'array':
        sim.eps = random_eps(rng, shape)
    elif op == 'slice':
        sim.eps[tuple(slice(*sorted(int(i) for i in rng.integers(0, n + 1, 2))) for n in shape)] = v
    elif op == 'entry':
        sim.eps[tuple(int(rng.integers(n)) for n in shape)] += v
    elif op == 'nudge':
        sim.eps[tuple(int(rng.integers(n)) for n in shape)] *= 1.001
    elif op == 'scale':
        sim.eps *= float(rng.uniform(0.8, 1.2))
    elif op == 'return':
        sim.eps = past[int(rng.integers(len(past)))].copy()
    elif op == 'component' and ndim > 1:
        port = sim.port
        sim.add(Component(rng, shape, sim.spacing), v, *((0, float(sim.size[2]) / 2) if ndim == 3 else ()))
        sim.port = port
    elif op == 'guide':  # a waveguide through the ports
        eps = np.ones(shape) * float(rng.uniform(1, 2.2))
        if ndim == 2:
            eps[:, shape[1] // 2 - 2:shape[1] // 2 + 2] = v + 3
        else:
            sl = tuple(slice(n // 2 - 2, n // 2 + 2) for n in (shape if ndim == 1 else shape[1:]))
            eps[sl if ndim == 1 else (slice(None),) + sl] = v + 3
        sim.eps = eps
    past.append(sim.eps.copy())
    return op


def modal(mon, a, b, what, scale=None):
    """Equality of a mode-shaped array up to a phase."""
    a, b = np.asarray(a), np.asarray(b)
    if not mon.check(a.shape == b.shape, f'{what}: shape', got=a.shape, want=b.shape):
        return
    overlap = np.vdot(a, b)
    a = a * np.exp(1j * np.angle(overlap)) if abs(overlap) > 0 else a
    mon.close(a, b, MODAL, what, scale=np.abs(b).max() + 1e-300)


def ports(rng, length, dx):
    y = length[1] / 2 + float(rng.integers(-2, 3)) * dx
    return {'a0': Port(0.8, y, 180, 0.4), 'b0': Port(length[0] - 0.8, y, 0, 0.4)}


class World:
    """A simulation under test together with the recipe of a fresh one."""

    def __init__(self, rng, kind):
        self.kind, self.rng = kind, rng
        self.dx = 0.1
        self.length = (2.8, 2.4)
        self.args = dict(pml=(0.5, 0.5), pml_sep=2)
        self.wavelength = float(rng.uniform(1.2, 1.7))
        if kind == 'mode1':
            self.length, self.args = (2.4,), {}
        elif kind == 'mode2':
            self.length, self.dx, self.args = (1.6, 1.4), 0.1, {}
        elif kind == 'grid3':
            self.length, self.dx, self.args = (1.0, 1.6, 1.4), 0.1, {}
        eps = random_eps(rng, tuple(int(round(s / self.dx)) for s in self.length))
        self.given = eps
        self.keep = eps.copy()
        self.sim = self.fresh(eps)
        if kind in ('fdfd', 'fdtd', 'grid3'):
            self.sim.port = ports(rng, self.length, self.dx)
            if kind == 'grid3':
                self.sim.port = {'a0': Port(0.3, 0.8, 180, 0.4, 0.7, 0.4)}
        self.past = [eps.copy()]

    def fresh(self, eps=None):
        sim = eps is None
        eps = self.sim.eps.copy() if sim else eps
        if self.kind == 'fdfd':
            f = FDFD(self.length, self.dx, wavelength=self.wavelength, eps=eps, **self.args)
        elif self.kind == 'fdtd':
            f = FDTD(self.length, self.dx, eps=eps, use_jax=False, **self.args)
        elif self.kind == 'grid3':
            f = SimGrid(self.length, self.dx, eps=eps)
        else:
            f = ModeSolver(self.length, self.dx, eps=eps, wavelength=self.wavelength)
        if sim:
            f.port = dict(self.sim.port)
        return f

    def observe(self, mon):
        rng, sim, new = self.rng, self.sim, self.fresh()
        what = str(rng.choice({
            'fdfd': ['solve', 'solve', 'operator', 'modes', 'source', 'sparams', 'jax', 'mask', 'average'],
            'fdtd': ['step', 'port', 'modes', 'average', 'source'], 'grid3': ['modes', 'average', 'mask', 'source'],
            'mode1': ['solve', 'library', 'operator', 'average'], 'mode2': ['solve', 'library', 'operator', 'average', 'h2e']}[self.kind]))
        mon.event('observations')
        tag = f'{self.kind} {what}'
        before = sim.eps.copy()
        if what == 'average':
            mon.close(np.asarray(sim.eps_t), np.asarray(new.eps_t), EXACT, tag)
        elif what == 'mask':
            c, s = tuple(x / 2 for x in sim.size3), tuple(x / 2 for x in sim.size3)
            rho = rng.random(sim.eps.shape)
            mon.close(np.asarray(sim.mask_fn(s, c)(rho)), np.asarray(new.mask_fn(s, c)(rho)), EXACT, tag)
        elif self.kind == 'fdfd' and what == 'solve':
            tm, src = bool(rng.integers(2)), field(rng, sim.eps.shape)
            want = new.solve(src, tm_2d=tm)
            mon.close(sim.solve(src, tm_2d=tm), want, 1e-7, tag, scale=np.abs(want).max())
        elif self.kind == 'fdfd' and what == 'operator':
            mats = [(f.mat, f.mat_ez, f.mat_hz) for f in (sim, new)]
            for a, b in zip(*mats):
                mon.check(abs(a - b).max() <= EXACT * abs(b).max(), tag)
        elif self.kind == 'fdfd' and what == 'jax':
            tm, src = bool(rng.integers(2)), field(rng, sim.eps.shape)
            want = new.solve(src, tm_2d=tm)
            mon.close(np.asarray(sim.get_fields_fn(src, tm_2d=tm)(jnp.array(sim.eps))), want, 1e-7, tag, scale=np.abs(want).max())
        elif self.kind == 'fdfd' and what == 'sparams':
            ok, want = modes_ok(new)
            if ok:
                names = [('a0', 0), ('b0', 0)]
                want = new.sparams('a0', measure_info=names)
                got = sim.sparams('a0', measure_info=names)
                mon.close(np.abs(got), np.abs(want), MODAL * 3, tag)
                if rng.integers(2):
                    fn = sim.get_sim_sparams_fn('a0')
                    got, _ = fn(jnp.array(sim.eps))
                    mon.close(np.abs(np.asarray(got)), np.abs(want), MODAL * 3, f'{tag} in jax')
                mon.event('s-parameters')
        elif what == 'modes':
            name = str(rng.choice(list(sim.port)))
            p = sim.port[name]
            n = int(rng.integers(1, 3))
            ok, gap = modes_ok(new, name, n)
            if ok:
                a, b = (f.modes(f.pml_safe_placement(p.xyz), tuple(p.size * 3), self.wavelength, n) for f in (sim, new))
                if all(gap):
                    mon.close(a.io.betas, b.io.betas, 1e-5, f'{tag}: propagation constants')
                for i in range(min(len(a.io.betas), len(b.io.betas))):
                    if gap[i]:
                        modal(mon, a.profile(i), b.profile(i), f'{tag}: profile')
                        if sim.ndim == 2:
                            modal(mon, a.place(i, sim), b.place(i, new), f'{tag}: placement')
                if rng.integers(3) == 0:
                    a.io.update_wavelength(self.wavelength * 1.1)  # someone uses the library for a sweep
                    mon.event('libraries updated')
        elif what == 'source':
            ok, gap = modes_ok(new)
            if ok and gap[0]:
                w = {'wavelength': self.wavelength}
                name = str(rng.choice(list(sim.port)))
                modal(mon, sim.port_source({name: 1}, **w), new.port_source({name: 1}, **w), tag)
        elif what == 'step':
            state = tuple(field(rng, sim.field_shape) for _ in range(2)) + sim.zero_state[2:]
            got = sim.step(tuple(np.copy(s) if isinstance(s, np.ndarray) else s for s in state), [])
            want = new.step(state, [])
            for a, b in zip(got[:2], want[:2]):
                mon.close(a, b, EXACT, tag)
        elif what == 'port':
            ok, gap = modes_ok(new, n=1, wavelength=self.wavelength)
            if ok and gap[0]:
                (_, a), (_, b) = (f.run_cw_port(12, wavelength=self.wavelength, source_port='a0') for f in (sim, new))
                modal(mon, a[0], b[0], tag)
        elif what in ('solve', 'operator', 'library', 'h2e'):
            if what == 'operator':
                a, b = sim.C, new.C
                mon.check(abs(a - b).max() <= EXACT * abs(b).max(), tag)
            else:
                m = int(rng.integers(1, 4))
                betas, h = new.solve(m)
                clear = separated(new, m)
                if what == 'library':
                    lib = ModeLibrary(sim, m)
                    edit(rng, mon, sim, self.past)
                    old = sim.wavelength
                    w = float(rng.uniform(1.2, 1.7)) if rng.integers(3) else old
                    lib.update_wavelength(w)
                    new2 = self.fresh()
                    new2.wavelength = w
                    betas, _ = new2.solve(m)
                    before = sim.eps.copy()
                    if len(betas):
                        mon.close(lib.eps, sim.eps, EXACT, f'{tag}: permittivity')
                    if len(betas) and separated(new2, m):
                        mon.close(lib.betas, betas, 1e-5, tag)
                        mon.close(lib.ns, betas / (2 * np.pi / w), 1e-5, f'{tag}: indices')
                    sim.wavelength = old
                elif what == 'h2e' and len(betas):
                    mon.close(sim.h2e(h[0], betas[0]), new.h2e(h[0], betas[0]), EXACT, tag, scale=np.abs(new.h2e(h[0], betas[0])).max())
                elif clear:
                    mon.close(sim.solve(m)[0], betas, 1e-5, tag)
        mon.check(np.array_equal(sim.eps, before), 'observing does not edit')
        return what


def separated(solver, m):
    """Whether the first m modes are guided and well separated, so that any eigensolver finds the same ones."""
    vals = np.sort(np.linalg.eigvals(solver.C.toarray()).real)[::-1]
    k2 = solver.k0 ** 2
    return vals[m - 1] > 0.05 * k2 and bool(np.all(np.abs(np.diff(vals[:m + 1])) > 0.02 * k2))


def modes_ok(sim, name=None, n=1, wavelength=None):
    """Whether all modes in question are guided and which ones are well separated from others (else their shape is arbitrary)."""
    gaps = []
    for p in [name] if name else sim.port:
        port = sim.port[p]
        w = wavelength or getattr(sim, 'wavelength', 1.55)
        c, s = sim.pml_safe_placement(port.xyz), tuple(port.size * 3)
        section = sim.eps.reshape(sim.shape3)[sim.slice(c, s, squeezed=False)].squeeze().copy()
        h = sim.spacing3[[i for i in range(3) if sim.eps.reshape(sim.shape3)[sim.slice(c, s, squeezed=False)].shape[i] > 1]]
        solver = ModeSolver(tuple(np.array(section.shape) * h), h, eps=section, wavelength=w)
        vals = np.linalg.eigvals(solver.C.toarray())
        vals = np.sort(vals.real)[::-1]
        if vals[n - 1] <= 0.05 * solver.k0 ** 2:
            return False, []
        d = np.abs(np.diff(vals[:n + 1])) > 0.05 * solver.k0 ** 2
        gaps.append([bool(d[i] and (i == 0 or d[i - 1])) for i in range(n)])
    return True, [all(g[i] for g in gaps) for i in range(n)]


def history(rng, mon, size):
    kinds = ['fdfd', 'fdfd', 'fdtd', 'mode1', 'mode2', 'grid3']
    worlds = [World(rng, kinds[(size + i) % 6]) for i in range(int(rng.integers(1, 4)))]
    if len(worlds) > 1 and rng.integers(2):  # two of one kind
        worlds[1] = World(rng, worlds[0].kind)
    trace, last = [], None
    for step in range(int(rng.integers(8, 17))):
        w = worlds[int(rng.integers(len(worlds)))]
        others = [(o, o.sim.eps.copy()) for o in worlds if o is not w]
        if last is None or rng.integers(5) > 1:
            trace.append(edit(rng, mon, w.sim, w.past))
            mon.event('edits')
            if w.kind in ('fdfd', 'fdtd') and rng.integers(6) == 0:
                w.sim.port = ports(rng, w.length, w.dx)
                trace.append('ports')
        w.observe(mon)
        trace.append('observe')
        last = True
        for o, eps in others:
            mon.check(np.array_equal(o.sim.eps, eps), 'other simulations stay as they are')
    for w in worlds:
        mon.check(np.array_equal(w.given, w.keep), 'the array a simulation is made from stays as it is')
        w.observe(mon)
    mon.case(trace.count('observe') > 1, trace=' '.join(trace), kinds=' '.join(w.kind for w in worlds))


def shared(rng, mon, size):
    """Simulations made from one array or from each other do not influence each other."""
    shape = (28, 24)
    base = random_eps(rng, shape)
    if rng.integers(2):
        base = np.asfortranarray(base)
    if rng.integers(3) == 0:
        base = np.around(base).astype(int)
    keep = base.copy()
    a = FDFD((2.8, 2.4), 0.1, eps=base, wavelength=1.4)
    b = (FDFD, FDTD, SimGrid)[size % 3]((2.8, 2.4), 0.1, eps=base if rng.integers(2) else a.eps)
    b.port = {'a0': Port(0.6, 1.2, 180, 0.4)}
    c = FDFD.from_simgrid(b, 1.4)
    c.port['b0'], b.port['c0'] = Port(2.2, 1.2, 0, 0.4), Port(1.4, 0.4, 270, 0.4)
    mon.check(sorted(b.port) == ['a0', 'c0'] and sorted(c.port) == ['a0', 'b0'], 'a port of one simulation is not one of another',
              got=f'{sorted(b.port)} {sorted(c.port)}')
    b.port, c.port = {}, {}
    d = ModeSolver((2.8, 2.4), 0.1, eps=a.eps)
    sims = [a, b, c, d]
    trace = []
    want = [s.eps.copy() for s in sims]
    for step in range(8):
        i = int(rng.integers(4))
        trace.append(f'{i}:' + edit(rng, mon, sims[i], [keep.astype(float)]))
        want[i] = sims[i].eps.copy()
        for s, e in zip(sims, want):
            mon.check(np.array_equal(s.eps, e), 'editing a simulation does not change another one')
        mon.check(np.array_equal(base, keep), 'the array a simulation is made from stays as it is')
        mon.event('edits')
        src = field(rng, shape)
        x, y = a.solve(src), FDFD((2.8, 2.4), 0.1, eps=want[0].copy(), wavelength=1.4).solve(src)
        mon.close(x, y, 1e-7, 'fields of the simulation', scale=np.abs(y).max())
    base[:] = 3
    for s, e in zip(sims, want):
        mon.check(np.array_equal(s.eps, e), 'editing the array does not change the simulation')
    mon.case(True, trace=' '.join(trace))


SCENARIOS = [('history', history, 110, 1000), ('shared', shared, 30, 200)]
