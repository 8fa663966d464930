"""Time-domain steps: energy, linearity, untouched states and agreement with an independent leapfrog update."""
import jax
import jax.numpy as jnp
import numpy as np

from harness.maxwell import Reference, as_tuple, cells, field, layer, random_eps, random_shape, random_spacing
from simphox.fdtd import FDTD
from simphox.grid import Port
from simphox.sim import SimGrid

TOL = 1e-10
RULE = ('grids of 1 to 3 dimensions, equal and unequal spacings, structured and noisy permittivities, complex and real '
        'random or localised initial states, electric and magnetic sources on random regions, with and without absorbing '
        'layers of several gradings, in numpy, jax and compiled jax; non-trivial: every case; distinct by shape, layer '
        'thickness, step count and state kind')
ASSUMPTIONS = ['the energy of the leapfrog scheme pairs the electric field with the two neighbouring magnetic fields',
               'absorbing layers are the convolutional layers the step documents, with the profile of the simulator']


def simulation(rng, size, pml=False, use_jax=False, eps=None, params=None):
    ndim = 1 + size % 3
    if pml:
        shape = random_shape(rng, ndim, 10, (30, 20, 15)[ndim - 1])
    else:
        shape = random_shape(rng, ndim, 2, (30, 16, 9)[ndim - 1])
    spacing = random_spacing(rng, ndim)
    h = as_tuple(spacing, ndim)
    eps = random_eps(rng, shape) if eps is None else eps
    kwargs = {}
    if pml:
        kwargs['pml'] = tuple(layer(rng, rng.integers(4, max(5, n // 2)), d) for n, d in zip(shape, h))
        if params is not None:
            kwargs['pml_params'] = params
    sim = FDTD(tuple(n * d for n, d in zip(shape, h)), spacing, eps=eps, use_jax=use_jax, **kwargs)
    return sim, shape, h, eps, kwargs


class Leapfrog:
    """The documented update written with index arithmetic, with the layers applied on the whole grid."""

    def __init__(self, shape, spacing, eps, pml=None, pml_params=(3, -25, 1)):
        self.ref = Reference(shape, spacing, eps)
        self.eps = self.ref.eps_t()
        self.dt = 1 / np.sqrt(sum(1 / d ** 2 for d in spacing))
        self.pml = pml
        if pml is not None:
            expo, log_r, corr = pml_params
            self.b, self.c = [], []
            for of_h in (0, 1):
                bs, cs = [], []
                for ax in range(3):
                    n, d = self.ref.shape3[ax], self.ref.h[ax]
                    sigma = np.zeros(n)
                    if ax < len(shape):
                        t = cells(pml[ax], d)
                        pos = np.arange(n) * d + (0 if of_h else d / 2)
                        for i in range(t):
                            sigma[i] = (t * d - pos[i]) / (t * d)
                            sigma[n - t + i] = (pos[n - t + i] - (n - t) * d) / (t * d)
                        sigma = -(expo + 1) * sigma ** expo * log_r / (2 * corr)
                    s = [1, 1, 1]
                    s[ax] = -1
                    b = np.exp(-sigma * self.dt)
                    bs.append(b.reshape(s))
                    cs.append((b - 1).reshape(s))
                self.b.append(bs)
                self.c.append(cs)
        z = (3, 3) + self.ref.shape3
        self.psi_e, self.psi_h = np.zeros(z, complex), np.zeros(z, complex)

    def curl(self, f, back, psi):
        d = self.ref.backward if back else self.ref.forward
        der = {}
        for comp in range(3):
            for ax in range(3):
                if ax != comp:
                    g = d(f[comp], ax)
                    if self.pml is not None:
                        psi[comp, ax] = self.b[int(back)][ax] * psi[comp, ax] + self.c[int(back)][ax] * g
                        g = g + psi[comp, ax]
                    der[comp, ax] = g
        return np.stack([der[2, 1] - der[1, 2], der[0, 2] - der[2, 0], der[1, 0] - der[0, 1]])

    def step(self, e, h, sources=()):
        e = e + self.dt / self.eps * self.curl(h, True, self.psi_e)
        for se, _, region in sources:
            if se is not None:
                e[region] -= self.dt * se / self.eps[region]
        h = h - self.dt * self.curl(e, False, self.psi_h)
        for _, sh, region in sources:
            if sh is not None:
                h[region] -= self.dt * sh
        return e, h


def initial(rng, shape3, kind):
    shape = (3,) + tuple(shape3)
    if kind == 'noise':
        return field(rng, shape), field(rng, shape)
    if kind == 'real':
        return field(rng, shape, True) + 0j, field(rng, shape, True) + 0j
    e, h = np.zeros(shape, complex), np.zeros(shape, complex)
    if kind == 'point':
        e[(int(rng.integers(3)),) + tuple(int(rng.integers(n)) for n in shape3)] = 1
    else:
        h[int(rng.integers(3))] = 1 + 0.5 * field(rng, shape3)
    return e, h


def state_of(sim, e, h):
    _, _, pe, ph = sim.zero_state
    return sim.xp.array(e), sim.xp.array(h), pe, ph


def copies(state):
    e, h, pe, ph = state
    return np.array(e), np.array(h), None if pe is None else [np.array(p) for p in pe], \
        None if ph is None else [np.array(p) for p in ph]


def same(a, b):
    flat = lambda s: [s[0], s[1]] + (list(s[2]) + list(s[3]) if s[2] is not None else [])
    return all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(flat(a), flat(b)))


def energy(rng, mon, size):
    use_jax = size % 2 == 1
    sim, shape, h, eps, _ = simulation(rng, size, use_jax=use_jax)
    kind = str(rng.choice(['noise', 'real', 'point', 'smooth']))
    steps = int(rng.integers(20, 120))
    mon.case(True, shape=shape, kind=kind, steps=steps, jax=use_jax)
    e, hh = initial(rng, sim.shape3, kind)
    state = state_of(sim, e, hh)
    step = jax.jit(lambda s: sim.step(s, [])) if use_jax and size % 4 == 1 else (lambda s: sim.step(s, []))
    eps_t = Reference(shape, h, eps).eps_t()
    values = []
    for _ in range(steps):
        before = np.array(state[1])
        state = step(state)
        e, after = np.asarray(state[0]), np.asarray(state[1])
        values.append(np.real(np.vdot(e, eps_t * e) + np.vdot(before, after)))
        scale = np.real(np.vdot(e, eps_t * e) + np.vdot(after, after))
        mon.close(values[-1], values[0], 1e-9, 'energy', scale=max(scale, abs(values[0])))
        mon.event('steps')
    # the energy of the scheme bounds the fields only below the stability limit, so check the fields themselves
    mon.check(np.isfinite(scale), 'finite fields')
    mon.close(sim.dt, 1 / np.sqrt(np.sum(1 / np.asarray(h) ** 2)), 1e-12, 'time step')


def region(rng, shape3):
    """A random region (an axis of a single cell is given by its index) and the shape of a source on it."""
    sl, shp = [slice(None)], [3]
    for n in shape3:
        a = int(rng.integers(n))
        b = int(rng.integers(a + 1, n + 1))
        sl.append(slice(a, b) if b - a > 1 else a)
        shp += [b - a] if b - a > 1 else []
    return tuple(sl), tuple(shp)


def sources_of(rng, shape3, k):
    res = []
    for _ in range(k):
        r, shp = region(rng, shape3)
        which = int(rng.integers(4))
        res.append((None if which == 1 else field(rng, shp), None if which == 2 else field(rng, shp), r))
    return res


def update(rng, mon, size):
    """Every step equals the reference leapfrog step, with layers and sources, in numpy and jax, from untouched states."""
    pml = bool(rng.integers(3))
    params = [None, (3, -25, 1), (4, -16, 1.0), (2, -10, 0.5)][int(rng.integers(4))]
    use_jax = bool(size % 2)
    sim, shape, h, eps, kwargs = simulation(rng, size, pml, use_jax, params=params)
    steps = int(rng.integers(3, 12))
    mon.case(True, shape=shape, pml=pml, steps=steps, jax=use_jax, params=str(params))
    ref = Leapfrog(shape, h, eps, kwargs.get('pml'), kwargs.get('pml_params', (3, -25, 1)))
    e, hh = initial(rng, sim.shape3, str(rng.choice(['noise', 'point', 'smooth'])))
    state = state_of(sim, e, hh)
    for i in range(steps):
        sources = sources_of(rng, sim.shape3, int(rng.integers(0, 3)))
        kept, kept_sources = copies(state), [(np.array(a), np.array(b)) for a, b, _ in sources if a is not None and b is not None]
        new = sim.step(state, sources)
        mon.check(same(state, kept), 'the given state is not changed')
        mon.check(all(np.array_equal(a, np.asarray(s[0])) and np.array_equal(b, np.asarray(s[1])) for (a, b), s in
                      zip(kept_sources, [s for s in sources if s[0] is not None and s[1] is not None])), 'sources are not changed')
        e, hh = ref.step(e, hh, sources)
        s = max(1.0, np.abs(e).max(), np.abs(hh).max())
        # alpha = 1e-8 of the layers is the only term the reference leaves out
        mon.close(new[0], e, 1e-6 if pml else TOL, f'electric field after a step (pml={pml})', scale=s)
        mon.close(new[1], hh, 1e-6 if pml else TOL, f'magnetic field after a step (pml={pml})', scale=s)
        again = sim.step(state, sources)
        mon.check(same(again, new), 'a repeated step gives the same state')
        state = new
        mon.event('steps')
        mon.event('sources', len(sources))


def linear(rng, mon, size):
    pml = size % 3 > 0
    sim, shape, h, eps, _ = simulation(rng, int(rng.integers(3)), pml, use_jax=bool(size % 2))
    other = FDTD(tuple(n * d for n, d in zip(shape, h)), h, eps=eps, use_jax=not sim.use_jax,
                 **({'pml': sim.pml} if pml else {}))
    mon.case(True, shape=shape, pml=pml)
    a, b = complex(*rng.normal(size=2)), complex(*rng.normal(size=2))
    s1, s2 = state_of(sim, *initial(rng, sim.shape3, 'noise')), state_of(sim, *initial(rng, sim.shape3, 'smooth'))
    comb = lambda x, y: None if x is None else ([a * p + b * q for p, q in zip(x, y)] if isinstance(x, (list, tuple)) else a * x + b * y)
    s3 = tuple(comb(x, y) for x, y in zip(s1, s2))
    s4 = tuple(None if x is None else ([other.xp.array(np.array(p)) for p in x] if isinstance(x, (list, tuple))
                                       else other.xp.array(np.array(x))) for x in s3)
    for i in range(int(rng.integers(3, 15))):
        r, shp = region(rng, sim.shape3)
        q1, q2 = [(field(rng, shp), field(rng, shp)) for _ in range(2)]
        s1, s2 = sim.step(s1, [(q1[0], q1[1], r)]), sim.step(s2, [(q2[0], q2[1], r)])
        q3 = (a * q1[0] + b * q2[0], a * q1[1] + b * q2[1], r)
        s3, s4 = sim.step(s3, [q3]), other.step(s4, [q3])
        want = tuple(comb(x, y) for x, y in zip(s1, s2))
        scale = max(1.0, float(np.abs(want[0]).max()), float(np.abs(want[1]).max()))
        for j, name in ((0, 'electric'), (1, 'magnetic')):
            mon.close(s3[j], want[j], 1e-9, f'superposition of {name} fields', scale=scale)
            mon.close(s4[j], s3[j], 1e-9, f'{name} field in numpy and jax', scale=scale)
        mon.event('steps', 4)


def absorbing(rng, mon, size):
    """With absorbing layers the energy of a pulse only leaves; what is left at the end is a small part of it."""
    ndim = 1 + size % 2
    spacing = float(np.round(rng.uniform(0.03, 0.1), 3))
    t = int(rng.integers(8, 12))
    inner = int(rng.integers(16, 30))
    shape = (inner + 2 * t,) * ndim
    eps = np.ones(shape) * float(rng.uniform(1, 3))
    core = tuple(slice(t + 4, t + 8) for _ in shape)
    eps[core] = float(rng.uniform(1, 6))
    sim = FDTD(tuple(n * spacing for n in shape), spacing, eps=eps, pml=(t * spacing,) * ndim, use_jax=False)
    mon.case(True, shape=shape, t=t)
    grids = np.meshgrid(*[np.arange(n) - n / 2 - rng.uniform(-3, 3) for n in shape], indexing='ij')
    pulse = np.exp(-sum(g ** 2 for g in grids) / 18).reshape(sim.shape3)
    e, h = np.zeros(sim.field_shape, complex), np.zeros(sim.field_shape, complex)
    (e if rng.integers(2) else h)[[2, 1][int(rng.integers(2))] if ndim == 1 else 2] = pulse
    eps_t = Reference(shape, (spacing,) * ndim, eps).eps_t()
    state = state_of(sim, e, h)
    w = []
    for _ in range(int(8 * max(shape) * np.sqrt(eps.max()))):
        before = state[1]
        state = sim.step(state, [])
        e, after = state[0], state[1]
        w.append(np.real(np.vdot(e, eps_t * e) + np.vdot(before, after)))
        mon.event('steps')
    w = np.array(w) / w[0]
    mon.check(w.max() <= 1 + 1e-3, 'energy does not grow', got=w.max())
    k = len(w) // 8
    coarse = np.array([w[i * k:(i + 1) * k].max() for i in range(8)])
    mon.check(np.all(np.diff(coarse) <= 1e-6), 'energy keeps decreasing', got=coarse)
    mon.check(w[-1] < 0.01, 'energy has left', got=w[-1])
    mon.worst['left'] = max(mon.worst.get('left', 0), float(w[-1]) / 0.01)


def run(rng, mon, size):
    """A continuous-wave run is the loop of steps its documentation describes, from any initial state."""
    use_jax = size % 2 == 1
    nx, ny, d = int(rng.integers(26, 36)), int(rng.integers(20, 28)), 0.1
    eps = np.ones((nx, ny))
    w = int(rng.integers(2, 4)) * 2
    eps[:, ny // 2 - w // 2:ny // 2 + w // 2] = float(rng.uniform(6, 12))
    sim = FDTD((nx * d, ny * d), d, eps=eps, pml=(0.4001, 0.4001), pml_sep=2, use_jax=use_jax)
    yc, wl = (ny // 2) * d, float(rng.uniform(1.2, 2))
    sim.port = {'a0': Port(0.7, yc, 180, w * d), 'b0': Port(nx * d - 0.8, yc, 0, w * d)}
    source = [('a0', 0), 'b0', 'a0', [('b0', 0), ('a0', 0)], {'b0': 1}, [('a0', 0)]][size % 6]
    names = {0: ['a0'], 1: ['b0'], 2: ['a0'], 3: ['b0', 'a0'], 4: ['b0'], 5: ['a0']}[size % 6]
    source = [source] if size % 6 == 0 else source
    measure = [None, ['b0'], [('b0', 0), ('a0', 0)]][int(rng.integers(3))]
    # (also longer than a period of the wave)
    steps = int(rng.integers(4, 20)) if size % 12 < 6 else int(rng.integers(36, 80))
    mon.case(True, shape=(nx, ny), source=str(source), measure=str(measure), steps=steps, jax=use_jax)
    factor = int(rng.integers(2, 4))
    start = None
    if rng.integers(2):
        e, h = initial(rng, sim.shape3, 'noise')
        start = state_of(sim, e, h)
        kept = copies(start)
    seen = []
    flux, state = sim.run_cw_port(steps, wl, source, measure, profile_size_factor=factor, initial_state=start,
                                  pbar=(lambda it: (seen.append(k) or k for k in it)) if rng.integers(2) else None)
    if start is not None:
        mon.check(same(start, kept), 'the initial state is not changed')
    # the same loop with the monitor's own update
    ref = Leapfrog((nx, ny), (d, d), eps, (0.4001, 0.4001))
    e, h = (kept[0], kept[1]) if start is not None else (np.zeros(sim.field_shape, complex), np.zeros(sim.field_shape, complex))
    modes = {name: SimGrid((nx * d, ny * d), d, eps=eps).modes((sim.port[name].x, yc, 0), tuple(sim.port[name].size * factor), wl, 1)
             for name in names}
    clone = SimGrid((nx * d, ny * d), d, eps=eps)
    clone.port = sim.port
    m = clone.get_measure_fn(measure, wavelength=wl, profile_size_factor=factor)
    want = [m(np.stack((e, h)))]
    for k in range(steps):
        t = np.exp(2j * np.pi / wl * k * ref.dt)
        src = [(modes[n].profile(0).squeeze() * t, modes[n].profile(0, use_h=True).squeeze() * t, modes[n].slice(sim)) for n in names]
        before = h
        e, h = ref.step(e, h, src)
        want.append(m(np.stack((e, (before + h) / 2))))
        mon.event('steps')
    s = max(1e-3, np.abs(e).max(), np.abs(h).max())
    mon.close(state[0], e, 1e-5, 'electric field of a run', scale=s)
    mon.close(state[1], h, 1e-5, 'magnetic field of a run', scale=s)
    mon.close(np.array([np.array(f) for f in flux]), np.array(want), 1e-5, 'measurements of a run', scale=max(1e-3, np.abs(want).max()))


SCENARIOS = [('energy', energy, 36, 480), ('update', update, 48, 600), ('linear', linear, 24, 300),
             ('absorbing', absorbing, 12, 120), ('run', run, 12, 90)]
