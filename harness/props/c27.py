"""Time-domain simulations settle to the frequency-domain solution."""
import jax
import jax.numpy as jnp
import numpy as np
import scipy.sparse.linalg as sla

from harness.maxwell import field
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Port

RULE = ('point, line and port sources of one frequency in random structures in one to three dimensions, switched on slowly and '
        'followed until the fields repeat, against the frequency-domain solution at the frequency that the time step aliases to it, '
        'including its phase; distinct by geometry; non-trivial: every case (fields that do not settle are violations)')
ASSUMPTIONS = ['sources that are switched on slowly carry no static charge',
               'the two kinds of absorbing layers reflect differently, by at most a few percent in these domains',
               'the hz-polarised solver is compared in homogeneous media (see the finding of C12), elsewhere the operator of the whole electric field']


def settle(f, source, magnetic, region, k0, chunk, most, ramp=200):
    """Complex amplitudes of the settled fields, as seen at the time of the source, and their last change."""
    src = jnp.asarray(source[region])

    def one(state, amplitude):
        q = src * amplitude
        return f.step(state, [(None, q, region) if magnetic else (q, None, region)])

    step = jax.jit(one)
    state, last, change = f.zero_state, None, np.inf
    for s in range(most):
        w = np.sin(min(s / ramp, 1) * np.pi / 2) ** 2
        amplitude = w * np.exp(1j * k0 * f.dt * s)
        try:
            state = step(state, amplitude)
        except (jax.errors.TracerArrayConversionError, jax.errors.ConcretizationTypeError):
            step = one
            state = step(state, amplitude)
        if (s + 1) % chunk == 0:
            # the electric field is half a step behind the magnetic field
            phase = np.exp(1j * k0 * f.dt * (s + np.array([0.5, 1])))
            now = np.stack([np.asarray(x) / p for x, p in zip(state[:2], phase)])
            if last is not None:
                change = np.linalg.norm(now - last) / max(np.linalg.norm(now), 1e-300)
                if change < 1e-2:
                    return now, change, s + 1
            last = now
    return last, change, most


def pair(n, d, t, eps, wavelength):
    """The two simulations; the discrete derivative in time turns k0 into a smaller frequency."""
    ndim = len(n)
    args = dict(size=tuple(k * x for k, x in zip(n, d)), spacing=d if ndim > 1 else d[0], eps=eps,
                pml=tuple(k * x for k, x in zip(t, d)) if ndim > 1 else t[0] * d[0])
    f = FDTD(**args)
    k0 = 2 * np.pi / wavelength
    g = FDFD(**args, wavelength=np.pi * f.dt / np.sin(k0 * f.dt / 2))
    return f, g, k0


def compare(mon, f, g, k0, source, magnetic, vector, chunk, most):
    """Fields between the layers; returns both solutions."""
    region = (slice(None),) + tuple(slice(None) if i < f.ndim else 0 for i in range(3))
    a, change, steps = settle(f, source, magnetic, region, k0, chunk, most)
    mon.event('steps', steps)
    if not change < 1e-2:
        return None
    if vector:  # the operator of the whole electric field
        rhs = np.asarray(g.curl_fn(of_h=True)(source)) / (1j * g.k0) if magnetic else source
        if f.ndim == 3:
            e = np.asarray(g.solve(rhs.ravel())[0])
        else:
            e = sla.spsolve(g.mat.tocsc(), g.k0 * rhs.ravel()).reshape(source.shape)
        h = np.asarray(g.e2h(e))
        b = np.stack((e, h - source / g.k0 if magnetic else h))
    else:
        out = g.solve((source if f.ndim == 3 else source[2]).ravel(), tm_2d=magnetic)
        b = np.stack([np.asarray(x) for x in out])
    # the magnetic source enters half a step after the time its amplitude belongs to
    return a, -1j * np.exp(-0.5j * k0 * f.dt * magnetic) * b


def inside(x, f, t, margin=1):
    return x[(slice(None), slice(None)) + tuple(slice(t[i] + margin, -t[i] - margin) if i < f.ndim else slice(None)
                                                for i in range(3))]


def structure(rng, n, t, kind):
    """Random permittivity between the layers, a guide through everything or a homogeneous medium."""
    eps = np.full(n, float(rng.uniform(1, 2.5)))
    if kind == 'homogeneous':
        return eps
    box = tuple(slice(int(rng.integers(t[i], k // 2)), int(rng.integers(k // 2 + 1, k - t[i]))) for i, k in enumerate(n))
    eps[box] = rng.uniform(1, 5, eps[box].shape) if kind == 'noise' else rng.uniform(1, 8)
    if kind == 'layers' and len(n) > 1:
        ax = int(rng.integers(len(n)))
        sl = [slice(None)] * len(n)
        sl[ax] = slice(n[ax] // 2 - 2, n[ax] // 2 + int(rng.integers(0, 3)))
        eps[tuple(sl)] = rng.uniform(2, 6)
    return eps


def sources(rng, mon, size, ndim, kind):
    t = [int(rng.integers(9, 13)) if ndim < 3 else 6 for _ in range(ndim)]
    n = [int(rng.integers(12, 20)) + 2 * k if ndim < 3 else int(rng.integers(8, 11)) + 2 * k for k in t]
    d = tuple(float(x) for x in np.round(rng.uniform(0.06, 0.1, ndim), 3)) if rng.integers(2) else (0.08,) * ndim
    magnetic = kind.startswith('magnetic')
    vector = kind == 'in plane' or magnetic and (ndim == 3 or bool(rng.integers(2)))
    medium = 'homogeneous' if magnetic and not vector else str(rng.choice(['noise', 'block', 'layers']))
    eps = structure(rng, n, t, medium)
    wavelength = float(rng.uniform(1.2, 1.8))
    f, g, k0 = pair(n, d, t, eps, wavelength)
    source = np.zeros((3,) + tuple(f.shape3), dtype=complex)
    where = []
    for _ in range(int(rng.integers(1, 4))):
        at = tuple([int(rng.integers(t[i] + 2, n[i] - t[i] - 2)) for i in range(ndim)] + [0] * (3 - ndim))
        c = int(rng.integers(2)) if kind == 'in plane' else 2 if ndim < 3 else int(rng.integers(3))
        source[(c,) + at] += complex(field(rng, ()))
        where.append((c,) + at)
    mon.case(True, n=str(n), d=str(d), layers=str(t), medium=medium, at=str(where), wavelength=round(wavelength, 3))
    both = compare(mon, f, g, k0, source, magnetic, vector, 200, 6000 if ndim < 3 else 3000)
    if not mon.check(both is not None, 'the fields settle at the frequency of the source'):
        return
    a, b = (inside(x, f, t) for x in both)
    for i, name in enumerate(('electric', 'magnetic')):
        mon.small(np.linalg.norm(a[i] - b[i]) / np.linalg.norm(b[i]), TOL[ndim], f'settled {name} field of {kind} sources')
    mon.event('settled fields')


TOL = {1: 0.12, 2: 0.08, 3: 0.08}


def one(rng, mon, size):
    sources(rng, mon, size, 1, 'electric' if size % 2 else 'magnetic')


def two(rng, mon, size):
    sources(rng, mon, size, 2, ('electric', 'in plane', 'magnetic')[size % 3])


def three(rng, mon, size):
    sources(rng, mon, size, 3, 'magnetic' if size % 4 == 3 else 'electric')


def ports(rng, mon, size):
    """What is measured at the ports of a device that is driven at one of them, the way users run it."""
    d = tuple(float(x) for x in np.round(rng.uniform(0.07, 0.085, 2), 3)) if rng.integers(2) else (0.08, 0.08)
    t = [int(rng.integers(9, 11)) for _ in range(2)]
    n = [int(rng.integers(22, 26)) + 2 * k for k in t]
    core, w = float(rng.uniform(5, 7)), int(rng.integers(4, 6))
    eps = np.full(n, float(rng.uniform(1, 2)))
    cx, cy = n[0] // 2 + int(rng.integers(-1, 2)), n[1] // 2 + int(rng.integers(-1, 2))
    arms = [0, 90, 180, 270]
    rng.shuffle(arms)
    arms = sorted(arms[:int(rng.integers(2, 5))])
    eps[cx - w // 2:cx - w // 2 + w, cy - w // 2:cy - w // 2 + w] = core
    x, y = (cx - w // 2 + w / 2) * d[0], (cy - w // 2 + w / 2) * d[1]
    port = {}
    for a in arms:
        across = slice(cy - w // 2, cy - w // 2 + w) if a % 180 == 0 else slice(cx - w // 2, cx - w // 2 + w)
        along = {0: slice(cx, None), 90: slice(cy, None), 180: slice(None, cx), 270: slice(None, cy)}[a]
        eps[(along, across) if a % 180 == 0 else (across, along)] = core
        px, py = {0: (n[0] * d[0], y), 90: (x, n[1] * d[1]), 180: (0, y), 270: (x, 0)}[a]
        port[f'{"pqrs"[len(port)]}0'] = Port(px, py, a, w * d[1 if a % 180 == 0 else 0])
    wavelength = float(rng.uniform(1.35, 1.6))
    f, g, k0 = pair(n, d, t, eps, wavelength)
    f.pml_sep = g.pml_sep = int(rng.integers(2, 4))
    f.port = g.port = port
    source = str(rng.choice(list(port)))
    factor = float(rng.choice([2.5, 3]))
    mon.case(True, n=str(n), d=str(d), arms=str(arms), source=source, wavelength=round(wavelength, 3), factor=factor)
    for steps in (700, 2100):  # (a resonance may take longer to build up)
        flux, _ = f.run_cw_port(steps, wavelength=wavelength, source_port=source, profile_size_factor=factor)
        mon.event('steps', steps)
        # every measurement but the first is at the time of the electric field, half a step after the source
        flux = np.array([np.asarray(x) for x in flux]) * np.exp(-1j * k0 * f.dt * (np.arange(steps + 1) - 0.5))[:, None, None]
        period = int(round(2 * np.pi / k0 / f.dt))
        got, before = flux[-3 * period:].mean(axis=0), flux[-6 * period:-3 * period].mean(axis=0)
        settled = np.abs(got - before).max() < 0.02 * np.abs(got).max()
        if settled:
            break
    if not mon.check(settled, 'the waves settle at the frequency of the source', got=got, before=before):
        return
    section = f.port_modes([(source, 0)], wavelength=wavelength, profile_size_factor=factor)[source]
    j = np.zeros((3,) + tuple(f.shape3), dtype=complex)
    m = j.copy()
    at = section.slice(f)
    j[at] = np.asarray(section.profile(0)).reshape(j[at].shape)
    m[at] = np.asarray(section.profile(0, use_h=True)).reshape(j[at].shape) * np.exp(-0.5j * k0 * f.dt)
    e = sla.spsolve(g.mat.tocsc(), (-1j * g.k0 * j - np.asarray(g.curl_fn(of_h=True)(m))).ravel()).reshape(j.shape)
    h = (np.asarray(g.curl_fn()(e)) + m) / (-1j * g.k0) * np.cos(k0 * f.dt / 2)  # the mean of two steps
    want = np.asarray(f.get_measure_fn(None, wavelength=wavelength, profile_size_factor=factor)((e, h)))
    mon.check(got.shape == want.shape == (2, len(port)), 'one pair of waves per port')
    mon.close(got, want, 0.08, 'waves at the ports', scale=np.abs(want).max())
    mon.event('ports observed', len(port))


SCENARIOS = [('lines', one, 24, 300), ('planes', two, 24, 300), ('volumes', three, 4, 40), ('ports', ports, 6, 30)]
