"""Absorbing boundaries absorb outgoing waves."""
import jax.numpy as jnp
import numpy as np

from harness.maxwell import field, layer
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD

RULE = ('plane waves against the exact solution of the difference equations; point sources, pulses and scatterers near every side '
        'in one to three dimensions against a larger domain; power given off by random sources in random structures; distinct by '
        'geometry; non-trivial: the wave reaches a layer during the observation')
ASSUMPTIONS = ['layers of at least half a wavelength that absorb all but a hundredth of the wave by design',
               'structures continue through the layers unchanged',
               'frequency-domain layers reflect up to about 0.7 d of the amplitude (d: cell size in units of length): the layers of the '
               'electric and magnetic fields start half a cell apart there, which the repository\'s own tests fix']


def component(f, out, tm):
    return np.asarray(out)[1 if tm else 0][2]


def plane(rng, mon, size):
    """Waves of a point source on a line are exactly exponential; what comes back is read off exactly."""
    d = float(rng.uniform(0.03, 0.12))
    index = float(rng.uniform(1, 2))
    thick = float(rng.uniform(0.5, 1.2))
    wavelength = float(rng.uniform(1.0, 2.0))
    t = max(4, int(round(thick / d)))
    inner = int(rng.integers(20, 60))
    n = inner + 2 * t
    tm = bool(rng.integers(2))
    f = FDFD((n * d,), d, wavelength=wavelength, eps=index ** 2, pml=(layer(rng, t, d),))
    src = int(rng.integers(t + 5, n - t - 5))
    s = np.zeros(n, dtype=complex)
    s[src] = complex(field(rng, ()))
    mon.case(True, cells=n, thick=t, d=round(d, 3), src=src, tm=tm)
    use_jax = bool(rng.integers(2))
    out = f.get_fields_fn(s, tm_2d=tm)(jnp.array(f.eps)) if use_jax else f.solve(s, tm_2d=tm)
    z = component(f, out, tm).ravel()
    kappa = 2 * np.arcsin(f.k0 * index * d / 2)  # of the difference equation
    strength = max(np.exp(-16 * index * t * d), 0)
    for side, i in (('upper', np.arange(src, n - t - 1)), ('lower', np.arange(src, t, -1))):
        x = np.abs(i - src)
        m = np.stack([np.exp(-1j * kappa * x), np.exp(1j * kappa * x)], 1)
        (out_, back), *_ = np.linalg.lstsq(m, z[i], rcond=None)
        mon.small(np.linalg.norm(m @ (out_, back) - z[i]) / np.linalg.norm(z[i]), 1e-6, 'plane waves between the layers')
        mon.small(abs(back / out_), d + 2 * strength + 0.01, f'reflection of the {side} layer')
        mon.event('waves absorbed')


def outgoing(rng, mon, size):
    """A source between layers radiates as it does in a larger domain."""
    ndim = 2
    d = float(rng.choice([0.1, 0.06]))
    t, w, pad = int(0.7 / d), int(1.6 / d), int(0.8 / d)
    t2 = [t + int(rng.integers(0, 4)) for _ in range(2)]
    inner = [w + int(rng.integers(0, 6)) for _ in range(2)]
    wavelength = float(rng.uniform(1.2, 1.8))
    tm = bool(rng.integers(2))
    side = size % 5  # the side whose layer is replaced by more space; 4: all of them
    more = [[0, 0], [0, 0]]
    for s in range(4):
        if side in (s, 4):
            more[s // 2][s % 2] = pad
    big = [inner[i] + 2 * t2[i] + sum(more[i]) for i in range(2)]
    eps = np.full(big, float(rng.uniform(1, 2.5)))
    # a layered structure that continues through the layers, and a scatterer
    if rng.integers(2):
        ax = int(rng.integers(2))
        sl = [slice(None)] * 2
        c = more[ax][0] + t2[ax] + inner[ax] // 2
        sl[ax] = slice(c - 2, c + 3)
        eps[tuple(sl)] = float(rng.uniform(3, 7))
    c = [more[i][0] + t2[i] + int(rng.integers(3, inner[i] - 6)) for i in range(2)]
    eps[c[0]:c[0] + 4, c[1]:c[1] + 4] = float(rng.uniform(1, 9))
    cut = tuple(slice(more[i][0], big[i] - more[i][1]) for i in range(2))
    pml = tuple(layer(rng, k, d) for k in t2)
    a = FDFD(tuple(k * d for k in big), d, wavelength=wavelength, eps=eps, pml=pml)
    small = eps[cut].copy()
    b = FDFD(tuple(k * d for k in small.shape), d, wavelength=wavelength, eps=small, pml=pml)
    at = [t2[i] + int(rng.integers(3, inner[i] - 3)) for i in range(2)]
    if side < 4 and rng.integers(2):  # close to the layer
        at[side // 2] = t2[side // 2] + 3 if side % 2 == 0 else small.shape[side // 2] - t2[side // 2] - 4
    s = np.zeros(small.shape, dtype=complex)
    s[tuple(at)] = 1
    s2 = np.zeros(big, dtype=complex)
    s2[cut] = s
    mon.case(True, shape=str(small.shape), side=side, at=str(at), tm=tm, d=d)
    use_jax = bool(rng.integers(2))
    want = component(a, a.solve(s2, tm_2d=tm), tm).reshape(big)[cut]
    got = component(b, b.get_fields_fn(s, tm_2d=tm)(jnp.array(small)) if use_jax else b.solve(s, tm_2d=tm), tm).reshape(small.shape)
    window = tuple(slice(k, -k) for k in t2)
    far = np.hypot(*np.meshgrid(*[np.arange(k) - p for k, p in zip(small.shape, at)], indexing='ij')) * d > 0.25
    x, y = got[window][far[window]], want[window][far[window]]
    mon.small(np.linalg.norm(x - y) / np.linalg.norm(y), 0.04 + 1.5 * d, 'field of a source equals the one in a larger domain')
    # beyond the layer nothing is left
    edge = max(np.abs(got[0]).max(), np.abs(got[-1]).max(), np.abs(got[:, 0]).max(), np.abs(got[:, -1]).max())
    mon.small(edge / np.abs(got[window]).max(), 0.12, 'waves have died out at the end of the layer')
    mon.event('fields compared')


def power(rng, mon, size):
    """Sources between absorbing layers do work, whatever the source and the (passive) structure."""
    ndim = (1, 2, 2, 3)[size % 4]
    lo = {1: 6, 2: 8, 3: 4}[ndim]
    d = float(rng.uniform(0.05, 0.12))
    t = [int(rng.integers(max(4, lo), lo + 4)) for _ in range(ndim)]
    inner = [int(rng.integers(7, 20 if ndim < 3 else 10)) for _ in range(ndim)]
    shape = tuple(2 * a + b for a, b in zip(t, inner))
    eps = np.full(shape, float(rng.uniform(1, 4)))
    box = tuple(slice(a + 1, a + b - 1) for a, b in zip(t, inner))
    eps[box] = rng.uniform(1, 10, eps[box].shape)
    f = FDFD(tuple(k * d for k in shape), d, wavelength=float(rng.uniform(1, 2)), eps=eps, pml=tuple(layer(rng, k, d) for k in t))
    tm = ndim < 3 and bool(rng.integers(2))
    full = (3,) + shape if ndim == 3 else shape
    s = np.zeros(full, dtype=complex)
    inside = tuple(slice(a + 2, a + b - 2) for a, b in zip(t, inner))
    sel = (slice(None),) + inside if ndim == 3 else inside
    if size % 8 < 4:
        s[sel] = field(rng, s[sel].shape)
    else:
        spots = np.argwhere(np.ones(s[sel].shape))
        s[sel][tuple(spots[int(rng.integers(len(spots)))])] = 1
    mon.case(True, shape=str(shape), tm=tm)
    out = f.solve(s) if ndim == 3 else f.solve(s, tm_2d=tm)
    z = out[0] if ndim == 3 else component(f, out, tm).reshape(shape)
    # with exp(+i w t) a wave leaving a source lags behind, so that Im(s* z) < 0
    work = -np.imag(np.vdot(s, z))
    scale = np.linalg.norm(s) * np.linalg.norm(z)
    mon.check(work > -1e-3 * scale, 'absorbing layers do not add power', got=work / scale)
    mon.event('powers')


def pulses(rng, mon, size):
    """A pulse leaves through the layers as it leaves a window of a larger domain."""
    ndim = (1, 2, 2, 3)[size % 4]
    d = float(rng.uniform(0.04, 0.08))
    t = [int(rng.integers(8, 13)) if ndim < 3 else int(rng.integers(6, 8)) for _ in range(ndim)]
    inner = [int(rng.integers(14, 24)) if ndim < 3 else int(rng.integers(8, 11)) for _ in range(ndim)]
    pad = {1: 120, 2: 30, 3: 11}[ndim]
    side = size // 4 % (2 * ndim + 1)
    more = [[pad if side in (2 * i, 2 * ndim) else 0, pad if side in (2 * i + 1, 2 * ndim) else 0] for i in range(ndim)]
    big = tuple(inner[i] + 2 * t[i] + sum(more[i]) for i in range(ndim))
    index2 = float(rng.uniform(1, 4))
    eps = np.full(big, index2)
    if ndim > 1 and rng.integers(2):  # a guide through the layers
        ax = int(rng.integers(ndim))
        sl = [slice(None)] * ndim
        c = more[ax][0] + t[ax] + inner[ax] // 2
        sl[ax] = slice(c - 2, c + 2)
        eps[tuple(sl)] = index2 * float(rng.uniform(1, 2))
    cut = tuple(slice(more[i][0], big[i] - more[i][1]) for i in range(ndim))
    pml = tuple(layer(rng, k, d) for k in t)
    use_jax = size % 6 == 5
    a = FDTD(tuple(k * d for k in big), d, eps=eps, pml=pml, use_jax=use_jax)
    small = eps[cut].copy()
    b = FDTD(tuple(k * d for k in small.shape), d, eps=small, pml=pml, use_jax=use_jax)
    width = float(rng.uniform(2.5, 4))
    at = [t[i] + inner[i] / 2 + float(rng.uniform(-2, 2)) for i in range(ndim)]
    e = np.zeros(b.field_shape, dtype=complex)
    grids = np.meshgrid(*[np.arange(k) - p for k, p in zip(small.shape, at)], indexing='ij')
    shape = np.exp(-sum(g ** 2 for g in grids) / width ** 2).reshape(small.shape + (1,) * (3 - ndim))
    use_h = bool(rng.integers(2))
    comp = (2, 1)[int(rng.integers(2))] if ndim == 1 else (2 if ndim == 2 else int(rng.integers(3)))
    e[comp] = shape
    e[np.abs(e) < 1e-12] = 0
    whole = (slice(None),) + cut + (slice(None),) * (3 - ndim)
    e2 = np.zeros(a.field_shape, dtype=complex)
    e2[whole] = e
    make = (lambda x: jnp.array(x)) if use_jax else (lambda x: x)

    def start(f, x):
        z = f.zero_state
        return (z[0], make(x)) + tuple(z[2:]) if use_h else (make(x), z[1]) + tuple(z[2:])
    sa, sb = start(a, e2), start(b, e)
    # until waves that turn around behind the window of the larger domain could be back
    steps = int(2 * (pad + min(t)) * np.sqrt(index2) * d / b.dt * 0.9)
    cap = {1: 800, 2: 160, 3: 60}[ndim]
    steps = min(steps, cap) if not use_jax else min(steps, 60)
    mon.case(True, shape=str(small.shape), side=side, steps=steps, jax=use_jax, field='h' if use_h else 'e', comp=comp)
    window = (slice(None),) + tuple(slice(k, -k) for k in t) + (slice(None),) * (3 - ndim)
    scale, worst, left = 0, 0, None
    for i in range(steps):
        sa, sb = a.step(sa, []), b.step(sb, [])
        x, y = (np.stack([np.asarray(s[0]), np.asarray(s[1])]) for s in (sb, sa))
        y = y[(slice(None),) + whole]
        inside = (slice(None),) + window
        scale = max(scale, np.linalg.norm(y[inside]))
        worst = max(worst, np.linalg.norm(x[inside] - y[inside]))
        mon.event('steps')
    # fields that do not propagate (divergence of the initial field) stay in both
    mon.small(worst / scale, 0.12 if ndim == 3 else 0.03, 'pulse leaves as from a window of a larger domain', shape=str(small.shape), side=side)


def quiet(rng, mon, size):
    """After a pulse has left, nothing is left."""
    ndim = 1 + size % 2
    d = float(rng.uniform(0.03, 0.07))
    t, inner = int(rng.integers(9, 14)), int(rng.integers(30, 50))
    shape = (inner + 2 * t,) * ndim
    index2 = float(rng.uniform(1, 4))
    f = FDTD(tuple(k * d for k in shape), d, eps=index2, pml=(layer(rng, t, d),) * ndim, use_jax=False)
    mon.case(True, shape=str(shape))
    c = [k / 2 + float(rng.uniform(-2, 2)) for k in shape]
    grids = np.meshgrid(*[np.arange(k) - p for k, p in zip(shape, c)], indexing='ij')
    e = np.zeros(f.field_shape, dtype=complex)
    # a pulse with zero mean, since the mean of a two-dimensional pulse leaves slowly
    pulse = np.exp(-sum(g ** 2 for g in grids) / 16) * grids[0]
    e[2] = pulse.reshape(f.shape3)
    z = f.zero_state
    state = (e,) + tuple(z[1:])
    start = np.linalg.norm(e)
    last = np.inf
    steps = int((inner + 2 * t) * np.sqrt(index2) * d / f.dt * 1.5)
    for k in range(3):
        for _ in range(steps):
            state = f.step(state, [])
        now = np.sqrt(np.linalg.norm(state[0]) ** 2 + np.linalg.norm(state[1]) ** 2) / start
        mon.small(now, 0.015, 'what is left of a pulse')
        mon.check(now <= last * (1 + 1e-3) + 1e-4, 'what is left keeps leaving')
        last = now
        mon.event('steps', steps)


def along(rng, mon, size):
    """A wave along one axis meets the layers of that axis alone, however thick those of the other axes are."""
    ndim = 2 + (size % 4 == 3)
    ax = int(rng.integers(ndim))
    d = [float(x) for x in rng.uniform(0.05, 0.1, ndim)]
    n = [int(rng.integers(11, 20 if ndim == 2 else 13)) for _ in range(ndim)]
    n[ax] = int(rng.integers(30, 40 if ndim == 2 else 32))
    thick = [int(rng.integers(4, (k - 1) // 2)) for k in n]
    thick[ax] = int(rng.integers(4, 13))
    other = [int(rng.integers(4, (k - 1) // 2)) for k in n]
    other[ax] = thick[ax]
    line = np.full(n[ax], float(rng.uniform(1, 3)))
    line[thick[ax]:-thick[ax]] *= rng.uniform(1, 3, n[ax] - 2 * thick[ax])
    shape = tuple(-1 if i == ax else 1 for i in range(ndim))
    eps = np.ones(n) * line.reshape(shape)
    size_, first = tuple(a * b for a, b in zip(n, d)), tuple(layer(rng, t, x) for t, x in zip(thick, d))
    second = tuple(first[i] if i == ax else layer(rng, t, x) for i, (t, x) in enumerate(zip(other, d)))
    time = bool(rng.integers(2))
    mon.case(thick != other, shape=str(n), ax=ax, thick=str(thick), other=str(other), time=time)
    if time:
        use_jax = size % 5 == 4
        comp = int(rng.choice([i for i in range(3) if i != ax]))
        start = np.zeros((3,) + tuple(n) + (1,) * (3 - ndim), dtype=complex)
        start[comp] = (np.ones(n) * field(rng, (n[ax],)).reshape(shape)).reshape(start.shape[1:])
        ends = []
        for pml in (first, second):
            f = FDTD(size_, tuple(d), eps=eps, pml=pml, use_jax=use_jax)
            state = (jnp.array(start) if use_jax else start.copy(),) + tuple(f.zero_state[1:])
            for _ in range(30):
                state = f.step(state, [])
                mon.event('steps')
            ends.append(np.stack([np.asarray(s) for s in state[:2]]))
    else:
        wavelength = float(rng.uniform(1, 2))
        tm = bool(rng.integers(2))
        src = np.zeros(n, dtype=complex)
        at = int(rng.integers(thick[ax], n[ax] - thick[ax]))
        src[tuple(at if i == ax else slice(None) for i in range(ndim))] = complex(field(rng, ()))
        if ndim == 3:
            comp = int(rng.choice([i for i in range(3) if i != ax]))
            src = np.stack([src if i == comp else 0 * src for i in range(3)])
        use_jax = ndim == 2 and bool(rng.integers(2))
        ends = []
        for pml in (first, second):
            f = FDFD(size_, tuple(d), wavelength=wavelength, eps=eps, pml=pml)
            ends.append(np.asarray(f.get_fields_fn(src, tm_2d=tm)(jnp.array(eps)) if use_jax else f.solve(src, tm_2d=tm)))
            mon.event('fields compared')
    mon.close(ends[0], ends[1], 1e-7, 'a wave along an axis does not depend on the layers of others', scale=np.abs(ends[1]).max())
    spread = np.ptp(ends[0].real, axis=[2 + i for i in range(ndim) if i != ax][0])
    mon.small(np.abs(spread).max() / np.abs(ends[0]).max(), 1e-6, 'a wave along an axis stays the same across it')


SCENARIOS = [('plane', plane, 60, 800), ('outgoing', outgoing, 30, 300), ('power', power, 48, 400), ('pulses', pulses, 24, 240),
             ('quiet', quiet, 16, 160), ('along', along, 40, 500)]
