"""Sources are placed exactly where and as asked."""
import numpy as np

from harness.maxwell import field
from harness.props.c16 import ANGLES, VIEW, guides, modes_clear, wave
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Port
from simphox.parse import parse_source_port
from simphox.sim import SimGrid
from simphox.utils import gaussian_fn

RULE = ('crossings of guides in two and three dimensions with ports of every orientation, in any order; sources given as name, '
        'list, pair, tuple of weights and dictionaries with complex weights, judged entry by entry against the two sheets of mode '
        'profile they consist of; solved fields of sources in both directions; distinct by geometry, form and port')
ASSUMPTIONS = ['mode profiles are known up to their phase', 'fields follow exp(+i w t)',
               'a unidirectional source is two sheets of current, the outer one opposite and delayed by a cell, two cells outside of '
               'the plane of measurement']


def sheets(grid, section, port, mode, unidirectional):
    """The source of a port: sheets of the profile two (and three) cells outside of the plane of measurement."""
    axis, sign = ANGLES[port.a % 360]
    box = list(grid.slice(section.center, section.size, squeezed=False))
    plane = box[axis].start
    delay = -np.exp(-1j * section.io.betas[mode] * grid.spacing[axis])
    back = tuple(np.argsort(VIEW[axis]))
    out = np.zeros((3,) + tuple(grid.shape3), dtype=complex)
    for k, w in ((2, 1), (3, delay))[:2 if unidirectional else 1]:
        b = list(box)
        at = (plane + sign * k) % grid.shape[axis]
        b[axis] = slice(at, at + 1)
        if grid.ndim == 3:
            e = section.io.e(mode)
            for c, world in enumerate(VIEW[axis]):
                out[world][tuple(b)] += w * e[c].transpose(back)
        else:
            # the profile of the transverse field is that of the out-of-plane component
            e = np.zeros((1,) * 3) + section.io.modes[mode].reshape(-1, 1, 1)
            out[2][tuple(b)] += w * (e if axis == 1 else e.transpose(1, 0, 2))
    return out if grid.ndim == 3 else out[2].reshape(grid.shape)


def make(rng, size, ndim=None):
    ndim = ndim or (3 if size % 3 == 2 else 2)
    n, eps, port, d = guides(rng, ndim)
    kind = (FDFD, FDTD, SimGrid)[int(rng.integers(3))]
    wavelength = float(rng.uniform(1.2, 1.6))
    args = dict(pml=(0.4,) * ndim if rng.integers(2) else None, pml_sep=int(rng.integers(4, 6)))
    if kind is FDFD:
        args['wavelength'] = wavelength
    grid = kind(tuple(k * x for k, x in zip(n, d)), d, eps=eps, **args)
    grid.port = port
    return grid, wavelength, ({} if kind is FDFD and rng.integers(2) else dict(wavelength=wavelength))


def placement(rng, mon, size):
    grid, wavelength, given = make(rng, size)
    uni = bool(rng.integers(2))
    factor = 2 if grid.ndim == 3 else float(rng.choice([2.0, 3.0]))
    names = [str(p) for p in rng.permutation(list(grid.port))]
    count = 1 if grid.ndim == 3 else 2
    keys = [(p, int(m)) for p in names for m in range(count)]
    keys = [keys[i] for i in rng.permutation(len(keys))[:int(rng.integers(1, 4 if grid.ndim == 2 else 3))]]
    weights = {k: complex(w) if rng.integers(2) else float(abs(w)) for k, w in zip(keys, field(rng, (len(keys),)))}
    sections = grid.port_modes(keys, profile_size_factor=factor, wavelength=wavelength)
    if any(m >= len(sections[p].io.betas) for p, m in keys):
        mon.case(False, reason='no such mode')
        return
    mon.case(True, shape=str(grid.shape), kind=type(grid).__name__, keys=str(keys), angles=str([grid.port[p].a for p, _ in keys]), uni=uni)
    src = grid.port_source(dict(weights), profile_size_factor=factor, unidirectional=uni, **given)
    want = sum(w * sheets(grid, sections[p], grid.port[p], m, uni) for (p, m), w in weights.items())
    mon.close(src, want, 1e-9, 'source of ports', scale=np.abs(want).max())
    for p, m in keys:
        section, port = sections[p], grid.port[p]
        # the plane of measurement lies at the port, or as close to it as the absorbing layers allow
        thick = [0.0 if grid.pml_shape is None else float(grid.pml_shape[i] + grid.pml_sep) * grid.spacing[i] for i in (0, 1)]
        at = [min(max(c, t), s - h - t) for c, t, s, h in zip(port.xyz, thick, grid.size, grid.spacing)] + [port.z]
        mon.close(np.array(section.center, dtype=float), np.array(at), 1e-9, 'place of the measurement')
        mon.close(np.array(section.size, dtype=float), np.array(port.size) * factor, 1e-9, 'extent of the measurement')
        mon.event('sheets placed', 1 + uni)
    one = keys[0]
    zero = {k: (weights[k] if k == one else 0) for k in keys}
    alone = grid.port_source(zero, profile_size_factor=factor, unidirectional=uni, **given)
    want = weights[one] * sheets(grid, sections[one[0]], grid.port[one[0]], one[1], uni)
    mon.close(alone, want, 1e-9, 'ports of weight zero do not contribute', scale=np.abs(want).max())
    if grid.ndim == 3:
        # the source excites the wave that enters the device: it does work on its electric field
        p, m = one
        e, h, _ = wave(grid, sections[p], grid.port[p], m, True)[1]
        axis, sign = ANGLES[grid.port[p].a % 360]
        near = np.roll(grid.port_source({k: float(k == one) for k in keys}, profile_size_factor=factor, unidirectional=False, **given),
                       -2 * sign, 1 + axis)
        t = [i for i in range(3) if i != axis]
        overlap = abs(np.vdot(e[t], near[t])) / np.linalg.norm(e[t]) / np.linalg.norm(near[t])
        mon.close(overlap, 1, 1e-6, 'the source has the electric field of the wave')


def sections(rng, mon, size):
    """Cross sections normal to each axis of a three-dimensional grid: their fields in the axes of the grid."""
    axis = size % 3
    n = [int(k) for k in rng.integers(8, 13, 3)]
    d = tuple(float(x) for x in rng.uniform(0.08, 0.12, 3))
    eps = np.full(n, float(rng.uniform(1, 2)))
    core = [slice(2, k - 3) for k in n]
    core[axis] = slice(None)
    eps[tuple(core)] = float(rng.uniform(8, 12))
    grid = (FDFD, FDTD, SimGrid)[int(rng.integers(3))](tuple(k * x for k, x in zip(n, d)), d, eps=eps)
    wavelength = float(rng.uniform(1.0, 1.3))
    center, extent, box = [], [], []
    for i, (k, x) in enumerate(zip(n, d)):
        if i == axis:
            at = int(rng.integers(1, k - 1))
            center.append((at + 0.25) * x)
            extent.append(0.0)
            box.append(slice(at, at + 1))
        else:
            width = 2 * int(rng.integers(3, (k + 1) // 2))
            at = 2 * int(rng.integers(k - width + 1)) // 2
            center.append((at + width // 2 + 0.01) * x)
            extent.append((width + 0.02) * x)
            box.append(slice(at, at + width))
    center, extent = tuple(center), tuple(extent)
    m = int(rng.integers(1, 3))
    section = grid.modes(center, extent, wavelength=wavelength, num_modes=m)
    m = len(section.io.betas)
    mon.case(True, axis=axis, shape=str(n), modes=m, kind=type(grid).__name__)
    mon.check(int(section.prop_axis) == axis, 'axis of propagation', got=int(section.prop_axis), want=axis)
    got = grid.slice(center, extent, squeezed=False)
    if not mon.check(list(got) == box, 'region of the cross section', got=got, want=box):
        return
    sub = eps[tuple(box)].transpose(VIEW[axis]).squeeze()
    mon.close(np.asarray(section.io.eps), sub, 0, 'permittivity of the cross section')
    mon.close(np.asarray(section.io.solver.spacing), np.array(d)[list(VIEW[axis][:2])], 0, 'spacing of the cross section')
    back = tuple(np.argsort(VIEW[axis]))
    for i in range(m):
        e, h = section.io.e(i), section.io.h(i)
        want = np.zeros((3,) + tuple(n), dtype=complex)
        for c, world in enumerate(VIEW[axis]):
            want[(world,) + tuple(box)] = e[c].transpose(back)
        mon.close(section.place(i, grid), want, 1e-12, 'mode in the grid', scale=np.abs(e).max())
        for use_h, f in ((False, e), (True, h)):
            p = section.profile(i, use_h=use_h)
            w = np.stack([f[VIEW[axis].index(world)].transpose(back) for world in range(3)])
            if mon.check(p.shape == w.shape, 'shape of the oriented profile', got=p.shape, want=w.shape):
                # the direction of the wave, and with it the signs, is up to the profile
                for a, b in zip(p, w):
                    mon.close(a * np.sign(np.vdot(a, b).real), b, 1e-9, 'components of the oriented profile', scale=np.abs(f).max())
        mon.event('profiles')


def forms(rng, mon, size):
    """Different ways to give the same source."""
    grid, wavelength, given = make(rng, size, 3 if size % 5 == 4 else 2)
    ports = list(grid.port)
    p = str(rng.choice(ports))
    weight = complex(field(rng, ())) if rng.integers(2) else float(rng.uniform(0.2, 3))
    factor = dict(profile_size_factor=2)
    mon.case(True, ports=str(ports), port=p, kind=type(grid).__name__)

    def equal(forms, what, want=None):
        arrays = [grid.port_source(f, **factor, **given) for f in forms]
        first = arrays[0]
        mon.check(np.abs(first).max() > 0, f'{what}: not empty')
        for a in arrays[1:]:
            mon.check(a.shape == first.shape, f'{what}: shape')
            mon.close(a, first, 1e-12, what)
            mon.event('forms compared')
        return first

    a = equal([p, [p], [(p, 0)], {p: 1}, {(p, 0): 1}], 'one port')
    b = equal([{p: weight}, {(p, 0): weight}], 'one port with a weight')
    mon.close(b, weight * a, 1e-12, 'weight of a port')
    mon.close(grid.port_source(None, **factor, **given), grid.port_source(ports[0], **factor, **given), 1e-12, 'default is the first port')
    some = [str(q) for q in rng.permutation(ports)[:int(rng.integers(2, len(ports) + 1))]]
    equal([some, [(q, 0) for q in some], {q: 1 for q in some}, {(q, 0): 1 for q in some}], 'several ports')
    w = [complex(x) for x in field(rng, (len(ports),))]
    w = w[:int(rng.integers(1, len(ports) + 1))]
    equal([tuple(w), dict(zip(ports, w)), {(q, 0): x for q, x in reversed(list(zip(ports, w)))}], 'weights in the order of ports')
    total = sum(x * grid.port_source(q, **factor, **given) for q, x in zip(ports, w))
    mon.close(grid.port_source(tuple(w), **factor, **given), total, 1e-9, 'sources add up', scale=np.abs(total).max())
    if grid.ndim == 2:
        # a second mode next to the first one of another port
        q = ports[(ports.index(p) + 1) % len(ports)]
        mixed = grid.port_source({p: 2, (q, 0): -1}, **factor, **given)
        mon.close(mixed, 2 * grid.port_source(p, **factor, **given) - grid.port_source(q, **factor, **given), 1e-9, 'mixed keys')
    m = int(rng.integers(4))
    mon.check(parse_source_port(p) == {(p, 0): 1}, 'a name')
    mon.check(parse_source_port((p, m)) == {(p, m): 1}, 'a pair')
    mon.check(parse_source_port([p, m]) == {(p, m): 1}, 'a pair as a list')
    pairs = [(str(q), int(rng.integers(3))) for q in some]
    mon.check(parse_source_port(pairs) == {k: 1 for k in pairs}, 'pairs')
    mon.check(parse_source_port([[q] if i % 2 else q for i, q in enumerate(some)]) == {(q, 0): 1 for q in some}, 'nested names')
    mon.check(list(parse_source_port({(q if m == 0 else (q, m)): weight for q, m in pairs}).items()) == [(k, weight) for k in pairs],
              'weights of pairs')


def directions(rng, mon, size):
    """Where the power of a source goes."""
    d = 0.05
    n, m = int(rng.integers(56, 66)), int(rng.integers(44, 52))
    k = int(rng.integers(6, 9))
    core, clad = float(rng.uniform(4, 8)), float(rng.uniform(1, 2.2))
    eps = np.full((n, m), clad)
    c = m // 2
    eps[:, c - k // 2:c - k // 2 + k] = core
    angle = (0, 90, 180, 270)[size % 4]
    shape = (n * d, m * d)
    ends = {0: (n * d, c * d), 180: (0, c * d), 90: (c * d, n * d), 270: (c * d, 0)}
    if angle % 180:
        eps, shape = eps.T.copy(), shape[::-1]
    wavelength = float(rng.uniform(1.3, 1.6))
    tm = bool(rng.integers(2))
    sep = int(rng.integers(8, 12))
    f = FDFD(shape, d, wavelength=wavelength, eps=eps, pml=(0.5, 0.5), pml_sep=sep)
    f.port = {'p': Port(*ends[angle], angle, k * d)}
    if not modes_clear(f, f.port, wavelength, 1):
        mon.case(False, reason='no clear mode')
        return
    section = f.port_modes(profile_size_factor=3)['p']
    mon.case(True, angle=angle, shape=str(eps.shape), tm=tm)
    axis, sign = ANGLES[angle]
    plane = f.slice(section.center, section.size, squeezed=False)[axis].start
    profile = section.io.modes[0]
    box = f.slice(section.center, section.size, squeezed=False)
    amp = {}
    for uni in (True, False):
        e, h = f.solve(f.port_source('p', unidirectional=uni), tm_2d=tm)
        z = (h if tm else e)[2]
        line = []
        for at in (plane + sign * 6, plane - sign * 6):
            b = list(box)
            b[axis] = slice(at, at + 1)
            line.append(abs(np.vdot(profile.ravel(), z[tuple(b)].ravel())))
        amp[uni] = line
        mon.event('directions seen', 2)
    out, into = amp[True]
    mon.small(out / into, 0.2, 'a unidirectional source sends its wave into the device')
    out, into = amp[False]
    mon.close(out / into, 1, 0.2, 'a bidirectional source sends its wave both ways')
    phase = abs(1 - np.exp(-2j * section.io.betas[0] * d))
    mon.close(amp[True][1] / amp[False][1], phase, 0.25 * phase, 'strength of a unidirectional source')


def responses(rng, mon, size):
    """Fields add up like their sources."""
    ndim = 3 if size % 8 == 7 else 2
    n, eps, port, d = guides(rng, ndim, True)
    if ndim == 3:
        n = [18, 18, 10]
        eps = np.full(n, 2.0)
        eps[6:12, :, 3:7] = 8
        eps[:, 6:12, 3:7] = 8
        port = {'u': Port(0, 0.9, 180, 0.4, 0.5, 0.3), 'v': Port(0.9, 1.8, 90, 0.4, 0.5, 0.3)}
    f = FDFD(tuple(k * x for k, x in zip(n, d)), d, eps=eps, wavelength=1.5, pml=None if ndim == 3 else (0.4, 0.4), pml_sep=4)
    f.port = port
    ports = list(port)
    w = [complex(x) for x in field(rng, (len(ports),))]
    mon.case(True, shape=str(n), ports=str(ports))
    tm = ndim == 3 or bool(rng.integers(2))
    args = dict(profile_size_factor=2, unidirectional=bool(rng.integers(2)))
    both = f.solve(f.port_source(dict(zip(ports, w)), **args), tm_2d=tm)
    parts = sum(x * f.solve(f.port_source(q, **args), tm_2d=tm) for q, x in zip(ports, w))
    mon.close(both, parts, 1e-6, 'fields of several ports', scale=np.abs(parts).max())
    measure = f.get_measure_fn(profile_size_factor=2, tm_2d=tm)
    got = measure(f.solve(f.port_source(tuple(w), **args), tm_2d=tm))
    want = measure(parts)
    mon.close(got, want, 1e-6, 'measurements of several ports', scale=np.abs(want).max())
    mon.event('responses compared')


def time_domain(rng, mon, size):
    """A harmonic run is the same however its source is written, and several ports add up."""
    n, eps, port, d = guides(rng, 2)
    f = FDTD(tuple(k * x for k, x in zip(n, d)), d, eps=eps, pml=(0.4, 0.4), pml_sep=2, use_jax=bool(size % 4 == 3))
    f.port = port
    names = [str(p) for p in rng.permutation(list(port))]
    p = names[0]
    wavelength = float(rng.uniform(1.2, 1.6))
    mon.case(True, port=p, names=str(names))

    def run(source, steps=4):
        flux, state = f.run_cw_port(steps, wavelength=wavelength, source_port=source)
        return np.stack([np.asarray(s) for s in state[:2]])
    ref = run(p)
    scale = np.abs(ref).max()
    mon.check(scale > 0, 'a run has a source')
    for form in ([p], [(p, 0)], {p: 1}, {(p, 0): 1}):
        mon.close(run(form), ref, 1e-7, 'forms of the source of a run', scale=scale)
        mon.event('forms compared')
    some = names[:2]
    total = sum(run(q) for q in some)
    mon.close(run(some), total, 1e-6, 'sources of a run add up', scale=np.abs(total).max())
    # the wave starts at the port
    section = f.port_modes([p], wavelength=wavelength)[p]
    region = f.slice(section.center, section.size, squeezed=False)
    first = run(p, 1)
    inside = first[(slice(None), slice(None)) + region]
    mon.check(np.abs(inside).max() > 0.1 * np.abs(first).max(), 'a run starts at its port')
    rest = first.copy()
    reach = [np.arange(r.start - 3, min(r.stop, k) + 3) % k for r, k in zip(region[:2], n)]
    rest[(slice(None), slice(None)) + np.ix_(*reach)] = 0
    mon.check(not rest.any(), 'no field away from the port after a step')


def safe(rng, mon, size):
    """Ports are kept out of absorbing layers and stay where they are otherwise."""
    ndim = 2 + size % 2
    n = [int(rng.integers(30, 60)) for _ in range(ndim)]
    h = [float(x) for x in rng.uniform(0.05, 0.2, ndim)]
    layer = [int(rng.integers(4, 8)) for _ in range(ndim)]
    sep = int(rng.integers(1, 6))
    pml = tuple((k + 0.01) * x for k, x in zip(layer, h)) if rng.integers(4) else None
    grid = SimGrid(tuple(a * b for a, b in zip(n, h)), h, pml=pml, pml_sep=sep)
    mon.case(True, shape=str(n), layer=str(layer if pml else None), sep=sep)
    for _ in range(10):
        p = [float(rng.uniform(-0.1, 1.1)) * s for s in grid.size] + [0.0] * (3 - ndim)
        got = grid.pml_safe_placement(tuple(p))
        for i in (0, 1):
            t = (layer[i] + sep) * h[i] if pml else 0.0
            lo, hi = t, n[i] * h[i] - h[i] - t
            want = min(max(p[i], lo), hi) if pml else got[i]
            mon.close(got[i], want, 1e-9, 'place of a port')
            if pml:
                mon.check(got[i] >= layer[i] * h[i] and got[i] <= (n[i] - layer[i]) * h[i], 'out of the absorbing layers')
            mon.check(0 <= round(got[i] / h[i]) < n[i], 'inside of the grid')
        mon.check(got[2] == p[2], 'the height of a port stays')
        mon.event('places')


def pulses(rng, mon, size):
    """A pulse: a carrier (of a frequency that drifts as asked) under an envelope around its centre, nothing until it starts."""
    wavelength, width = float(rng.uniform(0.4, 2)), float(rng.uniform(0.3, 6))
    start, factor, chirp = float(rng.choice([0, rng.uniform(-5, 20)])), float(rng.uniform(1, 8)), float(rng.choice([0, rng.normal()]))
    mon.case(True, wavelength=wavelength, width=width, start=start, chirp=chirp)
    args = dict(start_time=start, center_time_factor=factor, linear_chirp=chirp)
    f = gaussian_fn(wavelength, pulse_width=width, **args)
    centre = start + factor * width
    mon.close(f(centre), 1, 1e-9, 'the middle of a pulse')
    t = rng.uniform(0, 1, 12) * min(factor * width, 2 * np.sqrt(width))
    late, early = (np.array([f(x) for x in centre + s * t]) for s in (1, -1))
    mon.close(abs(late), abs(early), 1e-9, 'a pulse rises as it falls')
    order = np.argsort(t)
    mon.check(np.all(np.diff(abs(late)[order]) <= 1e-12), 'a pulse falls after its middle')
    mon.close(late / abs(late), np.exp(1j * (2 * np.pi / wavelength * t + chirp * t ** 2)), 1e-7, 'the carrier of a pulse')
    mon.close(early / abs(early), np.exp(1j * (-2 * np.pi / wavelength * t + chirp * t ** 2)), 1e-7, 'the carrier of a pulse')
    before = [f(x) for x in start - rng.uniform(0, 10, 5)]
    mon.check(not np.any(before), 'nothing before the start')
    g = gaussian_fn(wavelength, fwidth=2 * np.pi / width, **args)
    at = [start - 1, centre, *(centre + t), *(centre - t)]
    mon.close([g(x) for x in at], [f(x) for x in at], 1e-9, 'width in time and in frequency')
    wider = gaussian_fn(wavelength, pulse_width=2 * width, **args)
    mon.check(all(abs(wider(start + 2 * factor * width + x)) >= abs(f(centre + x)) - 1e-12 for x in t), 'wider pulses last longer')
    mon.raises(ValueError, lambda: gaussian_fn(wavelength), 'a pulse without width')
    mon.event('pulses')


SCENARIOS = [('sections', sections, 36, 600), ('placement', placement, 60, 500), ('forms', forms, 40, 300), ('directions', directions, 16, 120),
             ('responses', responses, 16, 100), ('time domain', time_domain, 12, 80), ('safe', safe, 40, 200),
             ('pulses', pulses, 30, 300)]
