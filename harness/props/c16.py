"""Port measurements and S-parameters follow the requested ports."""
import json
import os
import subprocess
import sys

import jax.numpy as jnp
import numpy as np

from harness.maxwell import field
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Port
from simphox.mode import ModeLibrary, ModeSolver
from simphox.parse import parse_excitation
from simphox.sim import SimGrid
from simphox.utils import splitter_metrics

RULE = ('views of random regions; waves of one to three modes in both directions with complex amplitudes laid across ports of all '
        'orientations in two and three dimensions; orders, subsets, repetitions and spellings of the measured ports, also in '
        'processes with different hash seeds; straight guides, crossings and random scatterers, solved as they are and with '
        'their axes exchanged or reversed; distinct by geometry, ports and order; non-trivial: at least one wave is not zero')
ASSUMPTIONS = ['fields follow exp(+i w t), so that a wave exp(-i k x) travels towards positive x',
               'the modes of a one-dimensional section are those of the scalar model, so different tm modes overlap '
               'in strongly guiding structures', 'results of rotated devices agree up to the discretisation']
# world axes seen along a port normal to x, y, z, and the sign of the magnetic field when that view is a mirror image
VIEW = {0: (1, 2, 0), 1: (0, 2, 1), 2: (0, 1, 2)}
MIRROR = {0: 1, 1: -1, 2: 1}
ANGLES = {0: (0, 1), 180: (0, -1), 90: (1, 1), 270: (1, -1)}


def views(rng, mon, size):
    ndim = 1 + size % 3
    n = tuple(int(rng.integers(4, 9)) for _ in range(ndim))
    h = tuple(float(x) for x in rng.uniform(0.05, 0.2, ndim)) if rng.integers(2) else (0.1,) * ndim
    grid = SimGrid(tuple(a * b for a, b in zip(n, h)), h)
    axis = int(rng.integers(ndim))
    region, center, extent = [], [], []
    for i in range(3):
        if i >= ndim:
            region.append(slice(0, 1))
            center.append(0.0)
            extent.append(0.0)
        elif i == axis:
            k = int(rng.integers(n[i]))
            region.append(slice(k, k + 1))
            center.append(k * h[i])
            extent.append(0.0)
        else:
            k = int(rng.integers(1, n[i] // 2 + 1))
            c = int(rng.integers(k, n[i] - k + 1))
            region.append(slice(c - k, c + k))
            center.append(c * h[i])
            extent.append(2 * k * h[i])
    mon.case(True, shape=str(n), region=str(region))
    f = field(rng, (3,) + tuple(grid.shape3))
    axes = VIEW[axis]
    want = np.stack([f[a][tuple(region)] for a in axes])
    want = want.transpose((0,) + tuple(1 + a for a in axes))
    for use_jax in (False, True):
        view = grid.view_fn(center, extent, use_jax=use_jax)
        mon.close(np.asarray(view(jnp.array(f) if use_jax else f)), want, 1e-12, 'view of a region')
        flat = f.reshape(3, -1)
        mon.close(np.asarray(view(jnp.array(flat) if use_jax else flat)), want, 1e-12, 'view of flat fields')
    if ndim == 3:
        mon.raises(ValueError, lambda: grid.view_fn(center, tuple(2 * x for x in h)), 'a volume is not a port')
    mon.event('views', 4)


def guides(rng, ndim, even=False):
    """Guides along x and y with ports at their ends; the last tells which modes are worth looking at."""
    cells = lambda: int(rng.integers(26, 34))
    d = (0.1,) * ndim if even or rng.integers(2) else tuple(float(x) for x in rng.uniform(0.075, 0.1, ndim))
    n = [cells(), cells()] + ([int(rng.integers(12, 16))] if ndim == 3 else [])
    core, clad = float(rng.uniform(5, 12)), float(rng.uniform(1, 2.2))
    eps = np.full(n, clad)
    kx, ky, kz = int(rng.integers(5, 8)), int(rng.integers(8, 11)), 3
    cx, cy, cz = int(rng.integers(11, 15)), int(rng.integers(11, 15)), (n[2] // 2 if ndim == 3 else 0)
    z = (slice(cz - kz, cz + kz),) if ndim == 3 else ()
    eps[(slice(None), slice(cy - kx // 2, cy - kx // 2 + kx)) + z] = core
    eps[(slice(cx - ky // 2, cx - ky // 2 + ky), slice(None)) + z] = core
    hz = dict(z=cz * d[2], h=2 * kz * d[2]) if ndim == 3 else {}
    ends = {180: (0, cy * d[1]), 0: (n[0] * d[0], cy * d[1]), 270: (cx * d[0], 0), 90: (cx * d[0], n[1] * d[1])}
    port = {}
    for a in rng.permutation([0, 90, 180, 270]):
        x, y = ends[int(a)]
        turn = 360 * int(rng.integers(-1, 2))
        port['pqrs'[len(port)]] = Port(x, y, int(a) + turn, kx * d[1] if a % 180 == 0 else ky * d[0], **hz)
    return n, eps, port, d


def wave(grid, section, port, mode, tm):
    """Fields of the modes going out of and into the structure through a port, in the whole grid, from Maxwell's equations."""
    axis, sign = ANGLES[port.a % 360]
    e, h = section.io.e(mode, tm_2d=tm), section.io.h(mode, tm_2d=tm)
    region = grid.slice(section.center, section.size, squeezed=False)
    out = []
    for s in (sign, -sign):
        fe, fh = np.zeros((2, 3) + tuple(grid.shape3), dtype=complex)
        for k, w in enumerate(VIEW[axis]):
            back = tuple(np.argsort(VIEW[axis]))
            # reversing a mode flips its transverse magnetic and longitudinal electric field
            fe[w][region] = e[k].transpose(back) * (s if k == 2 else 1)
            fh[w][region] = h[k].transpose(back) * MIRROR[axis] * (1 if k == 2 else s)
        power = np.cross(fe.real, fh.real, axis=0) + np.cross(fe.imag, fh.imag, axis=0)
        out.append((fe, fh, float(np.sum(power[axis])) * sign))
    return out


def round_trip(rng, mon, size):
    ndim = 3 if size % 3 == 2 else 2
    n, eps, port, d = guides(rng, ndim)
    lossy = bool(rng.integers(4) == 0)
    clad = eps.min()
    if lossy:  # the cores absorb
        eps = np.where(eps > clad, eps * (1 - 1j * rng.uniform(0.02, 0.2)), clad + 0j)
    grid = SimGrid(tuple(k * x for k, x in zip(n, d)), d, eps=eps, pml_sep=2)
    grid.port = port
    wavelength = float(rng.uniform(1.2, 1.6))
    tm = ndim == 3 or bool(rng.integers(2))
    factor = 2 if ndim == 3 else float(rng.choice([2.0, 2.5]))
    k = 2 if ndim == 3 else int(rng.integers(1, 4))
    names = [str(p) for p in rng.permutation(list(port))[:int(rng.integers(1, 5 if ndim == 2 else 3))]]
    asked = [(p, m) for p in names for m in range(k)]
    asked = [asked[i] for i in rng.permutation(len(asked))]
    sections = grid.port_modes(asked, profile_size_factor=factor, wavelength=wavelength)
    asked = [(p, m) for p, m in asked if m < len(sections[p].io.betas) and np.real(sections[p].io.ns[m]) ** 2 > clad + 0.05]
    if not asked:
        mon.case(False, reason='no guided mode')
        return
    sections = grid.port_modes(asked, profile_size_factor=factor, wavelength=wavelength)
    mon.case(True, shape=str(n), asked=str(asked), tm=tm, lossy=lossy, angles=str([port[p].a for p in names]))
    for use_jax in (False, True):
        measure = grid.get_measure_fn(asked, wavelength=wavelength, profile_size_factor=factor, use_jax=use_jax, tm_2d=tm)
        waves = {}
        for i, (p, m) in enumerate(asked):
            waves[p, m] = wave(grid, sections[p], port[p], m, tm)
            for j, (e, h, power) in enumerate(waves[p, m]):
                # the oracle of directions is the flow of power through the port
                mon.check(power * (1, -1)[j] > 0, 'power of a wave flows as told')
                got = np.asarray(measure((jnp.array(e), jnp.array(h)) if use_jax else (e, h)))
                mon.check(got.shape == (2, len(asked)), 'one row for the outgoing and one for the incoming waves')
                mon.close(got[j, i], 1, 1e-3, 'overlap of a mode with itself')
                mon.small(abs(got[1 - j, i]), 1e-3, 'the opposite wave of a mode')
                for a, (q, l) in enumerate(asked):
                    if q == p and l != m:
                        split = abs(sections[p].io.ns[l] - sections[p].io.ns[m])
                        mon.small(abs(got[:, a]), 0.8 if ndim == 2 and tm else (0.15 if ndim == 2 or split > 0.05 else 1.1),
                                  'overlap of a mode with another one')
                    elif q != p and ANGLES[port[p].a % 360][0] == ANGLES[port[q].a % 360][0]:
                        mon.small(abs(got[:, a]), 1e-9, 'a wave at another port')
                mon.event('waves measured')
        # a superposition gives the sum of its parts
        amp = field(rng, (len(asked), 2))
        total = [sum(amp[i, j] * waves[key][j][c] for i, key in enumerate(asked) for j in (0, 1)) for c in (0, 1)]
        part = sum(amp[i, j] * np.asarray(measure(tuple(waves[key][j][:2]))) for i, key in enumerate(asked) for j in (0, 1))
        mon.close(np.asarray(measure(tuple(total))), part, 1e-6, 'measurements are linear', scale=np.abs(part).max())
        if k == 1 and not any(ANGLES[port[p].a % 360][0] != ANGLES[port[q].a % 360][0] for p in names for q in names):
            mon.close(np.asarray(measure(tuple(total))), amp.T, 5e-3, 'amplitudes of superposed waves')


def ordering(rng, mon, size):
    ndim = 3 if size % 4 == 3 else 2
    n, eps, port, d = guides(rng, ndim)
    kind = (SimGrid, FDFD, FDTD)[size % 3]
    own = kind is FDFD
    wavelength = float(rng.uniform(1.2, 1.6))
    args = dict(wavelength=wavelength) if own else {}
    grid = kind(tuple(k * x for k, x in zip(n, d)), d, eps=eps, pml_sep=2, **args)
    grid.port = port
    given = {} if own else dict(wavelength=wavelength)
    e, h = field(rng, (2, 3) + tuple(grid.shape3))
    mon.case(True, shape=str(n), kind=kind.__name__, ports=str([(p, q.a) for p, q in port.items()]))
    count = 2
    single = {}
    for p in port:
        for m in range(count):
            single[p, m] = np.asarray(grid.get_measure_fn([(p, m)], **given)((e, h)))[:, 0]
    scale = max(np.abs(v).max() for v in single.values())

    def same(asked, got, what):
        # the modes of a port are found again when more of them are asked for, so they are known up to their phase
        want = np.stack([single[k] for k in asked], axis=1)
        mon.check(got.shape == want.shape, f'{what}: shape') and mon.close(
            np.abs(got), np.abs(want), 2e-3, what, scale=scale)
        mon.close(got[0] * got[1].conj(), want[0] * want[1].conj(), 4e-3, f'{what}: phase between the waves', scale=scale ** 2)

    stable = modes_clear(grid, port, wavelength, count)
    default = np.asarray(grid.get_measure_fn(**given)((e, h)))
    if stable:
        same([(p, 0) for p in port], default, 'all ports in their order')
    for _ in range(4):
        some = [str(p) for p in rng.permutation(list(port))[:int(rng.integers(1, 5))]]
        if not stable:
            break
        form = int(rng.integers(5))
        if form == 0:
            asked, arg = [(p, 0) for p in some], some
        elif form == 1:
            asked = [(p, int(m)) for p in some for m in rng.permutation(count)[:int(rng.integers(1, 3))]]
            asked = [asked[i] for i in rng.permutation(len(asked))]
            arg = list(asked)
        elif form == 2:
            asked, arg = [(some[0], 0)], some[0]
        elif form == 3:
            arg = {p: [int(m) for m in rng.permutation(count)[:int(rng.integers(1, 3))]] for p in some}
            asked = [(p, m) for p in arg for m in arg[p]]
        else:
            asked = [(some[0], 1), (some[-1], 0), (some[0], 1)]
            arg = tuple(asked)
        use_jax = bool(rng.integers(2))
        got = np.asarray(grid.get_measure_fn(arg, use_jax=use_jax, **given)((e, h)))
        same(asked, got, ('names', 'pairs', 'one name', 'dictionary', 'repetitions')[form])
        mon.check(parse_excitation(arg) == asked, 'the ports asked for')
        mon.event('orders measured')
    # a port turned around exchanges the outgoing and the incoming wave
    p = str(rng.choice(list(port)))
    turned = dict(port)
    q = port[p]
    turned[p] = Port(q.x, q.y, q.a + 180, q.w, q.z, q.h)
    other = kind(tuple(k * x for k, x in zip(n, d)), d, eps=eps, pml_sep=2, **args)
    other.port = turned
    if stable:
        got = np.asarray(other.get_measure_fn([p], **given)((e, h)))[::-1]
        mon.close(np.abs(got[:, 0]), np.abs(single[p, 0]), 2e-3, 'port turned around', scale=scale)


def modes_clear(grid, port, wavelength, count):
    """Whether the leading modes of every port differ clearly, so that every solve finds the same ones in the same order."""
    for p, q in port.items():
        c, s = grid.pml_safe_placement(q.xyz), tuple(q.size * 3)
        part = grid.eps.reshape(grid.shape3)[grid.slice(c, s, squeezed=False)]
        h = grid.spacing3[np.array(part.shape) > 1]
        part = part.squeeze()
        solver = ModeSolver(tuple(np.array(part.shape) * h), h, eps=part, wavelength=wavelength)
        vals = np.sort(np.linalg.eigvals(solver.C.toarray()).real)[::-1] / solver.k0 ** 2
        if vals[count] < 0.05 or np.any(-np.diff(vals[:count + 1]) < 0.03):
            return False
    return True


CHILD = '''
import json, sys
import numpy as np
from simphox.fdfd import FDFD
from simphox.grid import Port
names = json.loads(sys.argv[1])
d, n = 0.1, 28
eps = np.full((n, n), 1.5)
eps[:, 11:17] = 8.0
eps[10:18] = 8.0
f = FDFD((n * d, n * d), d, wavelength=1.5, eps=eps, pml=(0.4, 0.4), pml_sep=1)
places = [(0, 1.4, 180, 0.6), (2.8, 1.4, 0, 0.6), (1.4, 0, 270, 0.8), (1.4, 2.8, 90, 0.8)]
f.port = {a: Port(*b) for a, b in zip(names, places)}
e, h = np.random.default_rng(0).normal(size=(2, 3, n, n, 1))
m = f.get_measure_fn()((e, h))
pairs = [(names[2], 1), (names[0], 0), (names[2], 0), (names[1], 1)]
s = f.get_measure_fn(pairs)((e, h))
src = f.port_source({names[0]: 1, names[2]: 2.0, (names[1], 1): -1.0})
u = f.sparams(names[0])
v = f.sparams(names[3], 0, [(names[3], 0), (names[1], 0), (names[0], 0)])
print(json.dumps([np.abs(x).ravel().tolist() for x in (m, s, src, u, v)]))
'''


def hash_seeds(rng, mon, size):
    """The iteration order of sets depends on the hash seed of the process; the results do not."""
    names = [''.join(chr(97 + int(c)) for c in rng.integers(0, 26, 4)) + str(i) for i in range(4)]
    seeds = [int(s) for s in rng.integers(1, 4000000, 2)] + [0]
    mon.case(True, names=str(names), seeds=str(seeds))
    out = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        run = subprocess.run([sys.executable, '-c', CHILD, json.dumps(names)], env=env, capture_output=True, text=True, timeout=300)
        if not mon.check(run.returncode == 0, 'process with another hash seed', error=run.stderr[-600:]):
            return
        out.append([np.array(x) for x in json.loads(run.stdout.strip().splitlines()[-1])])
        mon.event('processes')
    for other in out[1:]:
        for a, b, what in zip(out[0], other, ('measurements', 'measured pairs', 'source', 's-parameters', 's-parameters of some ports')):
            mon.close(b, a, 1e-3, f'{what} do not depend on the hash seed', scale=np.abs(a).max())


def scatterer(rng, d=0.1, plain=False, modes=1):
    """A guide along x, a branch towards y and random blocks near the crossing."""
    n, m = int(rng.integers(34, 42)), int(rng.integers(34, 42))
    core, clad = float(rng.uniform(4, 7)), float(rng.uniform(1, 2.2))
    k = 4 if modes == 1 else 12
    c, b = m // 2 + int(rng.integers(-1, 2)), n // 2 + int(rng.integers(-1, 2))
    eps = np.full((n, m), clad)
    eps[:, c - k // 2:c - k // 2 + k] = core
    port = {'in': Port(0, c * d, 180, k * d), 'out': Port(n * d, c * d, 0, k * d)}
    if not plain:
        eps[b - 2:b + 2, c:] = core
        port['up'] = Port(b * d, m * d, 90, 4 * d)
        for _ in range(3):
            x, y = int(rng.integers(b - 4, b + 3)), int(rng.integers(c - 4, c + 3))
            eps[x:x + 3, y:y + 3] = float(rng.uniform(1, 8))
    return (n, m), eps, port, d


def exchanged(p):
    """The port after the x and y axes have been exchanged."""
    return Port(p.y, p.x, {0: 90, 90: 0, 180: 270, 270: 180}[p.a % 360], p.w)


def devices(rng, mon, size):
    (n, m), eps, port, d = scatterer(rng)
    wavelength = float(rng.uniform(1.3, 1.7))
    thick = 0.8
    f = FDFD((n * d, m * d), d, wavelength=wavelength, eps=eps, pml=(thick, thick), pml_sep=2)
    g = FDFD((m * d, n * d), d, wavelength=wavelength, eps=eps.T.copy(), pml=(thick, thick), pml_sep=2)
    order = [str(p) for p in rng.permutation(list(port))]
    f.port = {p: port[p] for p in order}
    g.port = {p: exchanged(port[p]) for p in (order if rng.integers(2) else order[::-1])}
    if not (modes_clear(f, f.port, wavelength, 1)):
        mon.case(False, reason='no clear mode')
        return
    mon.case(True, shape=str((n, m)), order=str(order))
    info = [(p, 0) for p in rng.permutation(order)[:]]
    info = [(str(p), 0) for p, _ in info]
    full = {}
    for name in order:
        s = f.sparams(name)
        mon.check(len(s) == len(f.port), 'one S-parameter per port')
        full[name] = {p: s[i] for i, p in enumerate(f.port)}
        other = f.sparams(name, measure_info=info)
        mon.close(np.abs(other), np.abs([full[name][p] for p, _ in info]), 1e-6, 'S-parameters in the order asked for')
        t = g.sparams(name)
        mon.close(np.abs([t[list(g.port).index(p)] for p in order]), np.abs([full[name][p] for p in order]), 1e-4,
                  'S-parameters with exchanged axes')
        if rng.integers(2):
            some = bool(rng.integers(2))
            fn = f.get_sim_sparams_fn(name, measure_info=info) if some else f.get_sim_sparams_fn(name)
            got, fields = fn(jnp.array(eps))
            pick = [p for p, _ in info] if some else list(f.port)
            mon.close(np.abs(np.asarray(got)), np.abs([full[name][p] for p in pick]), 1e-4, 'S-parameters in jax')
            src = f.port_source({name: 1})
            got, fields = f.get_sim_fn(src)(jnp.array(eps))
            mon.close(np.abs(np.asarray(got)[0] / np.asarray(got)[1, list(f.port).index(name)]), np.abs([full[name][p] for p in f.port]), 1e-4,
                      'measurements of a simulation in jax')
        mon.small(max(0, np.sum(np.abs(list(full[name].values())) ** 2) - 1), 0.15, 'no more power leaves than enters')
        mon.event('s-parameters', len(s))
    for p in order:
        for q in order:
            a, b = abs(full[p][q]), abs(full[q][p])
            if p < q:
                mon.close(a, b, 0.3, 'devices are reciprocal')


def profile_sizes(rng, mon, size):
    """The windows in which the modes are solved are as many port widths across as asked for, for source and measurement alike."""
    (n, m), eps, port, d = scatterer(rng)
    wavelength = float(rng.uniform(1.3, 1.7))
    f = FDFD((n * d, m * d), d, wavelength=wavelength, eps=eps, pml=(0.8, 0.8), pml_sep=2)
    f.port = {str(p): port[str(p)] for p in rng.permutation(list(port))}
    name = str(rng.choice(list(port)))
    tm = bool(rng.integers(2))
    # (the measurement is that of the fundamental modes, whose windows are never narrower than the guide itself)
    factors = [float(v) for v in rng.choice([1.5, 2, 2.5, 3.5, 4, 5], 2, replace=False)]
    mon.case(True, shape=str((n, m)), factors=str(factors), tm=tm)
    sources = []
    for factor in factors:
        src = f.port_source({name: 1}, profile_size_factor=factor)
        want = f.solve(src, tm_2d=tm)
        out, into = f.get_measure_fn(profile_size_factor=factor, tm_2d=tm)(want)
        s, fields = f.get_sim_sparams_fn(name, profile_size_factor=factor, tm_2d=tm)(jnp.array(eps))
        mon.close(np.asarray(fields), want, 1e-6 * np.abs(want).max(), 'fields of a source of the size asked for')
        mon.close(np.asarray(s), out / into[list(f.port).index(name)], 1e-6, 'S-parameters with profiles of the size asked for')
        sources.append(np.asarray(src))
        mon.event('profile sizes')
    mon.check(np.abs(sources[0] - sources[1]).max() > 0, 'profiles of different sizes differ')


def straight(rng, mon, size):
    """A straight guide passes every mode on to the same mode of the opposite port."""
    modes = 2 if size % 3 == 2 else 1
    d = 0.05
    (n, m), eps, port, _ = scatterer(rng, d, plain=True, modes=modes)
    eps = np.repeat(np.repeat(eps, 1, 0), 1, 1)
    along = bool(rng.integers(2))
    shape = (n * d, m * d)
    port = {p: Port(q.x, q.y, q.a, q.w) for p, q in port.items()}
    wavelength = float(rng.uniform(0.7, 0.9))
    if along:
        eps, shape, port = eps.T.copy(), shape[::-1], {p: exchanged(q) for p, q in port.items()}
    f = FDFD(shape, d, wavelength=wavelength, eps=eps, pml=(0.4, 0.4), pml_sep=2)
    f.port = port
    sections = f.port_modes([('in', modes - 1)])
    guided = [i for i in range(modes) if sections['in'].io.ns[i] ** 2 > eps.min() + 0.5]
    if len(guided) < modes:
        mon.case(False, reason='not guided')
        return
    mon.case(True, shape=str(eps.shape), along=along, modes=modes)
    info = [(p, i) for p in ('in', 'out') for i in range(modes)]
    info = [info[i] for i in rng.permutation(len(info))]
    for p, q in (('in', 'out'), ('out', 'in')):
        for i in range(modes):
            s = dict(zip(info, np.abs(f.sparams(p, i, info))))
            beta = float(sections['in'].io.betas[i])
            loose = 0.05 + 0.4 * beta * d
            mon.close(s[q, i], 1, loose, 'transmission of a straight guide')
            mon.small(s[p, i], loose, 'reflection of a straight guide')
            for j in range(modes):
                if j != i:
                    mon.small(max(s[p, j], s[q, j]), 0.35, 'coupling of modes of a straight guide')
            mon.event('guides passed')


def straight_3d(rng, mon, size):
    d = 0.1
    n, m, l = 24, 15, 14
    k, q = 4, int(rng.integers(3, 5))
    along = size % 2
    core, clad = float(rng.uniform(5, 9)), float(rng.uniform(1, 2.1))
    eps = np.full((n, m, l), clad)
    eps[:, m // 2 - k // 2:m // 2 - k // 2 + k, l // 2 - q // 2:l // 2 - q // 2 + q] = core
    c, z = (m // 2) * d, (l // 2) * d
    port = {'b': Port(n * d, c, 0, k * d, z, q * d), 'a': Port(0, c, 180, k * d, z, q * d)}
    shape = (n * d, m * d, l * d)
    if along:
        eps, shape = eps.transpose(1, 0, 2).copy(), (m * d, n * d, l * d)
        port = {p: Port(v.y, v.x, {0: 90, 180: 270}[v.a], v.w, v.z, v.h) for p, v in port.items()}
    f = FDFD(shape, d, wavelength=1.55, eps=eps, pml=(0.4,) * 3, pml_sep=2)
    f.port = port
    name = 'ab'[int(rng.integers(2))]
    other = 'ba'['ab'.index(name)]
    library = f.port_modes(profile_size_factor=2)[name].io
    vals = np.sort(np.linalg.eigvals(library.solver.C.toarray()).real)[::-1] / library.solver.k0 ** 2
    if vals[0] < clad + 0.3 or vals[0] - vals[1] < 0.1:
        mon.case(False, reason='not a clear mode')
        return
    mon.case(True, along=along, core=core, clad=clad, source=name)
    fields = f.solve(f.port_source({name: 1}, profile_size_factor=2))
    out, into = f.get_measure_fn([name, other], profile_size_factor=2)(fields)
    mon.close(abs(out[1] / into[0]), 1, 0.2, 'transmission of a straight guide in 3d')
    mon.small(abs(into[1] / into[0]), 0.45, 'nothing comes from the other port in 3d')
    mon.small(abs(out[0] / into[0]), 0.6, 'reflection of a straight guide in 3d')
    mon.event('guides passed')


def scores(rng, mon, size):
    """Scores and labels of S-parameters."""
    n, eps, port, d = guides(rng, 2)
    f = FDFD(tuple(k * x for k, x in zip(n, d)), d, eps=eps, wavelength=1.5)
    f.port = port
    info = [(p, m) for p in port for m in range(2)] if size % 2 else [(p, 0) for p in port]
    info = [info[i] for i in rng.permutation(len(info))]
    s = field(rng, (len(info),)) * 0.5
    chosen = [info[i] for i in rng.permutation(len(info))[:int(rng.integers(1, len(info) + 1))]]
    want = {k: complex(x) for k, x in zip(chosen, field(rng, (len(chosen),)))}
    mon.case(True, info=str(info), chosen=str(chosen))
    arg = {(k[0] if k[1] == 0 and rng.integers(2) else k): v for k, v in want.items()}
    weight = float(rng.choice([0, 0.2, 0.7]))
    overlap = sum(want[k].conjugate() * s[info.index(k)] for k in want)
    norm = np.sqrt(sum(abs(v) ** 2 for v in want.values()))
    power = float(np.sum(np.abs(s) ** 2))
    expect = abs(overlap / norm) ** 2
    if weight:
        expect = expect / power * (1 - weight) + power * weight
    default = size % 2 == 0 and info == [(p, 0) for p in port]
    fields = field(rng, (2, 3) + tuple(f.shape3))
    cost, (got, aux) = f.fidelity(arg, None if default else info, insertion_weight=weight)((jnp.array(s), fields))
    mon.close(float(cost), -expect, 1e-6, 'score of S-parameters')
    mon.close(np.asarray(got), s, 1e-12, 'S-parameters along with the score')
    mon.close(np.asarray(aux), fields, 1e-12, 'fields along with the score')
    # the best possible S-parameters score one
    best = np.zeros(len(info), dtype=complex)
    for k, v in want.items():
        best[info.index(k)] = v / norm
    cost, _ = f.fidelity(arg, info, insertion_weight=weight)((jnp.array(best), fields))
    mon.close(float(cost), -1, 1e-6, 'score of the desired S-parameters')
    t = field(rng, (len(port),))
    a, e, h = f.decorate(t, fields)
    for i, p in enumerate(port):
        mon.check(complex(a.sel(port=p)) == t[i], 'labelled S-parameter')
    x, y = int(rng.integers(n[0])), int(rng.integers(n[1]))
    for c, name in enumerate('xyz'):
        mon.check(complex(e.sel(direction=name).isel(x=x, y=y, z=0)) == fields[0][c, x, y, 0], 'labelled electric field')
        mon.check(complex(h.sel(direction=name).isel(x=x, y=y, z=0)) == fields[1][c, x, y, 0], 'labelled magnetic field')
    mon.close(float(e.x[x]), x * d[0], 1e-9, 'position of the electric field')
    mon.close(float(h.y[y]) - float(e.y[y]), d[1] / 2, 1e-9, 'position of the magnetic field')
    mon.event('scores')


def time_domain(rng, mon, size):
    """The flux of a time-domain run is that of its states at the ports asked for."""
    n, eps, port, d = guides(rng, 2)
    use_jax = size % 3 == 2
    args = dict(eps=eps, pml=(0.4, 0.4), pml_sep=1, use_jax=use_jax)
    f = FDTD(tuple(k * x for k, x in zip(n, d)), d, **args)
    f.port = port
    wavelength = float(rng.uniform(1.2, 1.6))
    names = [str(p) for p in rng.permutation(list(port))]
    source, asked = names[0], names[:int(rng.integers(1, 5))]
    if not modes_clear(f, port, wavelength, 1):
        mon.case(False, reason='no clear mode')
        return
    steps = int(rng.integers(3, 9))
    mon.case(True, source=source, asked=str(asked), steps=steps)
    start = tuple(np.asarray(x) if not isinstance(x, list) else x for x in f.zero_state)
    start = (field(rng, f.field_shape), field(rng, f.field_shape)) + tuple(f.zero_state[2:])
    start = tuple(jnp.array(s) for s in start[:2]) + start[2:] if use_jax else start
    flux, end = f.run_cw_port(steps, wavelength=wavelength, source_port=source, measure_port=asked, initial_state=start)
    mon.check(len(flux) == steps + 1, 'one measurement per state')
    measure = f.get_measure_fn(asked, wavelength=wavelength)
    state = start
    section = f.port_modes([(source, 0)], wavelength=wavelength)[source]
    mon.close(np.asarray(flux[0]), np.asarray(measure(tuple(np.asarray(s) for s in state[:2]))), 1e-6, 'flux of the first state')
    for i in range(steps):
        shift = np.exp(1j * i * f.dt * 2 * np.pi / wavelength)
        before = np.asarray(state[1])
        state = f.step(state, [(section.profile(0) * shift, section.profile(0, use_h=True) * shift, section.slice(f))])
        e, h = np.asarray(state[0]), (before + np.asarray(state[1])) / 2
        want = np.asarray(measure((e, h)))
        mon.check(np.asarray(flux[i + 1]).shape == (2, len(asked)), 'flux at the ports asked for')
        mon.close(np.asarray(flux[i + 1]), want, 1e-6, 'flux at a time step', scale=np.abs(want).max())
    for a, b in zip(end[:2], state[:2]):
        mon.close(np.asarray(a), np.asarray(b), 1e-9, 'final state')
    mon.event('fluxes', steps)


def splitters(rng, mon, size):
    """Metrics of labelled S-parameters of a splitter with one or two inputs and two outputs."""
    names = ['a0', 'b0', 'b1'] + (['a1'] if rng.integers(2) else [])
    names = [str(p) for p in rng.permutation(names)]
    sim = SimGrid((1.0, 0.8), 0.1)
    sim.port = {p: Port(0.3, 0.3, 0, 0.2) for p in names}
    s = rng.normal(size=len(names)) + 1j * rng.normal(size=len(names))
    s *= 10.0 ** rng.uniform(-3, 0, len(names))
    mon.case(True, names=''.join(names), s=str(s[0]))
    fields = tuple(field(rng, (3,) + tuple(sim.shape3)) for _ in range(2))
    labelled = sim.decorate(s, fields)[0]
    power = {p: abs(x) ** 2 for p, x in zip(names, s)}
    through = power['b0'] + power['b1']
    want = dict(reflectivity=power['b0'] / through, transmissivity=power['b1'] / through, reflection=power['a0'],
                insertion=sum(power.values()), upper=power['b0'], lower=power['b1'])
    got = splitter_metrics(labelled)
    mon.check(set(got) == set(want), 'metrics of a splitter', got=sorted(got))
    for name, value in want.items():
        mon.close(float(got[name]), value, 1e-9, f'{name} of a splitter', scale=value)


def labels(rng, mon, size):
    """Labelled S-parameters and fields are those given, at the ports and positions of the grid."""
    ndim = 2 + size % 2
    n = [int(k) for k in rng.integers(2, 9, ndim)]
    h = [float(x) for x in rng.uniform(0.05, 0.3, ndim)]
    grid = (SimGrid, FDFD)[int(rng.integers(2))](tuple(k * x for k, x in zip(n, h)), h)
    names = [f'{"ab"[int(rng.integers(2))]}{i}' for i in rng.permutation(9)[:int(rng.integers(1, 5))]]
    grid.port = {name: Port(0, 0, 0, 1) for name in names}
    s, (e, b) = field(rng, (len(names),)), (field(rng, (3,) + tuple(grid.shape3)) for _ in range(2))
    mon.case(True, shape=str(n), ports=str(names))
    got = grid.decorate(s, (e, b))
    for i, name in enumerate(names):
        mon.check(complex(got[0].sel(port=name)) == s[i], 'labelled S-parameters')
    for what, g, want, shift in (('electric', got[1], e, 0.0), ('magnetic', got[2], b, 0.5)):
        for c, name in enumerate('xyz'):
            mon.check(np.array_equal(g.sel(direction=name).transpose('x', 'y', 'z').values, want[c]), f'labelled {what} field')
        for axis, name in enumerate('xyz'):
            at = (np.arange(n[axis]) + shift) * h[axis] if axis < ndim else [0]
            mon.close(g.coords[name].values, at, 1e-9, f'positions of the {what} field')
    mon.event('labels')


SCENARIOS = [('splitters', splitters, 20, 200), ('views', views, 60, 600), ('round trip', round_trip, 45, 500), ('ordering', ordering, 36, 300),
             ('devices', devices, 12, 120), ('profile sizes', profile_sizes, 8, 80), ('straight', straight, 12, 120), ('straight 3d', straight_3d, 4, 24),
             ('scores', scores, 60, 600), ('time domain', time_domain, 18, 150), ('hash seeds', hash_seeds, 2, 10), ('labels', labels, 30, 300)]
