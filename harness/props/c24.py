"""Devices described by patterns are simulated as drawn, and their circuit models are the measured S-parameters."""
import sys
import types

try:
    import dphox  # noqa: F401
except ImportError:  # the design library is not installed: only the names that simphox imports from it
    names = ('dphox', 'dphox.device', 'dphox.pattern')
    stub = [types.ModuleType(name) for name in names]
    stub[1].Device, stub[2].Pattern = type('Device', (), {}), type('Pattern', (), {})
    stub[0].device, stub[0].pattern = stub[1:]
    sys.modules.update(zip(names, stub))

import numpy as np

import simphox.fdfd
import simphox.fdtd
from simphox.circuit.component import Component
from simphox.fdfd import FDFD
from simphox.fdtd import FDTD
from simphox.grid import Port

for module in (simphox.fdfd, simphox.fdtd):
    if hasattr(module, 'DPHOX_INSTALLED'):
        module.DPHOX_INSTALLED = True

RULE = ('patterns of random rectangles with ports at random places, in two dimensions and with random layers in three, random '
        'spacings, boundaries and absorbing layers; bends, crossings and guides whose models are measured at several wavelengths '
        'for all ports, subsets and orders of ports; distinct by geometry and ports; non-trivial: the pattern covers some pixels '
        'but not all')
ASSUMPTIONS = ['a pattern provides size, bounds, mask and ports as those of dphox do (dphox is not installed here)',
               'without a substrate, a device without a rib is clad everywhere (there is no background)']


class DesignPort:
    def __init__(self, x, y, a, w):
        self.x, self.y, self.a, self.w = x, y, a, w
        self.xya = (x, y, a)


class Pattern:
    """Rectangles of whole pixels (x0, y0, x1, y1) of size d."""

    def __init__(self, boxes, d, size, port):
        self.boxes, self.d, self.size, self.port = boxes, d, size, port
        b = np.array(boxes) * np.array((d[0], d[1], d[0], d[1]))
        self.bounds = (b[:, 0].min(), b[:, 1].min(), b[:, 2].max() - 1e-9, b[:, 3].max() - 1e-9)

    def mask(self, shape, spacing):
        assert np.allclose(np.asarray(spacing)[:2], self.d[:2])
        m = np.zeros(tuple(shape))
        for x0, y0, x1, y1 in self.boxes:
            m[x0:x1, y0:y1] = 1
        return m


def drawing(rng, mon, size):
    ndim = 2 + size % 2
    scalar = bool(rng.integers(2))
    d = (float(rng.uniform(0.05, 0.2)),) * ndim if scalar else tuple(float(x) for x in rng.uniform(0.05, 0.2, ndim))
    n = [int(x) for x in rng.integers(12, 24, 2)]
    edge = [int(x) for x in rng.integers(0, 5, 2)]
    boxes = []
    for _ in range(int(rng.integers(1, 4))):
        lo = [int(rng.integers(0, k - 1)) for k in n]
        hi = [int(rng.integers(a + 1, k)) for a, k in zip(lo, n)]
        boxes.append((*lo, *hi))
    port = {name: DesignPort(*(float(x) for x in rng.uniform(0, 2, 2)), float(rng.choice([0, 90, 180, 270])),
                             float(rng.uniform(0.2, 1))) for name in rng.permutation(['a0', 'b0', 'b1'])[:int(rng.integers(4))]}
    pattern = Pattern(boxes, d, tuple((k - 2 * e) * x for k, e, x in zip(n, edge, d)), port)
    core, clad, bg = (float(x) for x in rng.uniform(1, 12, 3))
    top = pattern.mask(n, d) == 1
    vertical, layers = {}, None
    if ndim == 3:
        nz = int(rng.integers(12, 18))
        sub = int(rng.integers(0, 6))
        rib = int(rng.choice([0, 1, 2]))
        thick = int(rng.integers(1, 5))
        zmin = None if rng.integers(2) else int(rng.integers(0, 10))
        vertical = dict(height=nz * d[2], component_t=thick * d[2])
        for key, value in (('sub_z', sub), ('rib_t', rib)):
            if value or rng.integers(2):
                vertical[key] = value * d[2]
        if zmin is not None:
            vertical['component_zmin'] = zmin * d[2]
        z0 = sub if zmin is None else zmin
        want = np.full((*n, nz), bg)
        for k in range(nz):
            if k < sub or (sub == 0 and rib == 0):
                want[..., k] = clad
            elif k < sub + rib:
                want[..., k] = core
            if z0 <= k < z0 + thick:
                want[top, k] = core
    else:
        z0, thick = 0, 0
        if rng.integers(3) == 0:
            thick = float(rng.uniform(0.1, 0.3)) / d[1]
            vertical = dict(component_t=thick * d[1])
        want = np.where(top, core, clad)
    kind = FDFD if rng.integers(2) else FDTD
    more = dict(wavelength=float(rng.uniform(1, 2))) if kind is FDFD else {}
    if rng.integers(2):
        more['name'] = 'device'
    pml = tuple(4 * x for x in d) if rng.integers(2) else None
    if pml is not None and nz_small(want.shape):
        pml = None
    spacing = d[0] if scalar else d if rng.integers(2) else list(d)
    sim = kind.from_pattern(pattern, core_eps=core, clad_eps=clad, spacing=spacing, pml=pml, bg_eps=bg,
                            boundary=tuple(e * x for e, x in zip(edge, d)), **vertical, **more)
    mon.case(top.any() and not top.all(), kind=kind.__name__, n=str(n), boxes=str(boxes), vertical=str(vertical), ports=len(port))
    mon.check(tuple(sim.shape) == want.shape, 'size of the simulation', got=sim.shape, want=want.shape)
    mon.close(np.asarray(sim.spacing), d, 1e-12, 'spacing')
    mon.close(np.asarray(sim.eps), want, 1e-12, 'permittivity of the device')
    mon.check(list(sim.port) == list(port), 'names of the ports')
    dz = d[2] if ndim == 3 else d[1]
    for name, p in port.items():
        q = sim.port[name]
        mon.close([q.x, q.y, q.a, q.w, q.z, q.h], [*p.xya, p.w, (z0 + thick / 2) * dz, thick * dz], 1e-9, 'port as designed')
    if 'wavelength' in more:
        mon.close(sim.k0 * more['wavelength'], 2 * np.pi, 1e-9, 'wave number')
    if 'name' in more:
        mon.check(sim.name == 'device', 'name of the simulation')
    if pml is None:
        mon.check(sim.pml_shape is None, 'no absorbing layer')
    else:
        mon.check(tuple(int(x) for x in sim.pml_shape) == (4,) * ndim, 'absorbing layer', got=sim.pml_shape)
    mon.event('pixels', want.size)
    # a further pattern is painted over the device, and its ports are where it places them
    lo = [int(rng.integers(0, k - 1)) for k in n]
    box = (*lo, *(int(rng.integers(a + 1, k)) for a, k in zip(lo, n)))
    names = [str(x) for x in rng.permutation(['a0', 'b0', 'c0'])[:int(rng.integers(1, 4))]]
    more_port = {name: DesignPort(*(float(x) for x in rng.uniform(0, 2, 2)), float(rng.choice([0, 90, 180, 270])), float(rng.uniform(0.2, 1)))
                 for name in names}
    over, eps = Pattern([box], d, pattern.size, more_port), float(rng.uniform(1, 12))
    covered = over.mask(n, d) == 1
    if ndim == 3:
        z0, thick = int(rng.integers(0, 10)), int(rng.integers(1, 5))
        want[covered, z0:z0 + thick] = eps
    else:
        z0, thick = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        want[covered] = eps
    mon.check(sim.add(over, eps, z0 * dz, thick * dz) is sim, 'adding a pattern can be chained')
    mon.close(np.asarray(sim.eps), want, 1e-12, 'permittivity after a further pattern')
    for name, p in more_port.items():
        q = sim.port[name]
        mon.close([q.x, q.y, q.a, q.w, q.z, q.h], [*p.xya, p.w, (z0 + thick / 2) * dz, thick * dz], 1e-9, 'port of a further pattern')
    mon.event('further patterns')
    outside = Pattern([(0, 0, n[0] + 2, 2)], d, pattern.size, {})
    mon.raises(ValueError, lambda: kind.from_pattern(outside, core_eps=core, clad_eps=clad, spacing=spacing, pml=None, bg_eps=bg,
                                                     boundary=tuple(e * x for e, x in zip(edge, d)), **vertical, **more),
               'patterns outside of the simulation are refused')


def nz_small(shape):
    return min(shape) <= 10


def model(rng, mon, size):
    d = 0.1
    n = [int(x) for x in rng.integers(32, 40, 2)]
    w = int(rng.integers(3, 6))
    cx, cy = (int(rng.integers(12, k - 14)) for k in n)
    arms = {'w': (0, cy, cx + w, cy + w), 'e': (cx, cy, n[0], cy + w), 's': (cx, 0, cx + w, cy + w), 'n': (cx, cy, cx + w, n[1])}
    chosen = [str(a) for a in rng.permutation(list(arms))[:int(rng.integers(2, 5))]]
    ends = {'w': (0, (cy + w / 2) * d, 180), 'e': (n[0] * d, (cy + w / 2) * d, 0),
            's': ((cx + w / 2) * d, 0, 270), 'n': ((cx + w / 2) * d, n[1] * d, 90)}
    port = {a: DesignPort(*ends[a], w * d) for a in chosen}
    boxes = [arms[a] for a in chosen]
    edge = [int(x) for x in rng.integers(0, 5, 2)]
    pattern = Pattern(boxes, (d, d), tuple((k - 2 * e) * d for k, e in zip(n, edge)), port)
    core, clad = float(rng.uniform(5, 10)), float(rng.uniform(1, 2))
    wavelengths = [float(x) for x in rng.uniform(1.4, 1.7, int(rng.integers(1, 4)))]
    pick = lambda: None if rng.integers(2) else [str(a) for a in rng.permutation(chosen)[:int(rng.integers(1, len(chosen) + 1))]]
    ins, outs = pick(), pick()
    factor = int(rng.choice([2, 3]))
    shown = []
    comp = Component.from_fdfd(pattern, core_eps=core, clad_eps=clad, spacing=d, wavelengths=wavelengths,
                               boundary=tuple(e * d for e in edge), pml=0.5, name='part', in_ports=ins, out_ports=outs,
                               profile_size_factor=factor, pbar=None if rng.integers(2) else lambda it: [shown.append(x) or x for x in it])
    mon.case(True, n=str(n), arms=''.join(chosen), ins=str(ins), outs=str(outs), waves=len(wavelengths), factor=factor)
    ins, outs = ins or chosen, outs or chosen
    mon.check(comp.structure is pattern and comp.name == 'part', 'structure and name of the component')
    m = comp.model
    mon.check(m.shape == (len(wavelengths), len(ins), len(outs)), 'size of the model', got=m.shape)
    mon.check([float(x) for x in m.coords['wavelengths'].values] == wavelengths, 'wavelengths of the model')
    mon.check(list(m.coords['in_ports'].values) == ins and list(m.coords['out_ports'].values) == outs, 'ports of the model')
    for i, wl in enumerate(wavelengths):
        sim = FDFD((n[0] * d, n[1] * d), d, eps=clad, wavelength=wl, pml=0.5)
        eps = np.array(sim.eps)
        for x0, y0, x1, y1 in boxes:
            eps[x0:x1, y0:y1] = core
        sim.eps = eps
        sim.port = {a: Port(*port[a].xya, port[a].w) for a in sorted(chosen)}
        every = [(a, 0) for a in sorted(chosen)]
        measure = sim.get_measure_fn(every, profile_size_factor=factor)
        want = np.zeros((len(ins), len(outs)), dtype=complex)
        for j, a in enumerate(ins):
            fields = sim.solve(sim.port_source({(a, 0): 1}, profile_size_factor=factor))
            out, inc = measure(fields)
            s = dict(zip(sorted(chosen), out / inc[sorted(chosen).index(a)]))
            want[j] = [s[b] for b in outs]
        mon.close(np.asarray(m.values[i]), want, 1e-5, 'model of the component')
    for i, wl in enumerate(wavelengths):
        for j, a in enumerate(ins):
            for k, b in enumerate(outs):
                mon.check(complex(m.loc[wl, a, b]) == complex(m.values[i][j][k]) or wavelengths.count(wl) > 1, 'look up by label')
    mon.event('S-parameters', m.size)


def scattering(rng, mon, size):
    """FDFD.sparams, the differentiable version and the measurement of fields by hand agree."""
    d = 0.1
    n = [int(x) for x in rng.integers(30, 38, 2)]
    w = int(rng.integers(5, 8))
    cx, cy = (int(rng.integers(12, k - 14)) for k in n)
    eps = np.full(n, float(rng.uniform(1, 2)))
    core = float(rng.uniform(9, 12))
    eps[:, cy:cy + w] = core
    if rng.integers(2):
        eps[cx:cx + w] = core
        names = ['w', 'e', 's', 'n']
    else:
        eps[cx:cx + int(rng.integers(2, 8)), cy - 3:cy + w + 3] = float(rng.uniform(1, 12))
        names = ['w', 'e']
    ends = {'w': (0, (cy + w / 2) * d, 180), 'e': (n[0] * d, (cy + w / 2) * d, 0),
            's': ((cx + w / 2) * d, 0, 270), 'n': ((cx + w / 2) * d, n[1] * d, 90)}
    names = [str(a) for a in rng.permutation(names)]
    sim = FDFD((n[0] * d, n[1] * d), d, eps=eps, wavelength=float(rng.uniform(1.3, 1.6)), pml=0.5)
    sim.port = {a: Port(*ends[a], w * d) for a in names}
    modes = [(a, k) for a in names for k in range(2)]
    info = None if rng.integers(3) == 0 else [modes[int(k)] for k in rng.permutation(len(modes))[:int(rng.integers(1, len(modes) + 1))]]
    used = [(a, 0) for a in names] if info is None else info
    src = used[int(rng.integers(len(used)))]
    mon.case(True, n=str(n), names=''.join(names), info=str(info), src=str(src))
    got = sim.sparams(src[0], src[1], None if info is None else list(info))
    other, fields = sim.get_sim_sparams_fn(src[0], mode_idx=src[1], measure_info=None if info is None else list(info))(sim.eps)
    solved = sim.solve(sim.port_source({src: 1}))
    for k in range(2):
        mon.close(np.asarray(fields[k]), np.asarray(solved[k]), 1e-5, 'fields of both', scale=np.abs(solved[k]).max())
    table = {}
    for label in dict.fromkeys(used):
        out, inc = sim.get_measure_fn([label])(solved)
        table[label] = (complex(out[0]), complex(inc[0]))
    want = np.array([table[label][0] / table[src][1] for label in used])
    scale = max(1.0, float(np.abs(want).max()))
    mon.close(np.asarray(got), want, 1e-6, 'scattering of every measured mode', scale=scale)
    mon.close(np.asarray(other), want, 1e-5, 'differentiable scattering', scale=scale)
    mon.event('S-parameters', len(used))


SCENARIOS = [('drawing', drawing, 60, 600), ('model', model, 10, 90), ('scattering', scattering, 14, 120)]
