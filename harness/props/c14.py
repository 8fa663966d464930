"""Automatic differentiation through the solver returns the derivative of the objective."""
import jax
import jax.numpy as jnp
import numpy as np

from harness.maxwell import as_tuple, field, layer, random_eps, random_shape, random_spacing
from simphox.fdfd import FDFD
from simphox.grid import Port
from simphox.transform import get_mask_fn, get_smooth_fn, get_symmetry_fn
from simphox.utils import Box

RULE = ('random structures, sources, polarisations, boundaries, parametrisations and objectives (power, amplitude, flux, '
        'logarithms, products of fields, S-parameter fidelities, sums over wavelengths), compiled or not, alone or '
        'interleaved; the gradient is compared with five-point differences of the numpy solver in random directions and in '
        'single pixels; non-trivial: the gradient is not zero; distinct by setting and objective')
ASSUMPTIONS = ['differences that do not converge (extremely sharp resonances) are not judged and counted as such',
               'parameters are real']
TOL = 2e-5


def differences(fn, x, d, h=2e-4):
    """Five-point derivative of fn at x along d and whether it is trustworthy."""
    def at(h):
        return (8 * (fn(x + h * d) - fn(x - h * d)) - (fn(x + 2 * h * d) - fn(x - 2 * h * d))) / (12 * h)
    a, b = at(h), at(h / 2)
    return b, abs(a - b)


def setting(rng, ndim, small=False):
    boundary = str(rng.choice(['periodic', 'bloch', 'pml', 'pml']))
    if boundary == 'pml':
        shape = random_shape(rng, ndim, 12, 22) if ndim > 1 else (int(rng.integers(20, 60)),)
    else:
        shape = random_shape(rng, ndim, 3, 7 if small else 16)
    spacing = random_spacing(rng, ndim, 0.04, 0.15)
    h = as_tuple(spacing, ndim)
    args = dict(wavelength=float(rng.uniform(0.8, 2)))
    if boundary == 'bloch':
        args['bloch_phase'] = tuple(float(b) for b in rng.uniform(-3, 3, ndim))
    if boundary == 'pml':
        args['pml'] = tuple(layer(rng, rng.integers(4, 6), d) for d in h)
    size = tuple(n * d for n, d in zip(shape, h))
    return shape, size, spacing, args, boundary


def transform(rng, shape):
    """A parametrisation of the permittivity (jax) and its starting point."""
    kind = str(rng.choice(['identity', 'density', 'squashed', 'symmetric', 'smooth', 'masked', 'shared']))
    rho = rng.uniform(0.05, 0.95, shape)
    if kind == 'identity' or len(shape) == 1 and kind in ('symmetric', 'smooth', 'masked'):
        return None, random_eps(rng, shape), 'identity'
    scale = float(rng.uniform(1, 11))
    if kind == 'density':
        return lambda r: 1 + scale * r, rho, kind
    if kind == 'squashed':
        return lambda r: 1 + scale * jax.nn.sigmoid(4 * r - 2), rho, kind
    if kind == 'symmetric':
        sym = get_symmetry_fn(bool(rng.integers(2)), True, avg=bool(rng.integers(2)))
        return lambda r: 1 + scale * sym(r), rho, kind
    if kind == 'smooth':
        smooth = get_smooth_fn(2.0, 1)
        return lambda r: 1 + scale * smooth(r), rho, kind
    if kind == 'masked':
        base = jnp.array(rng.uniform(0, 1, shape))
        m = np.zeros(shape)
        m[1:-1, 1:-1] = 1
        return lambda r: 1 + scale * (base * (1 - m) + r * m), rho, kind
    # a few parameters for many pixels
    basis = rng.uniform(0, 1, (4,) + shape)
    return lambda r: 1 + jnp.tensordot(r, basis, axes=1), rng.uniform(0.3, 2, 4), kind


def objective(rng, shape3, te):
    """An objective of the fields as a function that accepts jax or numpy arrays."""
    shape3 = tuple(int(n) for n in shape3)
    kind = str(rng.choice(['power', 'amplitude', 'flux', 'log', 'product', 'e and h', 'phase', 'minus']))
    w = rng.normal(size=(2, 3) + shape3) + 1j * rng.normal(size=(2, 3) + shape3)
    if rng.integers(2):  # few pixels only
        keep = rng.random(shape3) < 3 / np.prod(shape3)
        keep[tuple(int(rng.integers(n)) for n in shape3)] = True
        w = w * keep
    part = str(rng.choice(['e', 'h', 'both']))
    w[0] *= part != 'h'
    w[1] *= part != 'e'
    p = np.abs(w) ** 2

    def fn(f, xp):
        if kind == 'power':
            return xp.sum(p * xp.abs(f) ** 2)
        if kind == 'minus':
            return -xp.abs(xp.sum(w * f)) ** 2
        if kind == 'amplitude':
            return xp.real(xp.sum(w * f))
        if kind == 'phase':
            return xp.angle(xp.sum(w * f))
        if kind == 'log':
            return xp.log(xp.sum(p * xp.abs(f) ** 2))
        if kind == 'flux':
            e, h = f
            return xp.real(xp.sum(w[0, 0] * (e[1] * xp.conj(h[2]) - e[2] * xp.conj(h[1]) + e[0] * xp.conj(h[2]) - e[2] * xp.conj(h[0]))))
        if kind == 'product':
            return xp.imag(xp.sum(w * f) * xp.sum(xp.roll(w, 1, axis=2) * f)) + xp.sum(p * xp.abs(f) ** 4)
        return xp.sum(p[0] * xp.abs(f[0]) ** 2) * xp.sum(p[1] * xp.abs(f[1]) ** 2) + xp.real(xp.sum(w[0] * f[0] * f[1][::-1]))
    return fn, f'{kind} {part}'


def judge(rng, mon, grad, value, fn, rho, what, full):
    """Compare a gradient with differences of fn along a random direction and along single entries."""
    grad = np.asarray(grad)
    if not mon.check(grad.shape == rho.shape and np.isrealobj(grad) and np.all(np.isfinite(grad)), f'{what}: shape and finiteness', got=grad.shape, dtype=grad.dtype):
        return False
    base = fn(rho)
    mon.close(value, base, 1e-7, f'{what}: value', scale=abs(base) + 1e-12)
    norm = np.linalg.norm(grad)
    directions = [rng.normal(size=rho.shape)]
    if norm > 0:
        directions.append(grad / norm)
    pixels = list(np.ndindex(rho.shape))
    for i in (pixels if full and len(pixels) < 40 else [pixels[int(k)] for k in rng.integers(len(pixels), size=2)]):
        d = np.zeros(rho.shape)
        d[i] = 1
        directions.append(d)
    judged = 0
    for d in directions:
        want, trust = differences(fn, rho, d)
        scale = max(abs(want), 1e-2 * norm * np.linalg.norm(d) if norm > 0 else abs(want), 1e-9 * abs(base), 1e-300)
        if trust > 0.2 * TOL * scale:
            mon.event('differences not converged')
            continue
        judged += 1
        mon.close(np.sum(grad * d), want, TOL, what, scale=scale)
    mon.event('derivatives compared', judged)
    return judged > 0


def gradient(rng, mon, size, ndim=None):
    ndim = ndim or (1, 2, 2)[size % 3]
    full = size % 4 == 0
    shape, length, spacing, args, boundary = setting(rng, ndim, full)
    te = bool(rng.integers(2))
    tfn, rho, tname = transform(rng, shape)
    src = field(rng, shape) * (rng.random(shape) < (1 if rng.integers(2) else 0.1))
    src[tuple(n // 2 for n in shape)] += 1
    sim = FDFD(length, spacing, eps=random_eps(rng, shape), **args)
    obj, oname = objective(rng, sim.shape3, te)
    fields_fn = sim.get_fields_fn(src, tfn, tm_2d=not te)

    def cost(r):
        return obj(fields_fn(r), jnp)

    def reference(r):
        eps = np.asarray(tfn(jnp.array(r)) if tfn else r, dtype=float)
        return float(obj(FDFD(length, spacing, eps=eps, **args).solve(src, tm_2d=not te), np))

    fn = jax.value_and_grad(cost)
    jit = bool(rng.integers(2))
    if jit:
        fn = jax.jit(fn)
        if rng.integers(2):
            fn(jnp.array(rho * 0.9))  # compiled for another point before
    value, grad = fn(jnp.array(rho))
    pol = 'te' if te else 'tm'
    ok = judge(rng, mon, grad, float(value), reference, rho, f'gradient {ndim}d {pol}', full)
    mon.case(ok and np.any(np.asarray(grad) != 0), ndim=ndim, pol=pol, objective=oname, transform=tname, boundary=boundary, shape=shape, jit=jit)


def ports(rng, mon, size):
    """Fidelities of S-parameters as used in inverse design."""
    dx = 0.1
    length = (2.8, 2.4)
    shape = (28, 24)
    y = 1.2 + int(rng.integers(-1, 2)) * dx
    eps = np.ones(shape)
    j = int(round(y / dx))
    eps[:, j - 2:j + 2] = 9
    args = dict(wavelength=float(rng.uniform(1.4, 1.6)), pml=(0.5, 0.5), pml_sep=2)
    sim = FDFD(length, dx, eps=eps, **args)
    sim.port = {'a0': Port(0.8, y, 180, 0.4), 'b0': Port(2.0, y, 0, 0.4)}
    design = np.zeros(shape)
    design[11:17, 8:17] = 1
    base = rng.uniform(0.1, 0.9, shape)

    def tfn(r):
        return eps * (1 - design) + design * (1 + 8 * r)
    te = bool(rng.integers(2))
    source = 'a0'
    fn = sim.get_sim_sparams_fn(source, tfn, tm_2d=not te)
    measure = sim.get_measure_fn(tm_2d=not te)
    src = sim.port_source({source: 1})
    weight = float(rng.choice([0, 0.3, 0.8]))
    desired = {'a0': float(rng.uniform(0, 1)), 'b0': complex(*rng.normal(size=2))}
    if rng.integers(2):
        desired.pop('a0')
    obj = sim.fidelity(desired, insertion_weight=weight)
    (value, (s, f)), grad = jax.value_and_grad(lambda r: obj(fn(r)), has_aux=True)(jnp.array(base))
    d = np.array([desired.get(p, 0) for p in sim.port])
    d = np.conj(d / np.linalg.norm(d))

    def reference(r):
        out, inc = measure(FDFD(length, dx, eps=np.asarray(tfn(r)), **args).solve(src, tm_2d=not te))
        s = out / inc[0]
        if weight:
            t = np.sum(np.abs(s) ** 2)
            return -(1 - weight) * abs(d @ s) ** 2 / t - weight * t
        return -abs(d @ s) ** 2
    ok = judge(rng, mon, grad, float(value), reference, base, f'fidelity {"te" if te else "tm"}', False)
    mon.check(np.all(np.asarray(grad)[design == 0] == 0), 'no gradient outside of the design region')
    mon.case(ok, te=te, weight=weight, ports=len(desired), row=j)


def interleaved(rng, mon, size):
    """One objective of several solves (wavelengths, polarisations, structures) of the same design."""
    shape, length, spacing, args, boundary = setting(rng, 2)
    parts = []
    for _ in range(int(rng.integers(2, 5))):
        a = dict(args)
        if rng.integers(2):
            a['wavelength'] = float(rng.uniform(0.8, 2))
        te = bool(rng.integers(2))
        src = field(rng, shape)
        sim = FDFD(length, spacing, eps=1, **a)
        obj, name = objective(rng, sim.shape3, te)
        invert = bool(rng.integers(2))
        tfn = (lambda r: 1 + 5 * (1 - r)) if invert else (lambda r: 1 + 5 * r)
        parts.append((a, te, src, obj, tfn, sim.get_fields_fn(src, tfn, tm_2d=not te), name))
    rho = rng.uniform(0.05, 0.95, shape)

    def cost(r):
        return sum(p[3](p[5](r), jnp) for p in parts)

    def reference(r):
        return float(sum(p[3](FDFD(length, spacing, eps=np.asarray(p[4](r)), **p[0]).solve(p[2], tm_2d=not p[1]), np) for p in parts))
    fn = jax.value_and_grad(cost)
    if rng.integers(2):
        fn = jax.jit(fn)
    for k in range(2):  # and again after a step
        value, grad = fn(jnp.array(rho))
        ok = judge(rng, mon, grad, float(value), reference, rho, 'gradient of several solves', False)
        g = np.asarray(grad)
        rho = np.clip(rho - 0.02 * g / (np.abs(g).max() + 1e-300), 0.01, 0.99)
    mon.case(ok, parts=' '.join(('te ' if p[1] else 'tm ') + p[6] for p in parts), boundary=boundary, shape=shape)


def volume(rng, mon, size):
    """Three dimensions (iterative solver): structures for which the iteration converges."""
    shape = tuple(int(n) for n in rng.integers(3, 6, 3))
    spacing = float(rng.uniform(0.08, 0.15))
    length = tuple(n * spacing for n in shape)
    args = dict(wavelength=float(rng.uniform(1, 2)))
    sim = FDFD(length, spacing, eps=1, **args)
    src = field(rng, (3,) + shape)
    obj, name = objective(rng, shape, True)
    if name.split()[0] in ('phase', 'log'):
        obj, name = objective(np.random.default_rng(3), shape, True)
    fields_fn = sim.get_fields_fn(src, lambda r: -1 - 5 * r)
    rho = rng.uniform(0.05, 0.95, shape)
    value, grad = jax.value_and_grad(lambda r: obj(fields_fn(r), jnp))(jnp.array(rho))

    def reference(r):
        return float(obj(FDFD(length, spacing, eps=-1 - 5 * np.asarray(r), **args).solve(src), np))
    grad = np.asarray(grad)
    d = grad / (np.linalg.norm(grad) + 1e-300)
    want, trust = differences(reference, rho, d)
    base = reference(rho)
    mon.close(float(value), base, 5e-3, 'value 3d', scale=abs(base) + 1e-9)
    if mon.check(np.all(np.isfinite(grad)), 'gradient 3d: finite'):
        mon.close(np.sum(grad * d), want, 2e-2, 'gradient 3d', scale=abs(want) + 0.01 * abs(base))
    mon.event('derivatives compared')
    mon.case(True, shape=shape, objective=name)


SCENARIOS = [('gradient', gradient, 84, 700), ('ports', ports, 18, 120), ('interleaved', interleaved, 20, 150), ('volume', volume, 8, 40)]
