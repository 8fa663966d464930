"""Discrete derivative operators keep the structure of vector calculus."""
import jax.numpy as jnp
import numpy as np

from harness.maxwell import Reference, as_tuple, field, layer, random_eps, random_shape, random_spacing
from simphox.fdfd import FDFD
from simphox.sim import SimGrid
from simphox.utils import curl_fn, d2curl_op, yee_avg, yee_avg_2d_z, yee_avg_jax

TOL = 1e-10
RULE = ('grids of 1 to 3 dimensions, sizes 2 to 14 per axis (also single-cell axes), equal and unequal spacings, Bloch phases '
        '(none, scalar, per axis, integer), absorbing layers, random complex fields; non-trivial: every case; distinct by '
        'shape, Bloch and layer class')
ASSUMPTIONS = ['the reference operators are index arithmetic written from the definitions']


def grid(rng, size, pml=False):
    ndim = 1 + size % 3
    shape = random_shape(rng, ndim, 12, 20 if ndim < 3 else 15) if pml else random_shape(rng, ndim, 2, 15 if ndim < 3 else 8)
    spacing = random_spacing(rng, ndim)
    bloch = [0.0, float(rng.uniform(-3, 3)), tuple(float(b) for b in rng.uniform(-3, 3, ndim)), 1][int(rng.integers(4))]
    h = as_tuple(spacing, ndim)
    eps = random_eps(rng, shape)
    length = tuple(n * d for n, d in zip(shape, h))
    if pml:
        p = tuple(layer(rng, rng.integers(4, 6), d) for d in h)
        wavelength = float(rng.uniform(0.4, 2))
        g = FDFD(length, spacing, wavelength=wavelength, eps=eps, bloch_phase=bloch, pml=p)
        ref = Reference(shape, spacing, eps, bloch, 2 * np.pi / wavelength, p)
    else:
        g = SimGrid(length, spacing, eps=eps, bloch_phase=bloch)
        ref = Reference(shape, spacing, eps, bloch)
    return g, ref, shape, bloch


def check_operators(mon, rng, g, ref, what):
    f = field(rng, ref.shape3)
    v = field(rng, (3,) + ref.shape3)
    df, db = g.deriv_forward, g.deriv_backward
    s = max(1.0, max(1 / h for h in ref.h if np.isfinite(h)) * 4)
    for ax in range(3):
        fwd, bwd = ref.forward(f, ax), ref.backward(f, ax)
        mon.close((df[ax] @ f.ravel()).reshape(ref.shape3), fwd, TOL, f'{what}: forward matrix', scale=s * 4)
        mon.close((db[ax] @ f.ravel()).reshape(ref.shape3), bwd, TOL, f'{what}: backward matrix', scale=s * 4)
        if ref.shape3[ax] > 1:
            for jax_ in (False, True):
                x = jnp.array(f) if jax_ else f
                mon.close(g.diff_fn(of_h=False, use_jax=jax_)(x, ax), fwd, TOL, f'{what}: forward function', scale=s * 4)
                mon.close(g.diff_fn(of_h=True, use_jax=jax_)(x, ax), bwd, TOL, f'{what}: backward function', scale=s * 4)
        mon.event('derivatives')
    for back in (False, True):
        want = ref.curl(v, back)
        mon.close((d2curl_op(db if back else df) @ v.ravel()).reshape(v.shape), want, TOL, f'{what}: curl matrix', scale=s * 8)
        for jax_ in (False, True):
            x = jnp.array(v) if jax_ else v
            mon.close(g.curl_fn(of_h=back, use_jax=jax_)(x), want, TOL, f'{what}: curl function', scale=s * 8)
            mon.close(curl_fn(g.diff_fn(of_h=back, use_jax=jax_), use_jax=jax_)(x), want, TOL, f'{what}: functional curl', scale=s * 8)
        c = want
        div = sum((df, db)[back][ax] @ c[ax].ravel() for ax in range(3))
        mon.small(div, 1e-9 * s ** 2 * 30, f'{what}: divergence of a curl')
        d = ref.backward if back else ref.forward
        grad = np.stack([((df, db)[back][ax] @ f.ravel()).reshape(ref.shape3) for ax in range(3)])
        mon.small(g.curl_fn(of_h=back)(grad), 1e-9 * s ** 2 * 30, f'{what}: curl of a gradient')
        beta = float(rng.uniform(-5, 5))
        b = np.stack([d(v[2], 1) + 1j * beta * v[1], -1j * beta * v[0] - d(v[2], 0), d(v[1], 0) - d(v[0], 1)])
        mon.close(g.curl_fn(beta=beta, of_h=back)(v), b, TOL, f'{what}: curl of a guided wave', scale=s * 8)
        mon.event('curls')


def plain(rng, mon, size):
    g, ref, shape, bloch = grid(rng, size)
    mon.case(True, shape=str(shape), bloch=str(type(bloch).__name__) + str(bloch == 0))
    check_operators(mon, rng, g, ref, 'grid')
    df, db = g.deriv_forward, g.deriv_backward
    s = max(1 / h for h in ref.h if np.isfinite(h))
    u, w = field(rng, np.prod(ref.shape3)), field(rng, np.prod(ref.shape3))
    for ax in range(len(shape)):
        a, b = np.vdot(u, df[ax] @ w), -np.vdot(db[ax] @ u, w)
        mon.close(a, b, 1e-10, 'backward is the negative adjoint of forward', scale=s * u.size * 4)
        # plane waves with the Bloch phase are eigenvectors, linear fields have constant slope away from the boundary
        n, h = shape[ax], ref.h[ax]
        k = (np.angle(ref.phase[ax]) + 2 * np.pi * int(rng.integers(0, n))) / (n * h)
        x = np.moveaxis(np.ones(ref.shape3) * 1.0, ax, -1) * (np.arange(n) * h)
        x = np.moveaxis(x, -1, ax)
        wave = np.exp(1j * k * x).ravel()
        mon.close(df[ax] @ wave, (np.exp(1j * k * h) - 1) / h * wave, 1e-10, 'plane wave, forward', scale=4 * s)
        mon.close(db[ax] @ wave, (1 - np.exp(-1j * k * h)) / h * wave, 1e-10, 'plane wave, backward', scale=4 * s)
        slope = np.moveaxis((df[ax] @ x.ravel()).reshape(ref.shape3), ax, 0)[:-1]
        mon.close(slope, np.ones_like(slope), 1e-10, 'slope of a linear field', scale=n)
        if ref.phase[ax] == 1:
            mon.small(df[ax] @ np.ones(u.size), 1e-12 * s, 'derivative of a constant')
    mon.event('grids')


def absorbing(rng, mon, size):
    g, ref, shape, bloch = grid(rng, size, pml=True)
    mon.case(True, shape=str(shape), bloch=str(type(bloch).__name__) + str(bloch == 0))
    check_operators(mon, rng, g, ref, 'absorbing grid')
    for ax in range(len(shape)):
        for of_h in (0, 1):
            s = ref.stretch[of_h][ax]
            mon.check(np.all(s.imag <= 0) and np.all(s.real == 1), 'layers only absorb')
    mon.event('grids with absorbing layers')


def averages(rng, mon, size):
    """Averaged permittivities: all forms agree, keep the total, stay within the bounds and are exact where it is uniform."""
    g, ref, shape, _ = grid(rng, size)
    mon.case(True, shape=str(shape))
    e = ref.eps
    want = ref.eps_t()
    mon.close(yee_avg(e), want, 1e-12, 'average', scale=12)
    mon.close(np.asarray(yee_avg_jax(jnp.array(e))), want, 1e-12, 'average in jax', scale=12)
    mon.close(np.asarray(yee_avg_2d_z(jnp.array(e))), want[2], 1e-12, 'average of the z component', scale=12)
    mon.close(g.eps_t, want, 1e-12, 'average of the grid', scale=12)
    mon.close(g.eps_t.sum((1, 2, 3)), np.ones(3) * e.sum(), 1e-10, 'the total is kept')
    mon.check(g.eps_t.min() >= e.min() - 1e-12 and g.eps_t.max() <= e.max() + 1e-12, 'the average stays within its bounds')
    mon.event('averages')


SCENARIOS = [('plain', plain, 60, 500), ('absorbing', absorbing, 36, 250), ('averages', averages, 36, 250)]
