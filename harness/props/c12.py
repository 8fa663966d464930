"""Every field returned by the frequency-domain solver satisfies the discretised Maxwell equations."""
import jax
import jax.numpy as jnp
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla

from harness.maxwell import Reference, as_tuple, field, layer, random_eps, random_shape, random_spacing
from simphox.fdfd import FDFD
from simphox.primitives import TMOperator
from simphox.sim import SimGrid

TOL = 1e-9
RULE = ('random structures (uniform, noise, blocks, waveguides, lossy and metallic), sources (dense, points, lines), wavelengths, '
        'spacings, Bloch phases and absorbing layers in 1 to 3 dimensions, both polarisations, numpy and jax solvers; '
        'non-trivial: the source is not zero; distinct by dimension, shape, boundary, polarisation and structure class')
ASSUMPTIONS = ['the reference equations are index arithmetic written from the definitions (time convention of the solver)',
               'the iterative solvers are judged at their own stopping tolerance, on systems where they converge']


def source(rng, shape, kind=None):
    kind = kind or str(rng.choice(['dense', 'point', 'line']))
    if kind == 'dense':
        return field(rng, shape), kind
    src = np.zeros(shape, dtype=complex)
    if kind == 'point':
        for _ in range(int(rng.integers(1, 4))):
            src[tuple(int(rng.integers(n)) for n in shape)] += field(rng, ())
    else:
        sl = [int(rng.integers(n)) for n in shape]
        sl[-1] = slice(None)
        src[tuple(sl)] = field(rng, shape[-1:])
    return src, kind


def setting(rng, ndim, big=False, boundary=None):
    boundary = boundary or str(rng.choice(['periodic', 'bloch', 'pml', 'pml and bloch']))
    pml = 'pml' in boundary
    if pml:
        shape = random_shape(rng, ndim, 12, 26 if ndim < 3 else 14)
    else:
        shape = random_shape(rng, ndim, 2, 20 if ndim < 3 else 9)
    if ndim == 1 and big:
        shape = (int(rng.integers(50, 200)),)
    spacing = random_spacing(rng, ndim)
    h = as_tuple(spacing, ndim)
    bloch = 0.0
    if 'bloch' in boundary:
        bloch = float(rng.uniform(-3, 3)) if rng.integers(2) else tuple(float(b) for b in rng.uniform(-3, 3, ndim))
    material = str(rng.choice(['uniform', 'noise', 'blocks', 'waveguide', 'lossy', 'metal']))
    eps = random_eps(rng, shape, material if material not in ('lossy', 'metal') else 'noise')
    if material == 'lossy':
        eps = eps - 1j * rng.uniform(0, 1, shape)
    elif material == 'metal':
        eps[tuple(slice(0, max(1, n // 2)) for n in shape)] = -10.3
    wavelength = float(rng.uniform(0.3, 3))
    args = dict(wavelength=wavelength, eps=eps, bloch_phase=bloch)
    ref_args = dict(bloch=bloch, k0=2 * np.pi / wavelength)
    if pml:
        p = tuple(layer(rng, rng.integers(4, 6), d) for d in h)
        args['pml'] = ref_args['pml'] = p
        if rng.integers(2):
            params = (float(rng.uniform(2, 4)), float(rng.uniform(-20, -6)), float(rng.uniform(0.5, 3)))
            args['pml_params'] = ref_args['pml_params'] = params
    size = tuple(n * d for n, d in zip(shape, h))
    return FDFD(size, spacing, **args), Reference(shape, spacing, eps, **ref_args), shape, spacing, args, boundary, material


def tm_residual(ref, hz, src, eps):
    """The wave equation as it is solved for hz: its averages of the permittivity lie one cell after those of the electric
    field (see known_findings.txt), so in the presence of interfaces only this form holds to rounding."""
    r = -ref.backward(ref.forward(hz, 0) / eps[1], 0) - ref.backward(ref.forward(hz, 1) / eps[0], 1)
    return r - ref.k0 ** 2 * hz - ref.k0 * src


def judge(mon, ref, fields, src, pol, what, tol=TOL):
    """Residuals of both Maxwell equations for every cell (pol: te, tm or 3d)."""
    fields = np.asarray(fields)
    if not mon.check(fields.shape == (2, 3) + ref.shape3, f'{what}: shape of the fields', got=fields.shape):
        return
    e, h = fields
    k0, eps = ref.k0, ref.eps_t()
    inv = sum(1 / np.array([d for d, n in zip(ref.h, ref.shape3) if n > 1]) ** 2) if max(ref.shape3) > 1 else 1.0
    s = np.zeros((3,) + ref.shape3, dtype=complex)
    if pol == '3d':
        s[:] = np.asarray(src).reshape(s.shape)
    else:
        s[2] = np.asarray(src).reshape(ref.shape3)
    b = np.abs(k0 * s).max()
    if pol == 'tm':
        scale = (4 * inv / np.abs(eps).min() + k0 ** 2) * np.abs(h).max() + b
        mon.close(1j * k0 * eps * e, ref.curl(h, True), tol, f'{what}: electric field of the magnetic field',
                  scale=4 * np.sqrt(inv) * np.abs(h).max())
        mon.small(tm_residual(ref, h[2], s[2], eps) / scale, tol, f'{what}: residual of the wave equation')
        if np.ptp(eps) == 0 and not ref.absorbing:
            r = (1j * k0 * ref.curl(e, False) - k0 ** 2 * h - k0 * s)[2]
            mon.small(r / scale, tol, f'{what}: residual of the wave equation')
        mon.check(not h[:2].any() and not e[2].any(), f'{what}: only the components of the polarisation')
    else:
        scale = (8 * inv + k0 ** 2 * np.abs(eps).max()) * np.abs(e).max() + b
        mon.close(-1j * k0 * h, ref.curl(e, False), tol, f'{what}: magnetic field of the electric field',
                  scale=4 * np.sqrt(inv) * np.abs(e).max())
        r = -1j * k0 * ref.curl(h, True) - k0 ** 2 * eps * e - k0 * s
        mon.small((r if pol == '3d' else r[2]) / scale, tol, f'{what}: residual of the wave equation')
        if pol == 'te':
            mon.check(not e[:2].any() and not h[2].any(), f'{what}: only the components of the polarisation')
    mon.event('fields judged')
    mon.event('cells judged', int(np.prod(ref.shape3)))


def numpy_2d(rng, mon, size):
    ndim = 1 if size % 5 == 4 else 2
    f, ref, shape, spacing, args, boundary, material = setting(rng, ndim, big=True)
    tm = bool(rng.integers(2))
    pol = 'tm' if tm else 'te'
    src, kind = source(rng, shape)
    mon.case(True, shape=str(shape), boundary=boundary, material=material, pol=pol, source=kind)
    keep = src.copy()
    out = f.solve(src, tm_2d=tm)
    judge(mon, ref, out, src, pol, f'{pol} solution')
    mon.check(np.array_equal(src, keep), 'the source is not changed')
    e, h = out
    if tm:
        mon.close(f.h2e(h), e, 1e-10, 'h2e gives the electric field', scale=np.abs(e).max() + 1e-300)
        mon.close(f.h2e(h.ravel()), e, 1e-10, 'h2e of a flat field', scale=np.abs(e).max() + 1e-300)
    else:
        mon.close(f.e2h(e), h, 1e-10, 'e2h gives the magnetic field', scale=np.abs(h).max() + 1e-300)
        mon.close(f.e2h(e.ravel()), h, 1e-10, 'e2h of a flat field', scale=np.abs(h).max() + 1e-300)
    which = int(rng.integers(4))
    amp = np.abs(out).max()
    if which == 0:
        other, _ = source(rng, shape)
        a, b = field(rng, (2,))
        both = f.solve(a * src + b * other, tm_2d=tm)
        judge(mon, ref, both, a * src + b * other, pol, 'combined sources')
        o2 = f.solve(other, tm_2d=tm)
        mon.close(both, a * out + b * o2, 1e-6, 'linear in the source', scale=np.abs(a) * amp + np.abs(b) * np.abs(o2).max())
    elif which == 1:
        judge(mon, ref, f.solve(src, solver_fn=lambda m, b: sla.spsolve(m.tocsc(), b), tm_2d=tm), src, pol, 'given solver')
    elif which == 2:
        judge(mon, ref, f.solve(src.ravel(), tm_2d=tm), src, pol, 'flat source')
    else:
        mon.raises(ValueError, lambda: f.solve(np.zeros(src.size + 1), tm_2d=tm), 'a source of another size is refused')
    mon.event('solves')


def jax_2d(rng, mon, size):
    f, ref, shape, spacing, args, boundary, material = setting(rng, 1 + (size % 4 > 0))
    tm = bool(rng.integers(2))
    pol = 'tm' if tm else 'te'
    src, kind = source(rng, shape)
    mon.case(True, shape=str(shape), boundary=boundary, material=material, pol=pol, source=kind)
    fn = f.get_fields_fn(src, tm_2d=tm)
    fn = jax.jit(fn) if rng.integers(2) else fn
    out = fn(jnp.array(f.eps))
    judge(mon, ref, out, src, pol, f'{pol} solution in jax')
    want = f.solve(src, tm_2d=tm)
    mon.close(np.asarray(out), want, 1e-6, 'jax and numpy give the same fields', scale=np.abs(want).max())
    # the returned function is a function of the permittivity it is given, not of that of the simulation
    eps = np.asarray(f.eps) * (1 + 0.3 * rng.random(shape)) if rng.integers(2) else random_eps(rng, shape)
    ref.eps = eps.reshape(ref.shape3)
    judge(mon, ref, fn(jnp.array(eps)), src, pol, 'another permittivity')
    if rng.integers(2):
        flat = f.get_fields_fn(src, lambda rho: 1 + 2 * rho[::-1] ** 2, tm_2d=tm)
        rho = rng.uniform(0, 1, shape)
        ref.eps = (1 + 2 * rho[::-1] ** 2).reshape(ref.shape3)
        judge(mon, ref, flat(jnp.array(rho)), src, pol, 'transformed parameters')
    mon.event('solves')


def three_d(rng, mon, size):
    f, ref, shape, spacing, args, boundary, material = setting(rng, 3, boundary=None if size % 4 == 0 else ['periodic', 'bloch'][size % 2])
    src, kind = source(rng, (3,) + shape)
    mon.case(True, shape=str(shape), boundary=boundary, material=material, source=kind)
    keep = src.copy()
    out = f.solve(src)
    judge(mon, ref, out, src, '3d', '3d solution')
    mon.check(np.array_equal(src, keep), 'the source is not changed')
    mon.close(f.e2h(out[0]), out[1], 1e-10, 'e2h gives the magnetic field', scale=np.abs(out[1]).max() + 1e-300)
    eps = ref.eps_t()
    # away from the source the electric field follows from the curl of the magnetic field as well
    r = -ref.curl(out[1], True) * 1j * ref.k0 - ref.k0 ** 2 * eps * out[0]
    mon.small(np.where(src == 0, r, 0) / (np.abs(r).max() + (ref.k0 ** 2 * np.abs(eps) * np.abs(out[0])).max()
                                         + (8 * sum(1 / np.array(ref.h) ** 2)) * np.abs(out[0]).max()), TOL, 'fields away from the source')
    if size % 3 == 0:
        mon.raises(ValueError, lambda: f.solve(src[0]), 'a source of another size is refused')
    mon.event('solves')


def iterative(rng, mon, size):
    """Solvers that iterate, on absorbing systems (where they converge), at their own tolerance."""
    shape = random_shape(rng, 3, 3, 7)
    spacing = random_spacing(rng, 3, 0.05, 0.2)
    bloch = 0.0 if rng.integers(2) else tuple(float(b) for b in rng.uniform(-3, 3, 3))
    wavelength = float(rng.uniform(0.4, 1.0))
    eps = -rng.uniform(1, 4, shape)
    h = as_tuple(spacing, 3)
    f = FDFD(tuple(n * d for n, d in zip(shape, h)), spacing, wavelength=wavelength, eps=eps, bloch_phase=bloch)
    ref = Reference(shape, spacing, eps, bloch, 2 * np.pi / wavelength)
    src, kind = source(rng, (3,) + shape, 'dense')
    mon.case(True, shape=str(shape), bloch=bloch != 0, which=size % 3)
    which = size % 3
    if which == 2:
        out = f.get_fields_fn(src)(jnp.array(eps))
    else:
        out = f.solve(src, iterative=1 + which)
    want = f.solve(src)
    judge(mon, ref, want, src, '3d', 'direct solution')
    what = ('gmres', 'bicgstab', 'jax')[which]
    out = np.asarray(out)
    mon.close(out[0], want[0], 2e-3, f'{what}: electric field', scale=np.abs(want[0]).max())
    mon.close(-1j * ref.k0 * out[1], ref.curl(out[0], False), TOL, f'{what}: magnetic field of the electric field',
              scale=np.abs(out[0]).max() * 4 / min(h))
    mon.event('solves')


def operators(rng, mon, size):
    """The operators themselves act as the equations do."""
    f, ref, shape, spacing, args, boundary, material = setting(rng, 1 + size % 3)
    mon.case(True, shape=str(shape), boundary=boundary, material=material)
    k0, eps = ref.k0, ref.eps_t()
    inv = sum(1 / np.array([d for d, n in zip(ref.h, ref.shape3) if n > 1]) ** 2)
    v = np.zeros((3,) + ref.shape3, dtype=complex)
    z = field(rng, ref.shape3)
    v[2] = z
    if f.ndim == 3:
        w = field(rng, v.shape)
        want = ref.curl(ref.curl(w, False), True) - k0 ** 2 * eps * w
        mon.close((f.mat @ w.ravel()).reshape(w.shape), want, 1e-11, 'operator in 3d', scale=(8 * inv + k0 ** 2 * np.abs(eps).max()) * 5)
        mon.close((f.A @ w.ravel()).reshape(w.shape), want, 1e-11, 'operator A in 3d', scale=(8 * inv + k0 ** 2 * np.abs(eps).max()) * 5)
    else:
        want = (ref.curl(ref.curl(v, False), True) - k0 ** 2 * eps * v)[2]
        mon.close((f.mat_ez @ z.ravel()).reshape(z.shape), want, 1e-11, 'operator for ez', scale=(8 * inv + k0 ** 2 * np.abs(eps).max()) * 5)
        want = tm_residual(ref, z, 0, eps)
        mon.close((f.mat_hz @ z.ravel()).reshape(z.shape), want, 1e-11, 'operator for hz', scale=(8 * inv / np.abs(eps).min() + k0 ** 2) * 5)
        df, db = f.deriv_forward, f.deriv_backward
        op = TMOperator(df, db)
        t = rng.normal(size=f.n)
        for ax in range(f.ndim):
            entries, (i, j) = op.compile_operator_along_axis(ax)(jnp.array(t)), (op.x_indices, op.y_indices)[ax]
            got = sp.coo_matrix((np.asarray(entries), (np.asarray(i), np.asarray(j))), shape=(f.n, f.n))
            want = ref.backward(t.reshape(ref.shape3) * ref.forward(z, ax), ax)
            mon.close((got @ z.ravel()).reshape(z.shape), want, 1e-11, 'entries of the operator along an axis', scale=8 * inv * 20)
    mon.event('operators')


def converted(rng, mon, size):
    """A simulation made from a grid solves the same problem as one made directly."""
    ndim = 2
    f, ref, shape, spacing, args, boundary, material = setting(rng, ndim)
    wavelength = args.pop('wavelength')
    g = SimGrid(f.size, f.spacing if rng.integers(2) else spacing, pml_sep=int(rng.integers(1, 7)), **args)
    f2 = FDFD.from_simgrid(g, wavelength)
    mon.case(True, shape=str(shape), boundary=boundary, material=material)
    tm = bool(rng.integers(2))
    src, _ = source(rng, shape)
    judge(mon, ref, f2.solve(src, tm_2d=tm), src, 'tm' if tm else 'te', 'converted grid')
    mon.check(f2.pml_sep == g.pml_sep and f2.name == g.name, 'settings are kept')
    if 'pml' not in args:  # scaling all lengths by a factor leaves the fields of a suitably scaled source as they are
        k = float(rng.uniform(0.2, 5))
        f3 = FDFD(f.size * k, f.spacing * k, wavelength=wavelength * k, **args)
        a, b = f.solve(src, tm_2d=tm), f3.solve(src, tm_2d=tm)
        mon.close(b, a * k, 1e-5, 'scale invariance', scale=k * np.abs(a).max())
    mon.event('solves', 3)


def interfaces(rng, mon, size):
    """The known inconsistency of hz-polarised fields at interfaces (listed in known_findings.txt)."""
    f, ref, shape, spacing, args, boundary, material = setting(rng, 2, boundary='periodic')
    src, kind = source(rng, shape)
    e, h = f.solve(src, tm_2d=True)
    mon.case(True, shape=str(shape), material=material)
    s = np.zeros_like(h)
    s[2] = src.reshape(ref.shape3)
    inv = sum(1 / np.array([d for d, n in zip(ref.h, ref.shape3) if n > 1]) ** 2) if max(ref.shape3) > 1 else 1.0
    scale = (4 * inv / np.abs(ref.eps_t()).min() + ref.k0 ** 2) * np.abs(h).max() + np.abs(ref.k0 * s).max()
    r = 1j * ref.k0 * ref.curl(e, False) - ref.k0 ** 2 * h - ref.k0 * s
    mon.small(r[2] / scale, TOL, 'induction law of hz-polarised fields at interfaces')


SCENARIOS = [('interfaces', interfaces, 7, 20), ('numpy_2d', numpy_2d, 120, 1500), ('jax_2d', jax_2d, 42, 400), ('three_d', three_d, 35, 260),
             ('iterative', iterative, 21, 150), ('operators', operators, 60, 600), ('converted', converted, 35, 300)]
