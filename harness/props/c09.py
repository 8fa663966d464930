"""Matrix decompositions reconstruct their input."""
import numpy as np

from harness.meshes import haar, unitary, vector
from simphox.circuit.matrix import cs, csinv, dirichlet_matrix
from simphox.utils import normalized_error

RULE = ('unitaries of 10 kinds with even and odd size, vectors and matrix pairs; non-trivial: size above two or not '
        'diagonal; distinct by kind and size')
ASSUMPTIONS = ['double precision: agreement within 1e-8']


def cosine_sine(rng, mon, size):
    n = 2 + size % (12 if size < 100 else 30)
    u, kind = unitary(rng, n)
    mon.case(n > 2 or kind not in ('identity', 'diagonal'), n=n, kind=kind)
    keep = u.copy()
    l0, l1, r0, r1, theta = cs(u)
    mon.check(np.array_equal(u, keep), 'the unitary is not changed')
    mon.close(csinv(l0, l1, r0, r1, theta), u, 1e-8, 'reconstruction')
    k = n // 2
    mon.check(theta.shape == (k,) and theta.min() >= -1e-12 and theta.max() <= np.pi / 2 + 1e-12, 'phases in [0, pi/2]')
    for name, a, s in (('l0', l0, k), ('r0', r0, k), ('l1', l1, n - k), ('r1', r1, n - k)):
        mon.close(a.conj().T @ a, np.eye(s), 1e-8, f'{name} is unitary')
    # forward from chosen factors
    t = rng.uniform(0, np.pi / 2, k)
    w = csinv(haar(rng, k), haar(rng, n - k), haar(rng, k), haar(rng, n - k), t)
    mon.close(w.conj().T @ w, np.eye(n), 1e-8, 'composition is unitary')
    t2 = cs(w)[-1]
    mon.close(np.sort(t2), np.sort(t), 1e-7, 'composition is decomposed into the same phases')
    mon.event('decompositions', 2)


def dirichlet(rng, mon, size):
    n = int(rng.integers(2, 12))
    v, kind = vector(rng, n)
    extra = int(rng.choice([0, 0, 1, 3]))
    mon.case(np.count_nonzero(v) > 1, n=n, kind=kind, extra=extra)
    keep = v.copy()
    u = dirichlet_matrix(v, n + extra) if extra else dirichlet_matrix(v)
    mon.check(np.array_equal(v, keep), 'the vector is not changed')
    mon.close(u.conj().T @ u, np.eye(n + extra), 1e-8, 'completed basis is unitary')
    mon.close(u[:n, n - 1], v.conj() / np.linalg.norm(v), 1e-8, 'last column of the basis is the conjugated vector')
    if extra:
        mon.check(np.array_equal(u[n:, n:], np.eye(extra)) and not u[n:, :n].any() and not u[:n, n:].any(), 'embedding')
    mon.event('bases')


def fidelity(rng, mon, size):
    n = int(rng.integers(2, 8))
    u, kind = unitary(rng, n)
    jax = bool(size % 2)
    mon.case(True, n=n, kind=kind, jax=jax)
    err = normalized_error(u, use_jax=jax)
    tol = 1e-6
    mon.small(float(err(u)), tol, 'an exact match has no error')
    mon.small(float(err(u * np.exp(1j * rng.uniform(0, 7)))), tol, 'a global phase does not matter')
    mon.small(float(err(u * 10 ** rng.uniform(*((-2, 1) if rng.integers(2) else (-15, 15))))), tol, 'a global loss does not matter')
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    ov = abs(np.trace(u.conj().T @ a)) / (np.linalg.norm(a) * np.linalg.norm(u))
    mon.close(float(err(a)), np.sqrt(max(0, 1 - ov ** 2)), 1e-6, 'error is the sine of the angle between the matrices')
    e = float(err(a))
    mon.check(0 <= e <= 1 + 1e-9, 'error in [0, 1]')
    mon.close(float(normalized_error(a, use_jax=jax)(u)), e, 1e-6, 'the error is symmetric')


SCENARIOS = [('cosine_sine', cosine_sine, 120, 1500), ('dirichlet', dirichlet, 40, 300), ('fidelity', fidelity, 40, 300)]
