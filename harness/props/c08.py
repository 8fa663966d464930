"""The Hessian of a vector unit is the second derivative of its error."""
import numpy as np

from harness.meshes import vector
from simphox.circuit.vector import balanced_tree, hessian_fd, hessian_vector_unit, unbalanced_tree

TOL = 2e-5
RULE = ('vectors (generic, real, negative, zeros, basis, tiny entries, unnormalised) x balanced and unbalanced trees of 2 to 63 rails, '
        'and finite differences of them up to 7 rails; distinct by topology, kind and size')
ASSUMPTIONS = ['the reference uses that the output is affine in the exponential of each phase, so it is exact to rounding']


def hessian(rng, mon, size):
    n = 2 + size % 8 if size % 4 else int(rng.integers(9, 40 if size < 60 else 64))
    v, kind = vector(rng, n)
    balanced = bool(rng.integers(2))
    mon.case(True, kind=kind, n=n, balanced=balanced)
    keep = v.copy()
    h = hessian_vector_unit(v, balanced=balanced)
    mon.check(np.array_equal(v, keep), 'the vector is not changed')
    v = v / np.linalg.norm(v)
    m = (balanced_tree if balanced else unbalanced_tree)(v)
    th, ph, ga = m.params
    k = n - 1
    x0 = np.hstack((th, ph))

    def out(x):
        """The last output for a batch of phases, node by node with the documented model of an ideal node."""
        w = np.repeat(v.conj()[None] + 0j, len(x), 0)
        for node in sorted(m.nodes, key=lambda node: node.column):
            et, ep = np.exp(1j * x[:, node.node_id]), np.exp(1j * x[:, k + node.node_id])
            a, b = w[:, node.top] * ep, w[:, node.bottom]
            w[:, node.top] = ((et - 1) * a + 1j * (et + 1) * b) / 2
            w[:, node.bottom] = (1j * (et + 1) * a + (1 - et) * b) / 2
        return np.exp(1j * ga[-1]) * w[:, -1]

    def d(f, i):  # the output is affine in the exponential of each phase
        e = np.eye(2 * k)[i] * np.pi
        return lambda x: 1j * (f(x) - f(x + e)) / 2
    e = np.eye(2 * k) * np.pi
    a, b = np.repeat(np.arange(2 * k), 2 * k), np.tile(np.arange(2 * k), 2 * k)
    terms = out(x0 + e[a]), out(x0 + e[b]), out(x0 + e[a] + e[b]), out(np.repeat(x0[None], len(a), 0))
    want = -2 * np.real(-(terms[3] - terms[0] - terms[1] + terms[2]) / 4).reshape(2 * k, 2 * k)
    second = [-2 * np.real(d(d(out, i), i)(x0[None]))[0] for i in range(2 * k)]
    want[np.diag_indices(2 * k)] = second
    mon.check(h.shape == want.shape, 'shape of the Hessian')
    mon.close(h, want, TOL, 'Hessian')
    mon.close(h, h.T, 1e-9, 'symmetry')
    mon.check(np.linalg.eigvalsh((h + h.T) / 2).min() > -1e-3, 'no descent direction at the programmed minimum')
    g = np.array([np.real(d(out, i)(x0[None]))[0] for i in range(2 * k)])
    mon.small(g, TOL, 'the programmed phases are stationary')
    mon.event('second derivatives', want.size)


def differences(rng, mon, size):
    """The Hessian by finite differences that is meant to confirm the analytic one."""
    n = 2 + size % 6
    v, kind = vector(rng, n)
    balanced = bool(rng.integers(2))
    mon.case(True, kind=kind, n=n, balanced=balanced)
    error = float(10 ** rng.uniform(-4, -2.5))
    keep = v.copy()
    h = hessian_fd(v, error=error, balanced=balanced)
    mon.check(np.array_equal(v, keep), 'the vector is not changed')
    mon.close(h, hessian_vector_unit(v, balanced=balanced), 1e-3, 'Hessian by finite differences')
    mon.event('second derivatives', h.size)


SCENARIOS = [('hessian', hessian, 56, 450), ('differences', differences, 12, 80)]
