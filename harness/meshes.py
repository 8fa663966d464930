"""Workload generators and the independent reference model for photonic meshes."""
import numpy as np
from scipy.stats import unitary_group

from simphox.circuit import CouplingNode, ForwardMesh, PhaseStyle, rectangular
from simphox.circuit.matrix import tree_cascade, triangular
from simphox.circuit.vector import butterfly, tree

STYLES = ('top', 'bottom', 'symmetric', 'differential')
KINDS = ('rectangular', 'triangular', 'tree_cascade', 'tree', 'chain', 'butterfly', 'random', 'rails')


def haar(rng, n):
    return unitary_group.rvs(n, random_state=rng.integers(2 ** 31)) if n > 1 else np.exp(1j * rng.uniform(0, 7, (1, 1)))


def unitary(rng, n):
    """Unitaries of every kind: generic, real, permutations, diagonal, identity, block diagonal, DFT, nearly identity."""
    kind = rng.choice(['haar', 'haar', 'haar', 'orthogonal', 'permutation', 'diagonal', 'identity', 'block', 'dft',
                       'near', 'flip', 'signed'])
    if kind == 'haar':
        u = haar(rng, n)
    elif kind == 'orthogonal':
        u = np.linalg.qr(rng.normal(size=(n, n)))[0] + 0j
    elif kind == 'permutation':
        u = np.eye(n)[rng.permutation(n)] + 0j
    elif kind == 'signed':
        u = np.eye(n)[rng.permutation(n)] * rng.choice([1, -1, 1j], n)
    elif kind == 'diagonal':
        u = np.diag(np.exp(1j * rng.uniform(0, 2 * np.pi, n)))
    elif kind == 'identity':
        u = np.eye(n) + 0j
    elif kind == 'flip':
        u = np.eye(n)[::-1] + 0j
    elif kind == 'block':
        k = int(rng.integers(1, n))
        u = np.zeros((n, n), complex)
        u[:k, :k], u[k:, k:] = haar(rng, k), haar(rng, n - k)
    elif kind == 'dft':
        u = np.fft.fft(np.eye(n)) / np.sqrt(n)
    else:
        h = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        w, v = np.linalg.eigh((h + h.conj().T) * 1e-3)
        u = v @ np.diag(np.exp(1j * w)) @ v.conj().T
    return u, str(kind)


def vector(rng, n):
    kind = rng.choice(['generic', 'generic', 'generic', 'zeros', 'basis', 'real', 'negative', 'tiny', 'unnormalized'])
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    if kind == 'zeros':
        v[rng.permutation(n)[:int(rng.integers(1, n))]] = 0
    elif kind == 'basis':
        v = np.eye(n)[rng.integers(n)] * np.exp(1j * rng.uniform(0, 7))
    elif kind == 'real':
        v = np.abs(v) + 0j
    elif kind == 'negative':
        v = v.real + 0j
    elif kind == 'tiny':
        v[rng.integers(n)] *= 1e-4
    elif kind == 'unnormalized':
        return v * 10 ** rng.uniform(*((-2, 2) if rng.integers(2) else (-14, 14))), str(kind)
    return v / np.linalg.norm(v), str(kind)


def random_nodes(rng, n):
    """Nodes on random rail pairs in random columns, listed in random order with permuted ids."""
    ncol = int(rng.integers(1, 5))
    nodes, k = [], 0
    for c in range(ncol):
        rails = rng.permutation(n)
        for j in range(int(rng.integers(1, n // 2 + 1))):
            a, b = sorted((int(rails[2 * j]), int(rails[2 * j + 1])))
            nodes.append((a, b, c))
    ids = rng.permutation(len(nodes))
    order = rng.permutation(len(nodes))
    return [CouplingNode(node_id=int(ids[i]), n=n, top=nodes[i][0], bottom=nodes[i][1], column=nodes[i][2])
            for i in order]


def build(rng, kind, n, style, bs_std=0.0, loss_db=0.0, equal=False):
    """A mesh with random parameters and independent left/right errors and theta/phi losses at every node."""
    if kind == 'rectangular':
        nodes = rectangular(haar(rng, n)).nodes
    elif kind == 'triangular':
        nodes = triangular(haar(rng, n)).nodes
    elif kind == 'tree_cascade':
        nodes = tree_cascade(haar(rng, n)).nodes
    elif kind == 'tree':
        nodes = tree(n).nodes
    elif kind == 'chain':
        nodes = tree(n, balanced=False).nodes
    elif kind == 'butterfly':
        nodes = butterfly(n).nodes
    elif kind == 'rails':
        nodes = tree(n, n_rails=n + int(rng.integers(1, 4))).nodes
    else:
        nodes = random_nodes(rng, n)
    for node in nodes:
        l, r = bs_std * rng.normal(size=2)
        node.bs_error = (float(l), float(l if equal else r))
        node.loss = tuple(float(x) for x in -loss_db * rng.uniform(0, 1, 2))
    mesh = ForwardMesh(nodes, phase_style=PhaseStyle(style))
    m = len(nodes)
    mesh.params = (rng.uniform(0, np.pi, m), rng.uniform(0, 2 * np.pi, m), rng.uniform(0, 2 * np.pi, mesh.n))
    if rng.integers(3) == 0:  # phases beyond one period
        mesh.params = tuple(p + 2 * np.pi * rng.integers(-1, 2, p.size) for p in mesh.params)
    return mesh


def ref_node(theta, phi, node, style):
    """The 2x2 transfer matrix of one node from the documented model, in double precision."""
    (l, r), (tl, pl) = node.bs_error, node.loss

    def dc(e):
        return np.array([[np.cos(np.pi / 4 + e), 1j * np.sin(np.pi / 4 + e)],
                         [1j * np.sin(np.pi / 4 + e), np.cos(np.pi / 4 + e)]])
    at, ap = 10 ** (tl / 20), 10 ** (pl / 20)
    et, ep = np.exp(1j * theta), np.exp(1j * phi)
    if style == 'top':
        return dc(r) @ np.diag([at * et, 1]) @ dc(l) @ np.diag([ap * ep, 1])
    if style == 'bottom':
        return dc(r) @ np.diag([1, at * et]) @ dc(l) @ np.diag([1, ap * ep])
    if style == 'symmetric':
        return ap * np.exp(1j * (phi - theta / 2)) * (dc(r) @ np.diag([at * et, 1]) @ dc(l))
    return ap * np.exp(-1j * theta / 2) * (dc(r) @ np.diag([at * et, 1]) @ dc(l)
                                           @ np.diag([np.exp(-1j * phi / 2), np.exp(1j * phi / 2)]))


def ref_columns(mesh, params=None):
    """Transfer matrix of every column, in order of propagation."""
    thetas, phis, _ = mesh.params if params is None else params
    cols = {}
    for node in mesh.nodes:
        u = cols.setdefault(node.column, np.eye(mesh.n, dtype=complex))
        t = ref_node(thetas[node.node_id], phis[node.node_id], node, PhaseStyle(mesh.phase_style).value)
        rows = u[[node.top, node.bottom]]
        u[[node.top, node.bottom]] = t @ rows
    return [cols[c] for c in sorted(cols)]


def ref_matrix(mesh, params=None):
    u = np.eye(mesh.n, dtype=complex)
    for c in ref_columns(mesh, params):
        u = c @ u
    gammas = np.asarray((mesh.params if params is None else params)[2])
    return np.exp(1j * gammas)[:, None] * u


def size_for(rng, kind, lo=2, hi=9):
    n = int(rng.integers(lo, hi))
    if kind == 'butterfly':
        n = int(2 ** rng.integers(1, 4))
    return max(n, 2)
