"""Self-configuration of vector units: the programmed tree sends its vector to a single output."""
import numpy as np

from harness.meshes import haar, ref_matrix, vector
from simphox.circuit.coupling import PhaseStyle
from simphox.circuit.forward import ForwardMesh
from simphox.circuit.vector import balanced_tree, tree, unbalanced_tree, vector_unit

TOL = 2e-5
RULE = ('vectors (generic, with zeros, basis vectors, real, negative, tiny entries, unnormalised) and matrices x balanced '
        'trees and chains x phase styles x extra rails x left/right coupler errors x uniform losses; non-trivial: at least '
        'two non-zero entries; distinct by topology, style, vector kind, size, rails and error class')
ASSUMPTIONS = ['single-precision default of the mesh matrix: agreement within 2e-5 of the norm of the vector',
               'with coupler errors the promise holds when every node can reach the split ratio its inputs ask for']


def attainable(net, v):
    """Whether every node can null its upper output, given the powers that reach it (documented split range)."""
    p = np.zeros(net.n)
    p[:len(v)] = np.abs(v) ** 2
    ok, margin = True, 1.0
    for nd in sorted(net.nodes, key=lambda x: x.column):
        tot = p[nd.top] + p[nd.bottom]
        if tot > 0:
            l, r = nd.bs_error
            cs, sc = np.cos(np.pi / 4 + r) * np.sin(np.pi / 4 + l), np.sin(np.pi / 4 + r) * np.cos(np.pi / 4 + l)
            s = p[nd.top] / tot
            margin = min(margin, s - (cs - sc) ** 2, (cs + sc) ** 2 - s)
        p[nd.bottom], p[nd.top] = tot, 0
    return margin >= -1e-12, margin


def unit(rng, mon, size):
    n = 2 + size % (12 if size < 60 else 30)
    v, kind = vector(rng, n)
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(rng.integers(2))
    extra = int(rng.choice([0, 0, 0, 1, 3]))
    std = float(rng.choice([0, 0, 0.01, 0.05]))
    mean = float(rng.choice([0, 0.03])) if std else 0.0
    keep = v.copy()
    net, w = vector_unit(v, n_rails=n + extra if extra else None, balanced=balanced, phase_style=style,
                         bs_error_mean_std=(mean, std))
    ok, margin = attainable(net, v)
    mon.case(np.count_nonzero(v) > 1, kind=kind, style=style, n=n, balanced=balanced, extra=extra, std=std, mean=mean, ok=ok)
    mon.check(np.array_equal(v, keep), 'the vector is not changed')
    norm = np.linalg.norm(v)
    full = np.hstack((v, np.zeros(extra)))
    out = net.matrix_fn()(net.params, full)[:, 0]
    ref = ref_matrix(net) @ full
    mon.close(out, ref, TOL, 'mesh output of the unit', scale=norm)
    mon.check(net.n == n + extra and len(net.nodes) == n - 1, 'rails and nodes of the unit')
    depth = net.num_columns
    mon.check(depth == (int(np.ceil(np.log2(n))) if balanced else n - 1), 'depth of the tree', got=depth)
    if not ok:
        mon.event('not attainable')
        return
    mon.event('attainable')
    want = np.zeros(n + extra, complex)
    want[n - 1] = norm
    tol = TOL if margin > 1e-6 else 5e-4
    mon.close(out, want, tol, 'the vector ends up in phase at its output', scale=norm)
    mon.close(ref, want, tol, 'the vector ends up at its output (model)', scale=norm)
    mon.close(np.abs(w), np.abs(want[:n]), tol, 'reported output of the unit', scale=norm)
    # the same unit run backwards from its output generates the conjugated vector
    e = np.zeros(n + extra)
    e[n - 1] = 1
    mon.close(net.matrix_fn(back=True)(net.params, e)[:, 0], full.conj() / norm, tol, 'backwards it generates the vector')


def analyzer(rng, mon, size):
    n = int(rng.integers(2, 10))
    v, kind = vector(rng, n)
    v = v / np.linalg.norm(v)
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(size % 2)
    mon.case(np.count_nonzero(v) > 1, kind=kind, style=style, n=n, balanced=balanced)
    tree = (balanced_tree if balanced else unbalanced_tree)(v, phase_style=style)
    mon.close(tree.matrix()[-1], v, TOL, 'last row of the analyser is its vector')
    w = haar(rng, n)[0]
    mon.close(tree.matrix_fn()(tree.params, w)[-1, 0], v @ w, TOL, 'overlap measured at the last output')


def matrices(rng, mon, size):
    """A matrix is programmed by its last column; the other columns are only propagated."""
    n = int(rng.integers(2, 9))
    k = int(rng.integers(2, n + 1))
    u = haar(rng, n)[:, :k]
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(rng.integers(2))
    mon.case(True, style=style, n=n, k=k, balanced=balanced)
    net, w = vector_unit(u, balanced=balanced, phase_style=style)
    out = net.matrix() @ u
    mon.close(out[:, -1], np.eye(n)[-1], TOL, 'the last column ends up at the last output')
    mon.close(out[-1, :-1], np.zeros(k - 1), TOL, 'orthogonal columns do not reach that output')
    g = np.exp(1j * net.params[2])[:, None]
    mon.close(g * w.reshape(n, k), out, TOL, 'reported matrix after the unit')
    mon.close(out.conj().T @ out, np.eye(k), TOL, 'columns stay orthonormal')
    one, _ = vector_unit(u[:, -1].copy(), balanced=balanced, phase_style=style)
    for got, want in zip(net.params, one.params):
        mon.close(np.exp(1j * got), np.exp(1j * want), TOL, 'the unit of the last column')
    mon.close(net.pn, one.pn, TOL, 'powers after the nodes are those of the last column')
    mon.close(net.pnsn, one.pnsn, TOL, 'powers before the nodes are those of the last column')


def lossy(rng, mon, size):
    """With the same attenuation everywhere in a node the powers still end up in one output, attenuated."""
    n = int(rng.integers(2, 8))
    v, kind = vector(rng, n)
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(rng.integers(2))
    loss = -float(rng.uniform(0.05, 3))
    mon.case(np.count_nonzero(v) > 1, kind=kind, style=style, n=n, balanced=balanced, loss=round(loss, 1))
    net, w = vector_unit(v, balanced=balanced, phase_style=style, loss_mean_std=(loss, 0))
    out = net.matrix_fn()(net.params, v)[:, 0]
    mon.close(out, ref_matrix(net) @ v, TOL, 'mesh output of the lossy unit', scale=np.linalg.norm(v))
    mon.check(np.linalg.norm(out) <= np.linalg.norm(v) * (1 + TOL), 'a lossy unit has no gain')
    mon.check(all(np.allclose(nd.loss, loss) for nd in net.nodes), 'losses of the nodes')


def hardware(rng, mon, size):
    """A unit whose couplers all have errors of their own, programmed column by column with the fields that reach it."""
    n = 2 + size % 9
    v, kind = vector(rng, n)
    style = ('top', 'bottom', 'differential')[size % 3]
    balanced = bool(rng.integers(2))
    std = float(rng.choice([0.01, 0.05, 0.1]))
    nodes = tree(n, balanced=balanced).nodes
    for node in nodes:
        node.bs_error = tuple(float(e) for e in std * rng.normal(size=2))
    net = ForwardMesh(nodes, phase_style=PhaseStyle(style))
    net.params = (rng.uniform(0, np.pi, n - 1), rng.uniform(0, 2 * np.pi, n - 1), rng.uniform(0, 2 * np.pi, n))
    ok, margin = attainable(net, v)
    mon.case(np.count_nonzero(v) > 1, kind=kind, style=style, n=n, balanced=balanced, std=std, ok=ok)
    for nc in net.columns:
        field = net.propagate(v.copy(), column_cutoff=nc.column_by_node[0], explicit=False)[-1]
        theta, phi = nc.parallel_nullify(field, net.mzi_terms)
        mon.check(np.all(np.isfinite(theta)) and np.all(np.isfinite(phi)), 'phases of a column')
        net.thetas[nc.node_idxs], net.phis[nc.node_idxs] = theta, phi
    if not ok:
        mon.event('not attainable')
        return
    mon.event('attainable')
    norm = np.linalg.norm(v)
    want = np.eye(n)[-1] * norm
    mon.close(np.abs(ref_matrix(net) @ v), want, TOL if margin > 1e-6 else 5e-4, 'the vector ends up at its output despite errors', scale=norm)


SCENARIOS = [('unit', unit, 160, 2000), ('analyzer', analyzer, 48, 400), ('matrices', matrices, 40, 400), ('lossy', lossy, 24, 200),
             ('hardware', hardware, 60, 500)]
