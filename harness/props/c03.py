"""Every way of evaluating a mesh agrees with the node-by-node product of its documented MZI model."""
import jax.numpy as jnp
import numpy as np

from harness.meshes import KINDS, STYLES, build, haar, ref_columns, ref_matrix, ref_node, size_for
from simphox.circuit import CouplingNode, ForwardMesh, rectangular
from simphox.circuit.coupling import PhaseStyle
from simphox.circuit.rectangular import rectangular_rows

TOL = 2e-5
RULE = ('meshes of 8 architectures (generated by the real builders, plus random node lists with permuted ids and order) '
        'x 4 phase styles x random errors/losses/inputs; non-trivial: at least two nodes and parameters away from 0; '
        'distinct by architecture, style, rails, node count, input form and error class')
ASSUMPTIONS = ['single-precision defaults of the mesh functions: agreement within 2e-5',
               'reference model: left coupler, theta, right coupler as documented, evaluated in double precision']


def _inputs(rng, n):
    form = str(rng.choice(['vector', 'column', 'batch', 'real', 'int', 'complex64']))
    z = rng.normal(size=(n, int(rng.integers(1, 5)))) + 1j * rng.normal(size=(n, 1))
    x = {'vector': z[:, 0], 'column': z[:, :1], 'batch': z, 'real': z.real, 'int': np.round(3 * z.real).astype(int),
         'complex64': z.astype(np.complex64)}[form]
    return form, x


def consistency(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], STYLES[(size // len(KINDS)) % len(STYLES)]
    err = float(rng.choice([0, 0, 0.02, 0.2, 0.6]))
    loss = float(rng.choice([0, 0, 0.3, 3.0]))
    m = build(rng, kind, size_for(rng, kind), style, err, loss)
    form, x = _inputs(rng, m.n)
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, form=form, err=err, loss=loss)
    ref = ref_matrix(m)
    want = ref @ (x[:, None] if x.ndim == 1 else x)
    s = max(1, np.abs(want).max())
    keep, pkeep = x.copy(), [np.array(p) for p in m.params]
    mon.close(m.matrix(), ref, TOL, 'matrix of the mesh')
    mon.close(m.matrix_fn()(m.params, x), want, TOL, 'numpy outputs', scale=s)
    mon.close(m.matrix_fn(use_jax=True)(tuple(map(jnp.array, m.params)), jnp.array(x)), want, TOL, 'jax outputs', scale=s)
    back = ref.T @ (x[:, None] if x.ndim == 1 else x)
    mon.close(m.matrix_fn(back=True)(m.params, x), back, TOL, 'numpy backward outputs', scale=s)
    mon.close(m.matrix_fn(use_jax=True, back=True)(tuple(map(jnp.array, m.params)), jnp.array(x)), back, TOL,
              'jax backward outputs', scale=s)
    mon.check(np.array_equal(x, keep), 'inputs are not changed')
    mon.check(all(np.array_equal(a, b) for a, b in zip(m.params, pkeep)), 'parameters are not changed')
    # other parameters than the stored ones
    p2 = (rng.uniform(0, np.pi, m.num_nodes), rng.uniform(-7, 7, m.num_nodes), rng.uniform(0, 7, m.n))
    mon.close(m.matrix(p2), ref_matrix(m, p2), TOL, 'matrix for given parameters')
    mon.close(m.matrix(), ref, TOL, 'matrix is unchanged by an evaluation with other parameters')
    # linearity observed on the outputs
    if form == 'batch':
        fn = m.matrix_fn()
        a, b = rng.normal(size=2) + 1j * rng.normal(size=2)
        y = rng.normal(size=x.shape)
        mon.close(fn(m.params, a * x + b * y), a * fn(m.params, x) + b * fn(m.params, y), TOL, 'linearity', scale=3 * s)
    mon.event('columns', m.num_columns)
    mon.event('nodes', m.num_nodes)


def propagation(rng, mon, size):
    kind, style = KINDS[size % len(KINDS)], ('top', 'bottom', 'symmetric', 'differential')[(size // len(KINDS)) % 4]
    err, loss = float(rng.choice([0, 0.05, 0.3])), float(rng.choice([0, 0, 1.0]))
    m = build(rng, kind, size_for(rng, kind), style, err, loss)
    k = int(rng.integers(2, 4))
    x = rng.normal(size=(m.n, k)) + 1j * rng.normal(size=(m.n, k))
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, cols=k, err=err, loss=loss)
    cols, ref = ref_columns(m), ref_matrix(m)
    phase = np.exp(1j * m.params[2])[:, None]
    s = np.abs(x).max() * np.sqrt(m.n)
    steps = m.propagate(x, explicit=False)
    if mon.check(len(steps) == m.num_columns + 2, 'one record per column', got=len(steps), want=m.num_columns + 2):
        out = x
        mon.close(steps[0], x, TOL, 'first record is the input', scale=s)
        for j, c in enumerate(cols):
            out = c @ out
            mon.close(steps[j + 1], out, TOL, 'record after each column', scale=s)
        mon.close(steps[-1], phase * out, TOL, 'last record is the output', scale=s)
    b = m.propagate(x, back=True, explicit=False)
    if mon.check(len(b) == m.num_columns + 2, 'one backward record per column'):
        out = phase * x
        mon.close(b[1], out, TOL, 'backward propagation passes the output phases first', scale=s)
        for j, c in enumerate(cols[::-1]):
            out = c.T @ out
            mon.close(b[j + 2], out, TOL, 'backward record after each column', scale=s)
    # cutting the propagation at a column gives the product of the columns before it
    cut = int(rng.integers(0, m.num_columns))
    part = m.propagate(x, column_cutoff=cut, explicit=False)
    out = x
    for c in cols[:cut]:
        out = c @ out
    mon.close(part[-1], out, TOL, 'propagation up to a column', scale=s)
    jsteps = m.propagate_matrix_fn(explicit=False, use_jax=True)(inputs=jnp.array(x))
    mon.close(np.asarray(jsteps), steps, TOL, 'jax records', scale=s)
    if style in ('top', 'bottom'):
        for back, r in ((False, ref), (True, ref.T)):
            e = m.propagate(x, back=back, explicit=True)
            mon.close(e[0], x, TOL, 'first explicit record is the input', scale=s)
            mon.close(e[-1], r @ x, TOL, 'last explicit record is the output', scale=s)
            j = m.propagate_matrix_fn(back=back, explicit=True, use_jax=True)(inputs=jnp.array(x))
            mon.close(np.asarray(j), e, TOL, 'explicit jax records', scale=s)
            mon.event('explicit records', len(e))
    mon.close(m.propagate(explicit=False)[-1], ref, TOL, 'propagation of the identity')
    mon.event('columns', m.num_columns)


def embedding(rng, mon, size):
    """Node matrices, errors set on the whole mesh, aggregation and shifted copies."""
    style = STYLES[size % 4]
    kind = KINDS[(size // 4) % len(KINDS)]
    m = build(rng, kind, size_for(rng, kind, 3), style, 0.1, 1.0)
    form = str(rng.choice(['scalar', 'per node', 'left/right', 'with right']))
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, nodes=m.num_nodes, form=form)
    # the nodes of a mesh with new mean errors have these errors in the order of the node list
    k = m.num_nodes
    e = {'scalar': 0.07, 'per node': rng.normal(size=k) * .1, 'left/right': rng.normal(size=(k, 2)) * .1, 'with right': 0.03}[form]
    right = rng.normal(size=k) * .1 if form == 'with right' else None
    lo = float(rng.choice([0, -0.7]))
    m2 = m.add_error_mean(e, lo, right) if right is not None else m.add_error_mean(e, lo)
    full = np.array(e if np.ndim(e) == 2 else np.stack([e * np.ones(k)] * 2, 1))
    if right is not None:
        full[:, 1] = right
    mon.close(np.array([nd.bs_error for nd in m2.nodes]), full, 1e-12, 'mean errors of the nodes')
    mon.close(np.array([nd.loss for nd in m2.nodes]), np.full((k, 2), lo), 1e-12, 'mean losses of the nodes')
    mon.close(m2.matrix(), ref_matrix(m2), TOL, 'matrix with mean errors')
    for a, b in zip(m.params, m2.params):
        mon.close(b, a, 0, 'parameters are kept when errors are set')
    eq = bool(rng.integers(2))
    m3 = m.add_error_variance(0.05, 0.1, equal_splitter_error=eq)
    mon.close(m3.matrix(), ref_matrix(m3), TOL, 'matrix with random errors')
    d = np.array([nd.bs_error for nd in m3.nodes]) - np.array([nd.bs_error for nd in m.nodes])
    mon.check(np.abs(d).max() > 0 and (not eq or np.allclose(d[:, 0], d[:, 1])), 'random errors are added, equal if asked for')
    # single node matrices (top phase shifter model) embedded in the rails
    node = m.nodes[int(rng.integers(k))]
    th, ph = rng.uniform(0, 7, 2)
    (l, r), (tl, pl) = node.bs_error, node.loss
    dc = lambda x: np.array([[np.cos(np.pi / 4 + x), 1j * np.sin(np.pi / 4 + x)], [1j * np.sin(np.pi / 4 + x), np.cos(np.pi / 4 + x)]])
    want = dc(r) @ np.diag([10 ** (tl / 20) * np.exp(1j * th), 1]) @ dc(l) @ np.diag([10 ** (pl / 20) * np.exp(1j * ph), 1])
    mon.close(node.mzi_node_matrix(th, ph, embed=False), want, 1e-10, 'node matrix')
    big = np.eye(m.n, dtype=complex)
    big[np.ix_([node.top, node.bottom], [node.top, node.bottom])] = want
    mon.close(node.mzi_node_matrix(th, ph), big, 1e-10, 'embedded node matrix')
    # the matrix elements of all nodes at once, in the order of their numbers
    named = str(rng.choice(STYLES)) if rng.integers(2) else None
    back, use_jax = bool(rng.integers(2)), bool(rng.integers(2))
    given = [rng.uniform(-7, 7, k) if rng.integers(2) else None for _ in range(2)]
    els = m.parallel_mzi(*(g if g is None or not use_jax else jnp.array(g) for g in given), use_jax=use_jax, back=back,
                         **({} if named is None else dict(phase_style=PhaseStyle(named))))
    ths, phs = (p if g is None else g for p, g in zip(m.params, given))
    refs = np.stack([ref_node(ths[nd.node_id], phs[nd.node_id], nd, named or style) for nd in sorted(m.nodes, key=lambda nd: nd.node_id)])
    refs = refs.transpose(0, 2, 1) if back else refs
    for el, (i, j) in zip(els, ((0, 0), (1, 0), (0, 1), (1, 1))):
        mon.close(np.asarray(el), refs[:, i, j], TOL, 'matrix elements of all nodes')
    # meshes of the same rails put together: matrices multiply
    if m.n <= 8:
        import copy
        other = build(rng, 'random', m.n, style, 0.1, 0.5)
        a, b = copy.deepcopy(m), copy.deepcopy(other)
        b.offset_column(a.num_columns).offset(a.num_nodes)
        both = ForwardMesh.aggregate([a, b])
        mon.check(both.phase_style == m.phase_style, 'aggregation keeps the phase style')
        ths = rng.uniform(0, np.pi, both.num_nodes)
        phs = rng.uniform(0, 7, both.num_nodes)
        both.params = (ths, phs, rng.uniform(0, 7, both.n))
        mon.close(both.matrix(), ref_matrix(both), TOL, 'matrix of an aggregated mesh')
        mon.check(both.num_nodes == m.num_nodes + other.num_nodes, 'aggregation keeps all nodes')
        mon.event('aggregations')


def nodes(rng, mon, size):
    """The matrices of single nodes and the nulling of a vector by a single node."""
    n = int(rng.integers(2, 8))
    top, bottom = (int(x) for x in rng.permutation(n)[:2])
    err = rng.normal(size=2) * float(rng.choice([0, 0.1, 0.5]))
    loss = -np.abs(rng.normal(size=2)) * float(rng.choice([0, 1.0]))
    scalar = bool(rng.integers(2))
    if scalar:
        err[1] = err[0]
    node = CouplingNode(n=n, top=top, bottom=bottom, bs_error=float(err[0]) if scalar else tuple(err), loss=tuple(loss))
    mon.case(True, n=n, top=top, bottom=bottom, err=bool(err.any()), loss=bool(loss.any()), scalar=scalar)
    th, ph, s = rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(0, 1)

    def embed(mat):
        big = np.eye(n, dtype=complex)
        big[np.ix_([top, bottom], [top, bottom])] = mat
        return big

    def dc(x):
        c, d = np.cos(np.pi / 4 + x), np.sin(np.pi / 4 + x)
        return np.array([[c, 1j * d], [1j * d, c]])
    mon.close(node.dc(), dc(err[0]), 1e-12, 'left coupler')
    mon.close(node.dc(right=True), dc(err[1]), 1e-12, 'right coupler')
    il, ir = 10 ** (loss / 20)
    mzi = dc(err[1]) @ np.diag([il * np.exp(1j * th), 1]) @ dc(err[0]) @ np.diag([ir * np.exp(1j * ph), 1])
    mon.close(node.mzi_node_matrix(th, ph), embed(mzi), 1e-12, 'interferometer')
    mon.close(node.mzi_node_matrix(th, ph, embed=False), mzi, 1e-12, 'interferometer')
    c, d = np.cos((th + err[0]) / 2), np.sin((th + err[0]) / 2)
    mmi = np.diag([il, 1]) @ np.array([[c, 1j * d], [1j * d, c]]) @ np.diag([np.exp(1j * ph), 1])
    if not loss.any():
        mon.close(node.mmi_node_matrix(th, ph), embed(mmi), 1e-12, 'multimode interferometer')
        mon.close(node.mmi_node_matrix(th, ph, embed=False), mmi, 1e-12, 'multimode interferometer')
    else:
        got = node.mmi_node_matrix(th, ph, embed=False)
        mon.check(np.linalg.norm(got, 2) <= 1 + 1e-9, 'lossy multimode interferometer does not amplify', norm=np.linalg.norm(got, 2))
    ideal = node.ideal_node(s, ph)
    mon.close(ideal @ ideal.conj().T, np.eye(n), 1e-12, 'ideal node is unitary')
    mon.close(np.abs(ideal[bottom, top]) ** 2, s, 1e-12, 'cross split ratio of the ideal node')
    mon.close(ideal[np.ix_([top, bottom], [top, bottom])],
              np.array([[np.sqrt(1 - s), np.sqrt(s)], [np.sqrt(s), -np.sqrt(1 - s)]]) * np.array([[np.exp(1j * ph)], [1]]), 1e-12, 'ideal node')
    a, b = rng.uniform(-4, 4, 2)
    mon.close(node.phase_matrix(a, b), embed(np.diag(np.exp(1j * np.array([a, b])))), 1e-12, 'phase shifters of a node')
    cc, cs = np.cos(np.pi / 4 + err[1]) * np.cos(np.pi / 4 + err[0]), np.cos(np.pi / 4 + err[1]) * np.sin(np.pi / 4 + err[0])
    sc, ss = np.sin(np.pi / 4 + err[1]) * np.cos(np.pi / 4 + err[0]), np.sin(np.pi / 4 + err[1]) * np.sin(np.pi / 4 + err[0])
    mon.close(np.array(node.mzi_terms), np.array([cc, cs, sc, ss]), 1e-12, 'coupler terms')
    # nulling of the lower of two neighbouring rails
    i = int(rng.integers(n - 1))
    null = CouplingNode(n=n, top=i, bottom=i + 1)
    v = rng.normal(size=n) + 1j * rng.normal(size=n)
    keep = v.copy()
    w, mat, theta, phi = null.nullify(v, i)
    mon.check(np.array_equal(v, keep), 'the vector to null is not changed')
    mon.small(w[i + 1], 1e-9, 'the lower rail is dark')
    mon.close(np.abs(w[i]) ** 2, np.sum(np.abs(v[i:i + 2]) ** 2), 1e-9, 'its power is on the upper rail')
    mon.close(mat @ v, w, 1e-12, 'the returned matrix nulls')
    mon.close(null.mzi_node_matrix(theta, phi), mat, 1e-12, 'the returned phases are those of the matrix')
    mon.check(0 <= theta < 2 * np.pi and 0 <= phi < 2 * np.pi, 'phases are in their range')


def gaps(rng, mon, size):
    """Meshes with columns in which there is no node: parts of circuits, shifted circuits, diagonals of rectangular meshes."""
    style = STYLES[size % 4]
    kind = KINDS[(size // 4) % len(KINDS)]
    base = build(rng, kind, size_for(rng, kind, 3), style, float(rng.choice([0, 0.2])), float(rng.choice([0, 1.0])))
    how = str(rng.choice(['spread', 'shift', 'part']))
    if how == 'spread':
        for nd in base.nodes:
            nd.column = 2 * nd.column + 1
        kept = base.nodes
    elif how == 'shift':
        base.offset_column(int(rng.integers(1, 4)))
        kept = base.nodes
    else:
        kept = [nd for nd in base.nodes if nd.column % 2 or nd.column == base.num_columns - 1]
        for k, nd in enumerate(kept):
            nd.node_id = k
    m = ForwardMesh(list(kept), phase_style=base.phase_style)
    k = m.num_nodes
    m.params = (rng.uniform(0, np.pi, k), rng.uniform(0, 7, k), rng.uniform(0, 7, m.n))
    ref = ref_matrix(m)
    x = rng.normal(size=(m.n, 2)) + 1j * rng.normal(size=(m.n, 2))
    s = np.abs(x).max() * np.sqrt(m.n)
    mon.case(k > 1, kind=kind, style=style, how=how, n=m.n, nodes=k)
    mon.close(m.matrix(), ref, TOL, 'matrix with empty columns')
    mon.close(m.matrix(back=True), ref.T, TOL, 'backward matrix with empty columns')
    mon.close(m.matrix_fn(use_jax=True)(tuple(map(jnp.array, m.params)), jnp.array(x)), ref @ x, TOL, 'jax outputs with empty columns', scale=s)
    mon.close(m.propagate(x, explicit=False)[-1], ref @ x, TOL, 'propagation with empty columns', scale=s)
    mon.check(sum(c.num_nodes for c in m.columns) == k, 'every node is in a column')
    if style in ('top', 'bottom'):
        mon.close(m.propagate(x)[-1], ref @ x, TOL, 'explicit propagation with empty columns', scale=s)
    if size % 4 == 0:
        n = 2 * int(rng.integers(1, 5))
        full = rectangular(haar(rng, n))
        rows = rectangular_rows(full)
        got = sorted((nd.top, nd.bottom, nd.column) for r in rows for nd in r.nodes)
        mon.check(got == sorted((nd.top, nd.bottom, nd.column) for nd in full.nodes), 'diagonals cover a rectangular mesh', got=got)
        for r in rows:
            mon.close(r.matrix(), ref_matrix(r), TOL, 'matrix of a diagonal')
    ordered = m.column_ordered
    mon.check([nd.column for nd in ordered.nodes] == sorted(nd.column for nd in m.nodes), 'order of the nodes by column')
    mon.close(ordered.matrix(m.params), ref, TOL, 'matrix of the nodes in order of columns')


SCENARIOS = [('consistency', consistency, 96, 900), ('propagation', propagation, 64, 700), ('embedding', embedding, 48, 400), ('nodes', nodes, 60, 900),
             ('gaps', gaps, 40, 400)]
