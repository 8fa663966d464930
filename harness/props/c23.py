"""Random initialisations follow the documented distributions."""
import numpy as np
from scipy import stats
from scipy.stats import unitary_group

from simphox.circuit.coupling import CouplingNode
from simphox.circuit.forward import ForwardMesh
from simphox.circuit.matrix import tree_cascade, triangular
from simphox.circuit.rectangular import rectangular
from simphox.circuit.vector import tree
from simphox.utils import beta_pdf, beta_phase, random_tensor, random_unitary, random_vector

RULE = ('networks of 2 to 9 modes, initialised hundreds to thousands of times; Kolmogorov-Smirnov tests of every entry of the vectors '
        'and matrices they produce against the marginals of the Haar measure, of phases against the uniform distribution, and moments '
        'of pairs of entries; distinct by kind and size of the network; non-trivial: at least 300 samples')
ASSUMPTIONS = ['a p-value below 1e-10 (or a moment off by eight standard errors) is a violation; with some ten thousand tests per run '
               'a correct program does not fail in practice',
               'linear chains are judged by the vector they send out from their first input']
P, SIGMAS = 1e-10, 8


def haar_power(mon, x, n, what):
    """Powers of the entries of uniformly distributed vectors with n entries follow Beta(1, n - 1)."""
    p = stats.kstest(x, 'beta', args=(1, n - 1)).pvalue if n > 1 else 1
    mon.check(p > P, what, p=p, n=n)


def uniform(mon, angles, what, top=2 * np.pi):
    p = stats.kstest(np.mod(angles, top), 'uniform', args=(0, top)).pvalue
    mon.check(p > P, what, p=p)


def draw(mesh, count, fresh=None):
    """Matrices of the mesh for random parameters, drawn by the mesh itself or by making new ones."""
    out, thetas = [], []
    fn = mesh.matrix_fn(use_jax=False)
    for _ in range(count):
        if fresh is None:
            params = mesh.rand_theta(), 2 * np.pi * np.random.rand(mesh.num_nodes), 2 * np.pi * np.random.rand(mesh.n)
        else:
            new = fresh()
            params = new.thetas, new.phis, new.gammas
        thetas.append(params)
        out.append(fn(params))
    return np.array(out), thetas


def ranges(mon, mesh, drawn):
    t, p, g = (np.array([d[i] for d in drawn]) for i in range(3))
    mon.check(t.shape[1:] == p.shape[1:] == (mesh.num_nodes,) and g.shape[1:] == (mesh.n,), 'one value per phase shifter')
    mon.check(np.all(np.isfinite(t)) and t.min() >= -1e-9 and t.max() <= np.pi + 1e-9, 'split phases in their range')
    mon.check(p.min() >= 0 and p.max() < 2 * np.pi and g.min() >= 0 and g.max() < 2 * np.pi, 'phases in their range')
    for i in range(mesh.num_nodes):
        uniform(mon, p[:, i], 'phases are uniform')
    for i in range(mesh.n):
        uniform(mon, g[:, i], 'output phases are uniform')
    # every node has a sample of its own
    if mesh.num_nodes > 1:
        s = np.cos(t / 2) ** 2
        ranks = np.argsort(np.argsort(s, axis=0), axis=0)
        for x, what in ((ranks, 'split ratios are independent'), (p, 'phases are independent')):
            c = np.corrcoef(np.array(x, dtype=float).T) - np.eye(x.shape[1])
            mon.small(np.abs(c).max() * np.sqrt(len(t)), SIGMAS, what)
        mon.check(all(len(np.unique(row)) == len(row) for row in t[:50]), 'every node has a sample of its own')
    mon.event('samples', len(t))


def trees(rng, mon, size):
    """The root of a balanced tree combines uniformly distributed vectors."""
    n = 2 + size % 8
    rails = n + int(rng.integers(0, 3)) * int(rng.integers(2))
    mesh = tree(n, rails if rails > n or rng.integers(2) else None)
    again = bool(rng.integers(2))
    mon.case(True, n=n, rails=rails, again=again)
    make = (lambda: tree(n, rails)) if again else None
    m, drawn = draw(mesh, 400 if again else 1500, make)
    root = n - 1
    row = m[:, root, :n]
    mon.close(np.linalg.norm(row, axis=1), np.ones(len(row)), 1e-6, 'the root combines the modes of the tree')
    for j in range(n):
        haar_power(mon, np.abs(row[:, j]) ** 2, n, 'vectors of a tree are uniform')
        uniform(mon, np.angle(row[:, j]), 'phases of vectors of a tree are uniform')
    pairs(mon, row, n, 'pairs of entries of vectors of a tree')
    ranges(mon, mesh, drawn)
    chain = tree(n, balanced=False)
    m, drawn = draw(chain, 800, (lambda: tree(n, balanced=False)) if again else None)
    for i in range(n):
        haar_power(mon, np.abs(m[:, i, 0]) ** 2, n, 'vectors sent out by a chain are uniform')
    ranges(mon, chain, drawn)


def pairs(mon, rows, n, what):
    """E |a|^2 |b|^2 = 1 / n (n + 1) for two entries of a uniform vector."""
    if n < 2:
        return
    p = np.abs(rows) ** 2
    for i in range(n):
        for j in range(i):
            x = p[:, i] * p[:, j]
            mon.small(abs(x.mean() - 1 / n / (n + 1)) / (x.std() / np.sqrt(len(x)) + 1e-12), SIGMAS, what)


def meshes(rng, mon, size):
    """Universal meshes with their random parameters are uniformly distributed unitaries."""
    kind = size % 2
    n = 2 + size // 2 % 6
    again = size % 5 == 4
    u = unitary_group.rvs(n, random_state=int(rng.integers(2 ** 31)))
    # what the mesh was programmed to before does not matter
    make = (lambda: tree_cascade(u)) if kind else (lambda: rectangular(u))
    mesh = make()
    mon.case(True, kind=('rectangular', 'trees')[kind], n=n)
    m, drawn = draw(mesh, 1200)
    mon.close(m @ m.conj().transpose(0, 2, 1), np.tile(np.eye(n), (len(m), 1, 1)), 1e-5, 'unitary')
    name = ('rectangular mesh', 'cascade of trees')[kind]
    for i in range(n):
        for j in range(n):
            haar_power(mon, np.abs(m[:, i, j]) ** 2, n, f'entries of a {name}')
            uniform(mon, np.angle(m[:, i, j]), f'phases of the entries of a {name}')
    for i in range(n):
        pairs(mon, m[:, i], n, f'rows of a {name}')
        pairs(mon, m[:, :, i], n, f'columns of a {name}')
    p = np.abs(m) ** 2
    for _ in range(6):
        (i, k), (j, l) = (rng.permutation(n)[:2] for _ in range(2))
        x = p[:, i, j] * p[:, k, l]
        mon.small(abs(x.mean() - 1 / (n * n - 1)) / (x.std() / np.sqrt(len(x)) + 1e-12), SIGMAS, f'distant entries of a {name}')
    t = np.abs(np.trace(m, axis1=1, axis2=2)) ** 2
    mon.small(abs(t.mean() - 1) / (t.std() / np.sqrt(len(t))), SIGMAS, f'trace of a {name}')
    ranges(mon, mesh, drawn)


def splits(rng, mon, size):
    """Split ratios follow the exponents of their nodes, also when the couplers have errors and the nodes any order."""
    n = int(rng.integers(2, 7))
    count = int(rng.integers(1, 7))
    ids = rng.permutation(count)
    nodes = []
    for i in range(count):
        a, b = sorted(int(x) for x in rng.permutation(n)[:2])
        nodes.append(CouplingNode(node_id=int(ids[i]), n=n, top=a, bottom=b, alpha=int(rng.integers(1, 7)), beta=int(rng.integers(1, 7)),
                                  column=i))
    mesh = ForwardMesh(nodes)
    mon.case(True, n=n, nodes=str([(x.node_id, x.alpha, x.beta) for x in nodes]))
    s = np.array([mesh.rand_s() for _ in range(1500)])
    mon.check(s.shape == (1500, count) and s.min() >= 0 and s.max() <= 1, 'split ratios are between 0 and 1')
    order = {x.node_id: x for x in mesh.nodes}
    # entry k of the parameters belongs to the node with the k-th id
    by_id = [order[k] for k in sorted(order)]
    for k, node in enumerate(by_id):
        p = stats.kstest(s[:, k], 'beta', args=(node.beta, node.alpha)).pvalue
        mon.check(p > P, 'split ratio of a node', p=p)
    t = np.array([mesh.rand_theta() for _ in range(1000)])
    mats = np.array([mesh.matrix_fn(use_jax=False)((x, np.zeros(count), np.zeros(n))) for x in t[:200]]) if count == 1 else None
    for k, node in enumerate(by_id):
        p = stats.kstest(np.cos(t[:, k] / 2) ** 2, 'beta', args=(node.beta, node.alpha)).pvalue
        q = stats.kstest(np.sin(t[:, k] / 2) ** 2, 'beta', args=(node.beta, node.alpha)).pvalue
        mon.check(max(p, q) > P, 'split phase of a node', p=p, q=q)
    if mats is not None:
        a, b = nodes[0].top, nodes[0].bottom
        cross = np.abs(mats[:, a, b]) ** 2
        p = stats.kstest(cross, 'beta', args=(nodes[0].beta, nodes[0].alpha)).pvalue
        q = stats.kstest(1 - cross, 'beta', args=(nodes[0].beta, nodes[0].alpha)).pvalue
        mon.check(max(p, q) > P, 'power split by a node', p=p, q=q)
    mon.event('samples', 2500)


def imperfect(rng, mon, size):
    """Networks with coupler errors still get finite phases in their range."""
    n = int(rng.integers(2, 8))
    mesh = (tree(n), tree(n, balanced=False), rectangular(unitary_group.rvs(n, random_state=int(rng.integers(2 ** 31)))))[size % 3]
    mesh.bs_errors = rng.normal(0, 0.1, (mesh.num_nodes, 2))
    mesh.mzi_terms = None
    again = ForwardMesh([CouplingNode(node_id=i, n=x.n, top=x.top, bottom=x.bottom, alpha=x.alpha, beta=x.beta, column=x.column,
                                      bs_error=tuple(rng.normal(0, 0.1, 2))) for i, x in enumerate(mesh.nodes)])
    mon.case(mesh.num_nodes > 0, n=n, kind=size % 3)
    t = np.array([again.rand_theta() for _ in range(300)])
    mon.check(np.all(np.isfinite(t)) and t.min() >= 0 and t.max() <= np.pi, 'split phases in their range despite errors')
    mon.check(np.all(np.isfinite(again.thetas)), 'initial phases despite errors')
    mon.event('samples', 300)


def vectors(rng, mon, size):
    n = 1 + size % 8
    count = 2000
    kind = size % 3
    mon.case(True, n=n, kind=kind)
    if kind == 0:
        v = np.array([random_vector(n, normed=True) for _ in range(count)])
        mon.close(np.linalg.norm(v, axis=1), np.ones(count), 1e-9, 'random vectors are normalised')
        for j in range(n):
            haar_power(mon, np.abs(v[:, j]) ** 2, n, 'random vectors are uniform')
            uniform(mon, np.angle(v[:, j]), 'phases of random vectors')
        pairs(mon, v, n, 'pairs of entries of random vectors')
        w = np.array([random_vector(n, normed=True, is_complex=False) for _ in range(count)])
        mon.check(np.isrealobj(w) or not np.imag(w).any(), 'real random vectors')
        mon.close(np.linalg.norm(w, axis=1), np.ones(count), 1e-9, 'real random vectors are normalised')
        mon.check(random_vector(n, normed=False).shape == (n,), 'shape of random vectors')
    elif kind == 1:
        n = max(n, 2)
        u = np.array([random_unitary(n) for _ in range(count)])
        mon.close(u @ u.conj().transpose(0, 2, 1), np.tile(np.eye(n), (count, 1, 1)), 1e-9, 'random unitaries are unitary')
        for i in range(n):
            for j in range(n):
                haar_power(mon, np.abs(u[:, i, j]) ** 2, n, 'random unitaries are uniform')
                uniform(mon, np.angle(u[:, i, j]), 'phases of random unitaries')
        t = np.abs(np.trace(u, axis1=1, axis2=2)) ** 2
        mon.small(abs(t.mean() - 1) / (t.std() / np.sqrt(count) + 1e-12), SIGMAS if n > 1 else np.inf, 'trace of random unitaries')
    else:
        a, b = float(rng.uniform(1, 6)), float(rng.uniform(1, 6))
        x = rng.uniform(0.01, 0.99, 50)
        mon.close(beta_pdf(x, a, b), stats.beta.pdf(x, a, b), 1e-9, 'density of split ratios', scale=stats.beta.pdf(x, a, b).max())
        th = rng.uniform(0.05, np.pi - 0.05, 50)
        dens = stats.beta.pdf(np.cos(th / 2) ** 2, a, b) * np.sin(th) / 2
        got = beta_phase(th, a, b)
        mon.close(got / got[0], dens / dens[0], 1e-6, 'density of split phases', scale=(dens / dens[0]).max())
        shape = tuple(int(k) for k in rng.integers(1, 5, int(rng.integers(1, 4))))
        mon.check(random_tensor(shape).shape == shape and np.iscomplexobj(random_tensor(shape)), 'shape of random tensors')
        mon.check(not np.iscomplexobj(random_tensor(shape, is_complex=False)), 'real random tensors')
    mon.event('samples', count)


def linear_chains(rng, mon, size):
    """The root of a linear chain, and the meshes made of chains."""
    n = 4
    mon.case(True, n=n)
    m, _ = draw(tree(n, balanced=False), 1500)
    worst = min(stats.kstest(np.abs(m[:, n - 1, j]) ** 2, 'beta', args=(1, n - 1)).pvalue for j in range(n))
    mon.check(worst > P, 'vectors combined by a linear chain are uniform', p=worst)
    mesh = triangular(unitary_group.rvs(n, random_state=3))
    m, drawn = draw(mesh, 1500)
    worst = min(stats.kstest(np.abs(m[:, i, j]) ** 2, 'beta', args=(1, n - 1)).pvalue for i in range(n) for j in range(1, n))
    mon.check(worst > P, 'matrices of a triangular mesh are uniform', p=worst)
    for i in range(n):
        haar_power(mon, np.abs(m[:, i, 0]) ** 2, n, 'first column of a triangular mesh')
    ranges(mon, mesh, drawn)


def drifts(rng, mon, size):
    """Phases with random or constant errors."""
    n = int(rng.integers(2, 7))
    mesh = tree(n)
    mesh.params = tuple(rng.uniform(0, 6, np.shape(p)) for p in mesh.params)
    before = [np.array(p) for p in mesh.params]
    std, constant, gamma = float(rng.uniform(0.01, 1)), bool(rng.integers(2)), bool(rng.integers(2))
    mon.case(True, n=n, constant=constant, gamma=gamma)
    for a, b in zip(mesh.phases(), before):
        mon.check(np.array_equal(np.asarray(a), b), 'phases without an error')
    drawn = [mesh.phases(std, constant=constant, gamma_error=gamma) for _ in range(1 if constant else 400)]
    for k, name in enumerate(('theta', 'phi', 'gamma')):
        off = np.array([d[k] - before[k] for d in drawn])
        if k == 2 and not gamma:
            mon.small(np.abs(off).max(), 1e-12, 'output phases keep')
        elif constant:
            mon.close(off, np.full(off.shape, std), 1e-9, f'constant error of {name}')
        else:
            worst = min(stats.kstest(off[:, j] / std, 'norm').pvalue for j in range(off.shape[1]))
            mon.check(worst > P, f'errors of {name} are normal', p=worst)
            if off.shape[1] > 1:
                c = np.corrcoef(off.T)[np.triu_indices(off.shape[1], 1)]
                mon.small(np.abs(c).max() * np.sqrt(len(off)), 2 * SIGMAS, f'errors of different {name} are independent')
    if not constant:
        off = np.array([np.hstack([d[k] - before[k] for k in range(2 + gamma)]) for d in drawn])
        c = np.corrcoef(off.T)[np.triu_indices(off.shape[1], 1)]
        mon.small(np.abs(c).max() * np.sqrt(len(off)), 2 * SIGMAS, 'errors of the split, input and output phases are independent')
    for a, b in zip(mesh.params, before):
        mon.check(np.array_equal(np.asarray(a), b), 'the mesh is not changed')
    mon.event('samples', len(drawn))


def fabrication(rng, mon, size):
    """Meshes with random coupler errors and losses on top of those they have."""
    n = int(rng.integers(2, 6))
    mesh = (tree(n), tree(n, balanced=False), rectangular(unitary_group.rvs(n, random_state=int(rng.integers(2 ** 31)))))[size % 3]
    mesh = mesh.add_error_mean(float(rng.normal(0, 0.1)), float(-rng.uniform(0, 1)))
    std, loss, equal = float(rng.uniform(0.01, 0.3)), float(rng.uniform(0.01, 1)), bool(rng.integers(2))
    if rng.integers(4) == 0:
        std = 0.0
    if rng.integers(4) == 0:
        loss = 0.0
    mon.case(True, n=mesh.n, equal=equal, kind=size % 3, errors=std > 0, losses=loss > 0)
    keep = [np.array(mesh.bs_errors), np.array(mesh.losses), *(np.array(p) for p in mesh.params)]
    drawn = [mesh.add_error_variance(std, loss, equal_splitter_error=equal) for _ in range(400)]
    for a, b in zip((mesh.bs_errors, mesh.losses, *mesh.params), keep):
        mon.check(np.array_equal(np.asarray(a), b), 'the mesh is not changed by its errors')
    for m in drawn[:3]:
        mon.check(all(np.array_equal(a, b) for a, b in zip(m.params, mesh.params)), 'phases keep despite errors')
        mon.check(all((a.node_id, a.top, a.bottom, a.column) == (b.node_id, b.top, b.bottom, b.column) for a, b in zip(m.nodes, mesh.nodes)),
                  'nodes keep despite errors')
        mon.check(all(np.allclose(nd.bs_error, e) and np.allclose(nd.loss, q) for nd, e, q in zip(m.nodes, m.bs_errors, m.losses)),
                  'errors of the nodes are those of the mesh')
    # what is done to a derived mesh does not reach the mesh it was derived from, and the other way round
    other, given = drawn[-1], [drawn[-1], mesh.add_error_mean(0.1, -0.1)]
    u = np.array(mesh.matrix())
    for m in given:
        before = np.array(m.matrix())
        m.thetas += 0.3
        m.phis *= 0.5
        m.gammas -= 0.2
        mon.close(mesh.matrix(), u, 1e-6, 'matrix of the mesh after the phases of a derived one are changed')
        for a, b in zip(mesh.params, keep[2:]):
            mon.check(np.array_equal(np.asarray(a), b), 'phases of the mesh after those of a derived one are changed')
        m.thetas, m.phis, m.gammas = keep[2].copy(), keep[3].copy(), keep[4].copy()
        mon.close(m.matrix(), before, 1e-6, 'matrix of a derived mesh with its phases back')
    mesh.thetas += 0.1
    mon.check(np.array_equal(np.asarray(other.params[0]), keep[2]), 'phases of a derived mesh after those of the mesh are changed')
    mesh.thetas = keep[2].copy()
    err = np.array([m.bs_errors for m in drawn]) - keep[0]
    att = np.array([m.losses for m in drawn]) - keep[1]
    if equal:
        mon.small(np.abs(err[..., 0] - err[..., 1]).max(), 1e-12, 'equal couplers of a node')
        err = err[..., :1]
    every = []
    for off, s, what in ((err, std, 'coupler errors'), (att, loss, 'losses')):
        off = off.reshape(len(drawn), -1)
        if not s:
            mon.small(np.abs(off).max(), 1e-12, f'no {what}')
            continue
        worst = min(stats.kstest(off[:, j] / s, 'norm').pvalue for j in range(off.shape[1]))
        mon.check(worst > P, f'{what} are normal', p=worst)
        every.append(off)
    if every and sum(o.shape[1] for o in every) > 1:
        c = np.corrcoef(np.hstack(every).T)
        mon.small(np.abs(c[np.triu_indices(len(c), 1)]).max() * np.sqrt(len(drawn)), 2 * SIGMAS, 'coupler errors and losses are independent')
    mon.event('samples', len(drawn))


SCENARIOS = [('fabrication', fabrication, 16, 100), ('drifts', drifts, 16, 100), ('trees', trees, 32, 160), ('meshes', meshes, 24, 120), ('splits', splits, 40, 400), ('imperfect', imperfect, 30, 200),
             ('vectors', vectors, 24, 120), ('linear chains', linear_chains, 2, 8)]
