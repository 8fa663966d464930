"""In situ backpropagation yields the gradient of the cost."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from harness.meshes import build, haar, ref_matrix, size_for
from simphox.circuit.forward import InSituBackpropLayer

TOL = 2e-4
RULE = ('noiseless lossless meshes of 7 architectures x top/bottom phase styles x coupler errors x input forms (vector, '
        'column, batch, identity) x analog/digital subtraction x cost functions; non-trivial: more than one node; distinct '
        'by architecture, style, rails, input form, measurement mode and error class')
ASSUMPTIONS = ['single-precision mesh functions: gradients within 2e-4 of the largest gradient',
               'noise and loss are zero, the case in which the measured gradient is documented to be the true one']


def exact_gradient(mesh, params, x, w, t):
    """Gradient of sum(w |y|^2) + Re(sum(t y)), exact in every phase because y is affine in exp(i phase)."""
    x = x[:, None] if x.ndim == 1 else x
    u = ref_matrix(mesh, params)
    y = u @ x
    g = 2 * w * y.conj() + t
    grads = []
    for k, p in enumerate(params):
        d = np.zeros(len(p))
        for j in range(len(p)):
            q = [np.array(a, dtype=float) for a in params]
            q[k][j] += np.pi
            d[j] = np.real(np.sum(g * 1j * (y - ref_matrix(mesh, q) @ x) / 2))
        grads.append(d)
    return grads, u.T @ g


def gradient(rng, mon, size):
    kinds = ('rectangular', 'triangular', 'tree_cascade', 'tree', 'chain', 'butterfly', 'random')
    kind, style = kinds[size % 7], ('top', 'bottom')[(size // 7) % 2]
    err = float(rng.choice([0, 0.1]))
    m = build(rng, kind, min(size_for(rng, kind, 2, 6), 8), style, err, 0.0)
    analog = bool(rng.integers(2))
    form = str(rng.choice(['vector', 'column', 'batch', 'identity']))
    x = rng.normal(size=(m.n, 3)) + 1j * rng.normal(size=(m.n, 3))
    x = {'vector': x[:, 0], 'column': x[:, :1], 'batch': x, 'identity': np.eye(m.n) + 0j}[form]
    cols = 1 if x.ndim == 1 else x.shape[1]
    w, t = rng.normal(size=(m.n, cols)), haar(rng, max(m.n, cols))[:m.n, :cols] * 10 ** rng.uniform(-1, 1)
    # signals and costs of any magnitude
    strong, steep = (10 ** rng.uniform(-4, 3), 10 ** rng.uniform(-5, 3)) if rng.integers(2) else (1.0, 1.0)
    x, w, t = x * strong, w * steep, t * steep * strong
    mon.case(m.num_nodes > 1, kind=kind, style=style, n=m.n, form=form, analog=analog, err=err, scaled=strong != 1)
    given = bool(rng.integers(2))  # the errors given to the function count, not those of the mesh it was made from
    f = (m.add_error_mean(rng.normal(0, 0.2)) if given else m).in_situ_matrix_fn(all_analog=analog)
    if rng.integers(2):
        f = jax.jit(f)
    errs, losses = jnp.array(m.all_errors), jnp.array(m.all_losses)

    def cost(p, i):
        y = f(p, i, errs, losses)
        return jnp.sum(w * jnp.abs(y) ** 2) + jnp.real(jnp.sum(t * y))
    params = tuple(jnp.array(p) for p in m.params)
    v, (gp, gi) = jax.value_and_grad(cost, (0, 1))(params, jnp.array(x))
    want, wi = exact_gradient(m, m.params, x, w, t)
    s = max(1e-3 * steep * strong ** 2, max(np.abs(a).max() for a in want))
    y = ref_matrix(m) @ (x[:, None] if x.ndim == 1 else x)
    c = np.sum(w * np.abs(y) ** 2) + np.real(np.sum(t * y))
    mon.close(v, c, TOL, 'value of the cost', scale=max(steep * strong ** 2, abs(c)))
    for name, a, b in zip(('theta', 'phi', 'gamma'), gp, want):
        mon.close(np.asarray(a), b, TOL, f'gradient with respect to {name}', scale=s)
    mon.close(np.asarray(gi).reshape(wi.shape), wi, TOL, 'gradient with respect to the inputs', scale=np.abs(wi).max())
    mon.check(gi.shape == x.shape, 'shape of the input gradient')
    mon.event('phase shifters', sum(len(a) for a in want))
    # a cost that does not depend on the outputs has no gradient
    if size % 5 == 0:
        z = jax.grad(lambda p: 0.0 * jnp.real(jnp.sum(f(p, jnp.array(x), errs, losses))))(params)
        mon.small(max(np.abs(np.asarray(a)).max() for a in z), 1e-6 * strong ** 2, 'zero gradient')


def layers(rng, mon, size):
    """Networks of mesh layers with nonlinearities: backpropagation through all layers equals automatic differentiation."""
    style = ('top', 'bottom')[size % 2]
    n, depth = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    kinds = [str(rng.choice(['rectangular', 'triangular', 'random', 'tree_cascade'])) for _ in range(depth)]
    meshes = [build(rng, k, n, style, float(rng.choice([0, 0.05])), 0.0) for k in kinds]
    analog, use_jit = bool(rng.integers(2)), bool(rng.integers(2))
    act = [None, jnp.abs, lambda z: z / (1 + jnp.abs(z) ** 2)][int(rng.integers(3))]
    if depth == 1:
        act = None
    mon.case(True, kinds='/'.join(kinds), n=n, style=style, analog=analog, jit=use_jit)
    x = jnp.array(rng.normal(size=(5, n)) + 1j * rng.normal(size=(5, n)))  # one example per row
    w = jnp.array(rng.normal(size=(1, n)))

    def net(z):
        for i, m in enumerate(meshes):
            z = InSituBackpropLayer(m, activation=act, name=f'layer{i}', all_analog=analog, use_jit=use_jit)(z)
        return z
    f = hk.without_apply_rng(hk.transform(net))
    p = f.init(jax.random.PRNGKey(0), x)
    names = sorted(p)
    mon.check(len(names) == depth, 'parameters of every layer')

    def loss(p):
        return jnp.sum(w * jnp.abs(f.apply(p, x)) ** 2)

    fns = [m.matrix_fn(use_jax=True) for m in meshes]

    def auto(p):
        z = x
        for name, fn in zip(names, fns):
            q = p[name]
            z = fn((q['theta'], q['phi'], q['gamma']), z.T).T
            z = z if act is None else act(z)
        return jnp.sum(w * jnp.abs(z) ** 2)
    va, ga = jax.value_and_grad(loss)(p)
    vb, gb = jax.value_and_grad(auto)(p)
    mon.close(va, vb, TOL, 'output of the layers', scale=max(1, abs(float(vb))))
    s = max(1e-2, max(float(jnp.abs(l).max()) for l in jax.tree_util.tree_leaves(gb)))
    for name in names:
        for k in ('theta', 'phi', 'gamma'):
            mon.close(np.asarray(ga[name][k]), np.asarray(gb[name][k]), TOL, f'gradient of the {k} of a layer', scale=s)
    mon.event('layers', depth)


SCENARIOS = [('gradient', gradient, 84, 700), ('layers', layers, 14, 100)]
