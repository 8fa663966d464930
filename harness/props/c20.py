"""Design transforms: symmetries, masks, filters and projections against pixel-wise references."""
import jax
import jax.numpy as jnp
import numpy as np

from simphox.grid import Grid
from simphox.transform import get_mask_fn, get_smooth_fn, get_symmetry_fn
from simphox.utils import Box

TOL = 2e-5 if jnp.asarray(1.0).dtype == jnp.float32 else 1e-12
RULE = ('parameter arrays of even and odd, square and oblong shapes; every compatible combination of symmetries with and '
        'without averaging; single boxes and lists of overlapping, touching and clipped boxes with non-unit spacing; '
        'filter radii 1 to 4, projection strengths 0.1 to 50 and thresholds 0.2 to 0.8; compositions of all of them; '
        'non-trivial: every case; distinct by shape, symmetry, boxes and filter settings')
ASSUMPTIONS = ['an orthogonal symmetry combined with a diagonal one is only requested together with the other orthogonal one',
               'the filter is a disk of the given radius that sees zeros outside the array']

COMBOS = [(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 1, 1), (1, 1, 1, 0), (1, 1, 0, 1),
          (1, 1, 1, 1), (0, 0, 0, 0)]
ACTIONS = [lambda x: x[::-1], lambda x: x[:, ::-1], lambda x: x.T, lambda x: x[::-1, ::-1].T]


def params(rng, shape):
    kind = int(rng.integers(4))
    if kind == 0:
        return rng.uniform(0, 1, shape)
    if kind == 1:
        return (rng.uniform(size=shape) > 0.5).astype(float)
    if kind == 2:
        x = np.zeros(shape)
        x[tuple(int(rng.integers(n)) for n in shape)] = 1.0
        return x
    return rng.normal(size=shape)


def group(flags):
    """The orbit of every pixel under the requested reflections, as index arrays."""
    def images(shape):
        index = np.arange(np.prod(shape)).reshape(shape)
        out = {index.tobytes(): index}
        grow = True
        while grow:
            grow = False
            for a, f in zip(ACTIONS, flags):
                if f:
                    for g in list(out.values()):
                        h = np.ascontiguousarray(a(g))
                        if h.tobytes() not in out:
                            out[h.tobytes()] = h
                            grow = True
        return list(out.values())
    return images


def symmetry(rng, mon, size):
    flags = COMBOS[int(rng.integers(len(COMBOS)))]
    avg = bool(rng.integers(2))
    shape = tuple(int(v) for v in rng.integers(1, 8 + size % 6, 2))
    if flags[2] or flags[3]:
        shape = (shape[0], shape[0])
    mon.case(flags=flags, avg=avg, shape=shape)
    fn = get_symmetry_fn(*(bool(f) for f in flags), avg=avg)
    x = params(rng, shape)
    given = jnp.array(x)
    y = np.asarray(fn(given))
    mon.event('pixels', x.size)
    mon.check(np.array_equal(np.asarray(given), np.asarray(jnp.array(x))), 'the parameters are not modified')
    mon.check(y.shape == shape, 'shape kept', got=y.shape)
    for name, a, f in zip(('axis 0', 'axis 1', 'diagonal', 'antidiagonal'), ACTIONS, flags):
        if f:
            mon.close(a(y), y, TOL, f'symmetric along {name}', flags=flags, avg=avg)
    mon.close(np.asarray(fn(jnp.array(y))), y, TOL, 'applying it twice changes nothing', flags=flags, avg=avg)
    mon.check(y.min() >= x.min() - TOL and y.max() <= x.max() + TOL, 'within the range of the parameters')
    orbit = np.stack([x.ravel()[g] for g in group(flags)(shape)])
    mon.check(np.all(y >= orbit.min(0) - TOL) and np.all(y <= orbit.max(0) + TOL),
              'every pixel is made of its mirror images only', flags=flags, avg=avg)
    if avg:
        mon.close(y, orbit.mean(0), TOL, 'average of the mirror images', flags=flags)
    elif not (flags[2] or flags[3]):
        half = [slice(0, n - n // 2) if f else slice(None) for n, f in zip(shape, flags)]
        mon.close(y[tuple(half)], x[tuple(half)], 0 if TOL < 1e-9 else TOL, 'the first half is kept as it is', flags=flags)
    sym = orbit.mean(0)
    mon.close(np.asarray(fn(jnp.array(sym))), sym, TOL, 'a symmetric design is kept', flags=flags, avg=avg)
    z = params(rng, shape)
    w = rng.normal(size=shape)
    _, vjp = jax.vjp(fn, jnp.array(x))
    back = np.asarray(vjp(jnp.array(w))[0])
    mon.close(np.sum(back * z), np.sum(w * np.asarray(fn(jnp.array(z)))), 10 * TOL,
              'gradient is the transposed map', scale=1 + np.sum(np.abs(w)))


def random_box(rng, shape, spacing, clipped=True):
    lo = [int(rng.integers(-2 if clipped else 0, n)) for n in shape]
    hi = [int(rng.integers(max(a, 0), n + (3 if clipped else 1))) for a, n in zip(lo, shape)]
    box = Box(size=((hi[0] - lo[0]) * spacing, (hi[1] - lo[1]) * spacing), spacing=spacing,
              min=(lo[0] * spacing, lo[1] * spacing))
    region = np.zeros(shape, dtype=bool)
    region[max(lo[0], 0):max(hi[0], 0), max(lo[1], 0):max(hi[1], 0)] = True
    return box, region


def masks(rng, mon, size):
    shape = tuple(int(v) for v in rng.integers(1, 12 + size % 6, 2))
    spacing = float(rng.choice([1.0, 0.1, 0.05, 0.25, 2.0, round(float(rng.uniform(0.01, 3)), 3)]))
    n = int(rng.integers(1, 5))
    boxes = [random_box(rng, shape, spacing) for _ in range(n)]
    if n > 1 and rng.integers(2):  # overlapping on purpose
        boxes[1] = (boxes[0][0].copy, boxes[0][1])
    single = n == 1 and bool(rng.integers(2))
    region = np.any([r for _, r in boxes], axis=0)
    init = params(rng, shape)
    kept = init.copy()
    mon.case(shape=shape, spacing=spacing, boxes=n, single=single, pixels=int(region.sum()), nontrivial=0 < region.sum())
    base = init if rng.integers(2) else jnp.array(init)
    fn = get_mask_fn(base, boxes[0][0] if single else [b for b, _ in boxes])
    before = [(tuple(b.min), tuple(b.size)) for b, _ in boxes]
    x = params(rng, shape)
    y = np.asarray(fn(jnp.array(x)))
    mon.event('masked pixels', region.sum())
    f32 = (lambda a: np.asarray(jnp.array(a)))
    mon.check(np.array_equal(y[~region], f32(init)[~region]), 'fixed outside of the boxes', boxes=n)
    mon.check(np.array_equal(y[region], f32(x)[region]), 'the parameters inside of the boxes', boxes=n,
              got=y[region], want=f32(x)[region])
    mon.check(np.array_equal(np.asarray(fn(jnp.array(y))), y), 'applying it twice changes nothing')
    mon.check(np.array_equal(init, kept), 'the initial design is not modified')
    mon.check(before == [(tuple(b.min), tuple(b.size)) for b, _ in boxes], 'the boxes are not modified')
    back = np.asarray(jax.grad(lambda r: jnp.sum(fn(r) * jnp.array(x)))(jnp.array(x)))
    mon.close(back, np.where(region, f32(x), 0), TOL, 'no gradient outside of the boxes')
    for b, r in boxes:
        got = np.asarray(b.mask(init))
        mon.check(np.array_equal(got != 0, r) and set(np.unique(got)) <= {0.0, 1.0}, 'the mask of a box', min=b.min, size=b.size)
    # the same region as design region of a grid
    grid = Grid(tuple(s * spacing for s in shape), spacing, eps=1 + np.abs(init))
    lo = [int(rng.integers(0, s)) for s in shape]
    hi = [int(rng.integers(a, s + 1)) for a, s in zip(lo, shape)]
    for i in range(2):  # an even number of cells, or an odd number around a cell centre
        if (hi[i] - lo[i]) % 2:
            hi[i] -= 1
    if all(b > a for a, b in zip(lo, hi)):
        gfn = grid.mask_fn(((hi[0] - lo[0]) * spacing, (hi[1] - lo[1]) * spacing, 0),
                           ((hi[0] + lo[0]) * spacing / 2, (hi[1] + lo[1]) * spacing / 2, 0))
        r = np.zeros(shape, dtype=bool)
        r[lo[0]:hi[0], lo[1]:hi[1]] = True
        y = np.asarray(gfn(jnp.array(x)))
        mon.check(np.array_equal(y[r], f32(x)[r]) and np.array_equal(y[~r], f32(1 + np.abs(init))[~r]),
                  'design region of a grid')
        mon.event('grid regions')


def disk_filter(x, radius):
    """Mean over the disk around every pixel, with zeros outside of the array."""
    n, m = x.shape
    out = np.zeros((n, m))
    count = 0
    for i in range(-radius, radius + 1):
        for j in range(-radius, radius + 1):
            if i * i + j * j < (radius + 1) ** 2:
                count += 1
                out[max(i, 0):n + min(i, 0), max(j, 0):m + min(j, 0)] += x[max(-i, 0):n + min(-i, 0), max(-j, 0):m + min(-j, 0)]
    return out / count


def project(x, beta, eta):
    return (np.tanh(beta * eta) + np.tanh(beta * (x - eta))) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))


def smoothing(rng, mon, size):
    radius = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(2 * radius + 1, 2 * radius + 16, 2))
    beta = float(10 ** rng.uniform(-1, 1.7))
    eta = float(rng.choice([0.5, round(float(rng.uniform(0.2, 0.8)), 3)]))
    mon.case(radius=radius, shape=shape, beta=round(beta, 2), eta=eta)
    default = eta == 0.5 and bool(rng.integers(2))
    fn = get_smooth_fn(beta, radius) if default else get_smooth_fn(beta, radius, eta)
    tol = TOL * max(1, beta)
    x = np.clip(np.abs(params(rng, shape)), 0, 1)
    y = np.asarray(fn(jnp.array(x)))
    mon.event('pixels', x.size)
    mon.close(y, project(disk_filter(x, radius), beta, eta), tol, 'disk average and projection', radius=radius, eta=eta)
    mon.check(y.min() >= -tol and y.max() <= 1 + tol, 'between 0 and 1', got=(float(y.min()), float(y.max())))
    up = np.clip(x + rng.uniform(0, 0.5, shape) * (rng.uniform(size=shape) > 0.7), 0, 1)
    mon.check(np.all(np.asarray(fn(jnp.array(up))) >= y - tol), 'monotone in the parameters')
    for name, a in zip(('axis 0', 'axis 1', 'diagonal'), ACTIONS):
        mon.close(np.asarray(fn(jnp.array(a(x)))), a(y), tol, f'commutes with reflection along {name}')
    big = np.zeros((shape[0] + 2 * radius + 3, shape[1] + 2 * radius + 3))
    i, j = int(rng.integers(2 * radius + 4)), int(rng.integers(2 * radius + 4))
    big[i:i + shape[0], j:j + shape[1]] = x
    mon.close(np.asarray(fn(jnp.array(big)))[i:i + shape[0], j:j + shape[1]], y, tol, 'commutes with translation')
    inner = (slice(radius, -radius),) * 2
    for v in (0.0, 1.0):
        flat = np.asarray(fn(jnp.full(shape, v)))[inner]
        if flat.size:
            mon.close(flat, np.full(flat.shape, v), tol, 'fixed points 0 and 1')
    w = rng.normal(size=shape)
    _, vjp = jax.vjp(fn, jnp.array(x))
    slope = beta / np.cosh(beta * (disk_filter(x, radius) - eta)) ** 2 / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))
    mon.close(np.asarray(vjp(jnp.array(w))[0]), disk_filter(w * slope, radius), 10 * tol, 'gradient',
              scale=max(1.0, np.max(np.abs(w * slope))))


def composed(rng, mon, size):
    """What an inverse design does: symmetry, filter, projection, permittivity range, fixed structure outside."""
    radius = int(rng.integers(1, 3))
    n = int(rng.integers(12, 20))
    shape = (n, n)
    flags = COMBOS[int(rng.integers(len(COMBOS)))]
    beta = float(10 ** rng.uniform(-1, 1.3))
    sym, smooth = get_symmetry_fn(*(bool(f) for f in flags), avg=bool(rng.integers(2))), get_smooth_fn(beta, radius)
    a = int(rng.integers(1, n // 2 - 1))
    init = np.round(rng.uniform(0, 1, shape), 3)
    mask = get_mask_fn(init, Box((float(n - 2 * a), float(n - 2 * a)), spacing=1, min=(float(a), float(a))))
    eps_hi = float(rng.uniform(2, 12))

    def transform(rho):
        return 1 + (eps_hi - 1) * mask(smooth(sym(rho)))

    mon.case(flags=flags, n=n, radius=radius, beta=round(beta, 2), margin=a)
    x = np.clip(params(rng, shape), 0, 1)
    y = np.asarray(jax.jit(transform)(jnp.array(x)))
    region = np.zeros(shape, dtype=bool)
    region[a:n - a, a:n - a] = True
    tol = TOL * 20 * max(1, beta)
    mon.close(y[~region], 1 + (eps_hi - 1) * init[~region], tol, 'fixed structure outside of the region')
    mon.check(y.min() >= 1 - tol and y.max() <= eps_hi + tol, 'within the material range')
    inside = y[a:n - a, a:n - a]
    for act, f in zip(ACTIONS, flags):
        if f:
            mon.close(act(inside), inside, tol, 'design region is symmetric', flags=flags)
    mon.close(np.asarray(transform(jnp.array(x))), y, tol, 'the compiled transform is the same')
    grad = np.asarray(jax.grad(lambda r: jnp.sum(transform(r)))(jnp.array(x)))
    mon.check(np.all(grad >= -tol), 'permittivity grows with the parameters')
    mon.event('designs')


SCENARIOS = [('symmetry', symmetry, 150, 3000), ('masks', masks, 100, 2000), ('smoothing', smoothing, 60, 1000),
             ('composed', composed, 30, 500)]
