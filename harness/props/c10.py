"""Sparse solves are exact whatever was solved, changed or failed before."""
import threading

import jax
import jax.numpy as jnp
import numpy as np
import scipy.sparse as sp

from simphox.mkl import Pardiso, spsolve_pardiso
from simphox.primitives import spsolve

TOL = 1e-9
RULE = ('histories of 12 to 30 operations on the shared solver: new systems, the same system with another right-hand side, '
        'the same pattern with changed entries (also in place and in a single entry), several right-hand sides, transposes, '
        'singular and ill-shaped systems, other formats, jax solves and their derivatives; solvers for real, symmetric, hermitian and definite matrices; two to four threads solving at the same time; non-trivial: a solve follows a '
        'failure or a changed matrix; distinct by the sequence of operations')
ASSUMPTIONS = ['systems are well conditioned (checked), so that the residual decides', 'MKL Pardiso is the installed back end']


def system(rng, n=None):
    n = int(rng.integers(2, 70)) if n is None else n
    a = sp.random(n, n, min(1, 4 / n), random_state=np.random.RandomState(int(rng.integers(2 ** 31)))).toarray()
    a = a * np.exp(2j * np.pi * rng.random((n, n)))
    a = a + np.diag((2 + np.abs(a).sum(1)) * np.exp(2j * np.pi * rng.random(n)))
    if rng.integers(3) == 0:
        a = a[rng.permutation(n)]  # the large entries are off the diagonal
    return sp.csr_matrix(a * 10 ** rng.uniform(*((-2, 2) if rng.integers(4) else (-30, 30))))


def rhs(rng, n, k=None):
    b = rng.normal(size=(n,) if k is None else (n, k))
    return b + 0j if rng.integers(4) == 0 else b + 1j * rng.normal(size=b.shape)


def solve_and_judge(mon, solve, a, b, what):
    dense, keep = a.toarray(), b.copy()
    x = solve(a, b)
    mon.check(np.array_equal(a.toarray(), dense) and np.array_equal(b, keep), 'system and right-hand side are not changed')
    mon.check(x.size == b.size, f'{what}: size of the solution')
    r = dense @ x.reshape(b.shape) - b
    mon.small(np.linalg.norm(r) / max(np.linalg.norm(b), 1e-300), TOL, f'{what}: residual of the solution')
    mon.event('solves')
    return x


OPS = ('new', 'same', 'entry', 'inplace', 'pattern', 'multi', 'transpose', 'singular', 'shape', 'dtype', 'format', 'jax',
       'scaled', 'return', 'duplicates', 'free')


def history(rng, mon, size):
    own = Pardiso() if size % 3 == 0 else None
    solve = own.solve if own is not None else spsolve_pardiso
    a = system(rng)
    first, started = a.copy(), False
    trace = []
    for step in range(int(rng.integers(12, 31))):
        op = str(rng.choice(OPS))
        trace.append(op)
        n = a.shape[0]
        if op == 'new':
            a = system(rng, n if rng.integers(2) else None)
        elif op == 'entry':
            # one entry among many changes: everything else of the matrix looks the same
            a = a.copy()
            a.data[rng.integers(a.data.size)] *= 1 + float(rng.choice([1e-6, 0.1, 0.3]))
        elif op == 'inplace':
            a.data *= np.exp(0.1j) * (1 + 0.1 * rng.random(a.data.size))
        elif op == 'pattern':
            a = sp.csr_matrix((a.data[::-1] if rng.integers(2) else a.data * np.exp(1j), a.indices, a.indptr), shape=a.shape)
            if np.linalg.cond(a.toarray()) > 1e5:
                a = system(rng, n)
        elif op == 'scaled':
            a = a * float(rng.choice([-1, 2, 1e3, 1e-3]))
        elif op == 'return':
            a = first.copy()
        n = a.shape[0]
        if op in ('singular', 'shape', 'dtype'):
            if op == 'singular':
                d = a.toarray()
                kind = int(rng.integers(4))
                if kind == 0:
                    d[rng.integers(n)] = 0
                elif kind == 1:
                    d[:, rng.integers(n)] = 0
                elif kind == 2:
                    d[0] = d[-1]
                else:
                    d = d * 0
                bad = sp.csr_matrix(d)
                mon.raises(RuntimeError, lambda: solve(bad, rhs(rng, n)), 'a singular system is reported')
                if rng.integers(2):
                    mon.raises(RuntimeError, lambda: solve(bad, rhs(rng, n)), 'a singular system is reported again')
            elif op == 'shape':
                mon.raises((RuntimeError, ValueError), lambda: solve(a, rhs(rng, n + 1)), 'a right-hand side of another size is refused')
            else:
                mon.raises((ValueError, TypeError), lambda: solve(a.astype(np.float32), rhs(rng, n)), 'a matrix of another precision is refused')
            mon.event('failures injected')
            if rng.integers(2):
                solve_and_judge(mon, solve, a, rhs(rng, n), 'solve after a failure')
        elif op == 'multi':
            k = int(rng.integers(1, 5))
            b = rhs(rng, n, k)
            x = solve_and_judge(mon, solve, a, b, 'several right-hand sides')
            mon.check(k == 1 or x.shape == b.shape, 'shape of several solutions')
        elif op == 'transpose':
            solve_and_judge(mon, solve, sp.csr_matrix(a.T), rhs(rng, n), 'transposed system')
        elif op == 'duplicates':
            # entries given in two parts, in any order within their rows
            part = rng.random(a.data.size)
            rows = np.repeat(np.arange(n), np.diff(a.indptr))
            rows, cols, data = np.hstack((rows, rows)), np.hstack((a.indices, a.indices)), np.hstack((a.data * part, a.data * (1 - part)))
            o = np.lexsort((rng.random(rows.size), rows))
            ptr = np.hstack((0, np.cumsum(np.bincount(rows, minlength=n))))
            solve_and_judge(mon, solve, sp.csr_matrix((data[o], cols[o], ptr), shape=a.shape), rhs(rng, n), 'duplicate entries')
        elif op == 'free':
            if own is not None and trace.count('free') > 1 and started:
                try:
                    own.free(complete=bool(rng.integers(2)))
                    mon.event('handles freed')
                except RuntimeError:  # nothing is factorized after a failure
                    mon.event('nothing to free')
            solve_and_judge(mon, solve, a, rhs(rng, n), 'solve after freeing')
            started = True
        elif op == 'format':
            m = [sp.csc_matrix, sp.coo_matrix, sp.lil_matrix, sp.dok_matrix][int(rng.integers(4))](a)
            solve_and_judge(mon, spsolve_pardiso, m, rhs(rng, n), 'another format')
        elif op == 'jax':
            c = a.tocoo()
            x = spsolve(jnp.array(c.data), jnp.array(b := rhs(rng, n)), jnp.array(np.vstack((c.row, c.col))))
            mon.small(np.linalg.norm(a @ np.asarray(x) - b) / np.linalg.norm(b), TOL, 'jax solve: residual')
            mon.event('solves')
        else:
            solve_and_judge(mon, solve, a, rhs(rng, n), 'solve')
    if own is not None:
        own.factor(a)
        solve_and_judge(mon, own.solve, a, rhs(rng, a.shape[0]), 'solve after factoring')
        own.free(complete=False)
    mon.case(any(o in ('singular', 'entry', 'inplace', 'shape') for o in trace[:-1]), trace=' '.join(trace))


def gradient(rng, mon, size):
    """Derivatives of solves with respect to entries and right-hand side, while other systems are solved in between."""
    n = int(rng.integers(2, 40))
    a = system(rng, n).tocoo()
    entries, ij = a.data, np.vstack((a.row, a.col))
    split = bool(rng.integers(2))
    if split:  # entries of one position may be given in several parts, which add up
        part = rng.random(entries.size)
        entries, ij = np.hstack((entries * part, entries * (1 - part))), np.hstack((ij, ij))
        p = rng.permutation(entries.size)
        entries, ij = entries[p], ij[:, p]
    zeros = int(rng.integers(0, 6)) * int(rng.integers(2))
    if zeros:  # positions of the pattern whose value is zero for now
        ij = np.hstack((ij, rng.integers(0, n, (2, zeros))))
        entries = np.hstack((entries, np.zeros(zeros)))
    b, w, v = rhs(rng, n), rhs(rng, n), rng.normal(size=n)
    if rng.integers(4) == 0:  # localised source and objective
        b, w, v = b * (np.arange(n) == 0), w * (np.arange(n) == n - 1), v * 0
    jit, between = bool(rng.integers(2)), bool(rng.integers(2))
    mon.case(n > 1, n=n, split=split, zeros=zeros, jit=jit, between=between)
    idx = jnp.array(ij)

    def cost(e, b):
        x = spsolve(e, b, idx)
        return jnp.real(jnp.sum(w * x)) + jnp.sum(v * jnp.abs(x) ** 2)
    g = jax.value_and_grad(cost, (0, 1))
    g = jax.jit(g) if jit else g
    for rep in range(2):
        if between:
            spsolve_pardiso(system(rng, n), rhs(rng, n))
        value, (ge, gb) = g(jnp.array(entries), jnp.array(b))
        dense = sp.coo_matrix((entries, (ij[0], ij[1])), shape=(n, n)).toarray()
        x = np.linalg.solve(dense, b)
        mon.close(value, np.real(w @ x) + v @ np.abs(x) ** 2, 1e-8, 'value', scale=max(1e-12, np.abs(w) @ np.abs(x) + np.abs(v) @ np.abs(x) ** 2))
        lam = np.linalg.solve(dense.T, w + 2 * v * x.conj())
        mon.close(np.asarray(gb), lam, 1e-7, 'derivative with respect to the right-hand side', scale=np.abs(lam).max())
        want = -lam[ij[0]] * x[ij[1]]
        mon.close(np.asarray(ge), want, 1e-7, 'derivative with respect to the entries', scale=np.abs(want).max())
        mon.event('gradients')
        b = rhs(rng, n)
        entries = entries * (1 + 0.05 * rng.random(entries.size))


KINDS = {11: 'real', 2: 'real symmetric positive definite', -2: 'real symmetric', 4: 'hermitian positive definite', -4: 'hermitian',
         6: 'complex symmetric', 13: 'complex'}


def kinds(rng, mon, size):
    """Solvers made for matrices of a kind (real, symmetric, hermitian, positive definite)."""
    mtype = list(KINDS)[size % len(KINDS)]
    solver = Pardiso(mtype)
    mon.case(True, kind=KINDS[mtype], steps=size)
    a = None
    for step in range(8):
        op = str(rng.choice(['new', 'same', 'entry', 'multi', 'factor', 'singular', 'wrong']))
        if a is None or op == 'new':
            n = int(rng.integers(2, 50))
            d = system(rng, n).toarray()
            d = d.real if mtype in (11, 2, -2) else d
            if mtype in (2, -2, 4, -4):
                d = d + d.conj().T
            elif mtype == 6:
                d = d + d.T
            if mtype in (2, 4):
                d = d @ d + np.eye(n) * np.linalg.norm(d) ** 2 / n
            elif mtype != 13:
                d = d + np.diag(np.where(np.diag(d).real >= 0, 1, -1)) * np.abs(d).sum(1)
            a = sp.csr_matrix(d)
        elif op == 'entry':
            a = a.copy()
            k = int(rng.integers(a.shape[0]))
            a[k, k] = a[k, k] * 1.5
        n = a.shape[0]
        if op == 'factor':
            solver.factor(a)
        if op == 'singular':
            bad = a.toarray()
            k = int(rng.integers(n))
            bad[k] = bad[:, k] = 0
            mon.raises(RuntimeError, lambda: solver.solve(sp.csr_matrix(bad), rhs(rng, n).real.astype(solver.dtype)),
                       'a singular system of a kind is reported')
            mon.event('failures injected')
        if op == 'wrong':
            other = a.astype(np.complex128 if solver.is_real else np.float64)
            mon.raises(ValueError, lambda: solver.solve(other, rhs(rng, n)), 'a matrix of another kind is refused')
            mon.event('failures injected')
        b = rhs(rng, n, int(rng.integers(2, 4)) if op == 'multi' else None)
        solve_and_judge(mon, solver.solve, a, b.real.copy() if solver.is_real else b, f'{KINDS[mtype]} system')
    mon.raises((ValueError, NotImplementedError), lambda: Pardiso(int(rng.choice([1, 3, 0, 5, 7]))), 'unknown kinds are refused')


def threads(rng, mon, size):
    """Several threads solve different systems with the same solver at the same time."""
    own = Pardiso() if size % 3 == 2 else None
    k = int(rng.integers(2, 5))
    seeds = [int(s) for s in rng.integers(2 ** 31, size=k)]
    results = [[] for _ in range(k)]
    barrier, active, overlaps = threading.Barrier(k), [0], [0]

    def work(i):
        r = np.random.default_rng(seeds[i])
        a = system(r, int(r.integers(100, 300)))
        barrier.wait()
        for rep in range(8):
            if r.integers(2):
                a = system(r, int(r.integers(100, 300)))
            b = rhs(r, a.shape[0])
            kind = int(r.integers(6)) if own is None else 1
            active[0] += 1
            overlaps[0] += active[0] > 1
            try:
                if kind == 0:
                    c = a.tocoo()
                    x = np.asarray(spsolve(jnp.array(c.data), jnp.array(b), jnp.array(np.vstack((c.row, c.col)))))
                else:
                    x = (spsolve_pardiso if own is None else own.solve)(a, b)
                res = np.linalg.norm(a @ x - b) / np.linalg.norm(b) if x.shape == b.shape else np.inf
            except Exception as e:
                res = repr(e)
            active[0] -= 1
            results[i].append(res)

    pool = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    [t.start() for t in pool]
    [t.join() for t in pool]
    mon.case(overlaps[0] > 0, threads=k, overlapping=overlaps[0])
    for res in results:
        mon.check(len(res) == 8, 'every thread finishes its solves')
        for x in res:
            mon.check(not isinstance(x, str) and x <= TOL, 'concurrent solves: residual of the solution', got=x)
            mon.event('solves')
    mon.event('solves begun while another one ran', overlaps[0])


SCENARIOS = [('history', history, 130, 1500), ('gradient', gradient, 35, 300), ('kinds', kinds, 28, 280), ('threads', threads, 12, 120)]
