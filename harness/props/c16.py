"""C16: Krylov eigensolvers against dense diagonalisation of the operator they were given."""
import warnings
import numpy as np
import dense, gen, workloads
from common import Skip
from monitors import watch
from props import c14
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.Lanczos.LanczosEngine as lan

RULE = ("hermitian operators with generic, clustered, exactly degenerate, shifted, scaled and low-rank spectra (real and complex, 1-40 dimensional) "
        "for LanczosEngine; effective one-site and bond Hamiltonians built from random hermitian blocks and from real states and models for the "
        "tensor solvers; solver calls of DMRG runs observed online; distinct per solver, kind of spectrum, dimension and parameters")
ASSUMPTIONS = ["start vectors are generic (not orthogonal to the lowest eigenvector by symmetry)",
               "a convergence report of LanczosEngine means that the Ritz values moved less than deltaEta between two tests; the implied residual is "
               "sqrt(deltaEta * spectral width)",
               "several eigenvectors of LanczosEngine are claimed with reorthogonalisation only, and as many as the Krylov space of the start vector holds"]


def spectrum(ctx, n):
    k = ctx.pick("generic", "generic", "degenerate", "cluster", "lowrank", "twofold", "identity")
    if k == "generic":
        e = ctx.rng.standard_normal(n)
    elif k == "degenerate":
        e = np.round(ctx.rng.standard_normal(n) * 1.5)
    elif k == "cluster":
        e = ctx.rng.standard_normal(n) + ctx.rng.randint(0, 3, n) * 5
    elif k == "lowrank":
        e = np.where(ctx.rng.random_sample(n) < 0.3, ctx.rng.standard_normal(n), 0.0)
    elif k == "twofold":
        e = np.repeat(ctx.rng.standard_normal((n + 1) // 2), 2)[:n]
    else:
        e = np.full(n, ctx.rng.standard_normal())
    e = e * ctx.pick(1.0, 1.0, 10.0, 0.1) + ctx.pick(0.0, 0.0, 7.0, -7.0)
    return k, np.sort(e)


def matrix(ctx, n, dt):
    k, e = spectrum(ctx, n)
    q = np.linalg.qr(ctx.array((n, n), dt))[0]
    H = (q * e) @ q.conj().T
    H = (H + H.conj().T) / 2
    return k, H, np.linalg.eigvalsh(H)


def engine(ctx):
    n = ctx.integer(1, 40)
    dt = gen.dtype(ctx)
    kind, H, ev = matrix(ctx, n, dt)
    width = max(ev[-1] - ev[0], 1e-12)
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    reo = ctx.flag(0.5)
    numeig = ctx.integer(1, min(4, n)) if reo else 1
    Nd = ctx.integer(1, 10)
    ncv = ctx.pick(ctx.integer(numeig, 6), 60, 100)
    ncv = max(ncv, numeig)
    deltaEta = ctx.pick(1e-12, 1e-10, 1e-6)
    v0 = ctx.array(n, ctx.pick(dt, dt, float)) * ctx.pick(1.0, 1e-2, 30.0)
    start = ctx.pick("generic", "generic", "eigenvector", "subspace")
    if start == "eigenvector":
        w, u = np.linalg.eigh(H)
        v0 = u[:, ctx.integer(0, n - 1)] * 2.0
    elif start == "subspace":
        w, u = np.linalg.eigh(H)
        k = ctx.integer(1, min(3, n))
        v0 = u[:, ctx.rng.permutation(n)[:k]] @ ctx.array(k, v0.dtype)
    keep = v0.copy()
    calls = [0]

    def mv(x):
        calls[0] += 1
        return H @ x
    L = lan.LanczosEngine(mv, np.dot, np.zeros, Nd, ncv, numeig, 1e-10, deltaEta)
    eta, states, conv = L.__simulate__(v0, reortho=reo)
    tag = "LanczosEngine (%s, n=%d, %s start, Ndiag=%d, ncv=%d, numeig=%d, reortho=%s)" % (kind, n, start, Nd, ncv, numeig, reo)
    ctx.check(np.array_equal(v0, keep) and v0.dtype == keep.dtype, tag + ": start vector modified")
    eta = np.asarray(eta)
    ctx.check(np.isrealobj(eta) or np.max(np.abs(eta.imag)) == 0, tag + ": complex eigenvalues")
    ctx.check(len(eta) == len(states) and 1 <= len(eta) <= numeig, tag + ": %d values, %d vectors" % (len(eta), len(states)))
    ctx.check(all(np.diff(eta) >= -1e-9 * size), tag + ": not ascending")
    rq = np.real(np.vdot(v0, H @ v0)) / np.real(np.vdot(v0, v0))
    ctx.check(eta[0] >= ev[0] - 1e-9 * size, tag + ": value %.12g below the lowest eigenvalue %.12g" % (eta[0], ev[0]))
    ctx.check(eta[0] <= rq + 1e-9 * size, tag + ": value %.12g above the Rayleigh quotient of the start %.12g" % (eta[0], rq))
    dist = [ev[0]]
    for x in ev[1:]:
        if x - dist[-1] > 1e-7 * size:
            dist.append(x)
    # without reorthogonalisation the vectors mean nothing once the Krylov space is exhausted
    vectors = reo or calls[0] - 1 <= len(dist)
    for k, (e, s) in enumerate(zip(eta, states)):
        ctx.close(np.linalg.norm(s), 1.0, tag + ": norm of eigenvector %d" % k, tol=1e-10)
        if vectors:
            ctx.close(np.real(np.vdot(s, H @ s)), e, tag + ": Rayleigh quotient of vector %d" % k, tol=1e-7, scale=size)
        ctx.check(e >= ev[k] - 1e-8 * size, tag + ": value %d %.12g below the true one %.12g" % (k, e, ev[k]))
    if conv and vectors:
        bound = 20 * np.sqrt(deltaEta * width) + 1e-7 * size
        for k, (e, s) in enumerate(zip(eta, states)):
            r = np.linalg.norm(H @ s - e * s)
            ctx.check(r <= bound, tag + ": residual %.2e of pair %d although convergence is reported (deltaEta %.0e)" % (r, k, deltaEta))
        ctx.count("convergence reports checked")
    if reo:
        S = np.array(states)
        ctx.close(S.conj() @ S.T, np.eye(len(S)), tag + ": eigenvectors orthonormal", tol=1e-7)
    if start == "generic" and ncv >= 60 and deltaEta <= 1e-10:
        # enough steps for the whole space: the result must be the lowest level
        ctx.check(conv, tag + ": not converged after %d steps in %d dimensions" % (ncv, n))
        ctx.check(eta[0] - ev[0] <= 1e-5 * width + 1e-8 * size, tag + ": lowest level %.12g, expected %.12g" % (eta[0], ev[0]))
        if reo:
            if min(np.diff(dist)) > 0.02 * width if len(dist) > 1 else True:
                m = min(numeig, len(dist))
                ctx.check(len(eta) >= m, tag + ": %d pairs returned, the Krylov space holds %d" % (len(eta), m))
                # rounding may bring in further copies of a degenerate level
                ctx.check(all(eta[k] <= dist[k] + 1e-4 * width + 1e-8 * size for k in range(m)),
                          tag + ": levels %s, expected %s" % (eta[:m], dist[:m]))
    elif start == "eigenvector" :
        ctx.check(conv, tag + ": exact eigenvector not recognised")
        ctx.close(eta[0], rq, tag + ": eigenvalue of an exact eigenvector", tol=1e-9, scale=size)
    ctx.check(calls[0] <= ncv + 4, tag + ": %d operator applications with ncv=%d" % (calls[0], ncv))
    ctx.sig(kind, n, np.dtype(dt).name, start, Nd, ncv, numeig, reo, conv)
    ctx.count("steps", calls[0])


def herm_blocks(ctx, maxdim=250):
    """L, W, R whose effective Hamiltonian is hermitian; either random or from a state and a model"""
    if ctx.flag(0.5):
        while True:
            D1, D2, d, M1, M2 = ctx.size(1, 6, 14), ctx.size(1, 6, 14), ctx.integer(2, 3), ctx.integer(1, 4), ctx.integer(1, 4)
            if 3 <= D1 * D2 * d <= maxdim:
                break
        if ctx.flag(0.15):
            D1, D2, d = 1, ctx.integer(1, 3), 4
        dt = gen.dtype(ctx)
        L = np.stack([ctx.herm(D1, dt) for _ in range(M1)], axis=2)
        R = np.stack([ctx.herm(D2, dt) for _ in range(M2)], axis=2)
        W = np.zeros((M1, M2, d, d), dtype=dt)
        for i in range(M1):
            for j in range(M2):
                W[i, j] = ctx.herm(d, dt)
        x = ctx.array((D1, D2, d), dt)
        return "random", L, W, R, x
    kind, mpo, ds, herm = c14.model(ctx, ctx.integer(2, 6))
    if not herm or np.prod(ds) > 800:
        raise Skip("not hermitian")
    m, _, v = gen.state(ctx, ds, norm="unit")
    N = len(ds)
    n = ctx.integer(0, N - 1)
    m.position(n)
    ts = [np.array(t) for t in m.tensors]
    one = np.ones((1, 1, 1))
    L = dense.env_left(ts[:n], [np.asarray(mpo[i]) for i in range(n)], ts[:n], one)
    R = dense.env_right(ts[n + 1:], [np.asarray(mpo[i]) for i in range(n + 1, N)], ts[n + 1:], one)
    c = np.tensordot(m._mat, ts[n], ([1], [0]))
    if not 3 <= c.size <= maxdim:
        raise Skip("size")
    x = c + 0.1 * np.linalg.norm(c) / np.sqrt(c.size) * ctx.array(c.shape, c.dtype)
    return kind, L, np.array(mpo[n]), R, x


def verify(ctx, tag, A, ev, x, es, vs, tol_res, tol_low, conv, shape, lowest=True):
    """A: dense [in,out] operator, acting as x@A"""
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    width = max(ev[-1] - ev[0], 1e-12)
    x = x.reshape(-1)
    rq = np.real(np.vdot(x, x @ A)) / np.real(np.vdot(x, x))
    es = np.asarray(es)
    ctx.check(es.ndim == 1 and len(es) == len(vs), tag + ": number of values and vectors")
    ctx.check(np.max(np.abs(np.imag(es))) == 0, tag + ": complex eigenvalue")
    ctx.check(all(np.diff(es) >= -1e-9 * size), tag + ": values not ascending")
    V = []
    for k, (e, v) in enumerate(zip(es, vs)):
        v = np.asarray(v)
        ctx.check(v.shape == shape, tag + ": vector of shape %s, tensor %s" % (v.shape, shape))
        v = v.reshape(-1)
        V.append(v)
        ctx.close(np.linalg.norm(v), 1.0, tag + ": norm of vector %d" % k, tol=1e-8)
        ctx.close(np.vdot(v, v @ A), e, tag + ": value %d is not the Rayleigh quotient of its vector" % k, tol=1e-6, scale=size)
        ctx.check(e >= ev[k] - 1e-8 * size, tag + ": value %d %.12g below the true one %.12g" % (k, e, ev[k]))
        if conv:
            r = np.linalg.norm(v @ A - e * v)
            ctx.check(r <= tol_res, tag + ": residual %.2e of pair %d, tolerance %.1e" % (r, k, tol_res))
    ctx.check(es[0] <= rq + 1e-8 * size, tag + ": value %.12g above the Rayleigh quotient of the start %.12g" % (es[0], rq))
    V = np.array(V)
    # ARPACK's complex (non-symmetric) mode does not orthogonalise within a degenerate level
    G = V.conj() @ V.T - np.eye(len(V))
    if np.iscomplexobj(A):
        near = np.abs(es[:, None] - es[None, :]) < 1e-3 * width
        G[near & ~np.eye(len(V), dtype=bool)] = 0
    ctx.close(G, np.zeros_like(G), tag + ": vectors orthonormal", tol=1e-6, scale=1.0)
    if conv and lowest:
        ctx.check(all(es <= ev[:len(es)] + tol_low * width + 1e-8 * size), tag + ": levels %s, expected %s" % (es, ev[:len(es)]))


def slow(ev, nv):
    """restarted Arnoldi needs about 1/gap steps: leave out almost (but not exactly) degenerate levels"""
    g = np.diff(ev[:nv + 2]) / max(np.max(np.abs(ev)), 1e-12)
    if np.any((g > 1e-13) & (g < 1e-4)):
        raise Skip("almost degenerate levels")


def tensor_solvers(ctx):
    """lanczos, eigsh and lobpcg on one-site problems"""
    kind, L, W, R, x = herm_blocks(ctx)
    A = dense.heff_one(L, W, R)
    A = (A + A.conj().T) / 2
    ev = np.linalg.eigvalsh(A)
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    width = max(ev[-1] - ev[0], 1e-12)
    n = x.size
    gap = ev[1] - ev[0] if n > 1 else width
    keep = [t.copy() for t in (L, W, R, x)]
    solver = ctx.pick("lanczos", "eigsh", "lobpcg")
    tol = ctx.pick(1e-6, 1e-8, 1e-10)
    if ctx.flag(0.4):
        # almost converged start, as in every later sweep of DMRG
        w, u = np.linalg.eigh(A.T)
        x = (u[:, 0] + 10.0 ** ctx.integer(-9, -2) * ctx.array(n, A.dtype)).reshape(x.shape)
        keep[3] = x.copy()
        kind += " near"
    tag = "%s (%s, %s)" % (solver, kind, x.shape)
    if solver == "lanczos":
        numeig = ctx.pick(1, 1, 2, 3) if ctx.flag(0.5) else 1
        Nd = ctx.integer(1, 10)
        dE = ctx.pick(1e-12, 1e-10, 1e-8)
        out = mf.lanczos(L, W, R, x, 1e-6, Ndiag=Nd, nmax=ctx.pick(160, 300), numeig=1, delta=1e-8, deltaEta=dE)
        verify(ctx, tag + " Ndiag=%d deltaEta=%.0e" % (Nd, dE), A, ev, x, [out[0]], [out[1]], 30 * np.sqrt(dE * width) + 1e-6 * size, 1e-4, True, x.shape)
        if numeig > 1 and n > 3 * numeig:
            # few steps: the Krylov basis is orthogonal to machine precision and the Ritz pairs are variational
            es, vs = mf.lanczos(L, W, R, x, 1e-6, Ndiag=Nd, nmax=numeig, numeig=numeig, delta=1e-8, deltaEta=1e-14)
            if es:
                verify(ctx, tag + " numeig=%d" % numeig, A, ev, x, es, vs, None, None, False, x.shape)
        sig = (Nd, dE, numeig)
    elif solver == "eigsh":
        if n < 4:
            raise Skip("dimension too small for ARPACK")
        nv = ctx.integer(1, min(4, n - 2))
        ncv = ctx.integer(min(n, nv + 6), min(n, 25))
        slow(ev, nv)
        nr = ctx.integer(1, nv) if ctx.flag(0.85) else nv + ctx.integer(1, 2)     # more vectors requested than calculated: all that there are
        out = mf.eigsh(L, W, R, x, tolerance=tol, numvecs=nv, numcv=ncv, numvecs_returned=nr)
        es, vs = ([out[0]], [out[1]]) if nr == 1 else out
        ctx.check(len(es) == min(nr, nv) and len(vs) == len(es), tag + ": %d pairs instead of %d" % (len(es), min(nr, nv)))
        nondeg = n > nv and np.min(np.diff(ev[:nv + 1])) > 1e-3 * width
        verify(ctx, tag + " tol=%.0e k=%d ncv=%d" % (tol, nv, ncv), A, ev, x, es, vs, 100 * tol * size + 1e-9 * size, 1e-4, True, x.shape, lowest=nondeg)
        sig = (tol, nv, ncv, nr)
    else:
        nr = ctx.pick(1, 1, 2, 3)
        if n < 5 * nr + 1:
            nr = 1
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = mf.lobpcg(L, W, R, x, tolerance=tol, numvecs_returned=nr)
        conv = not w
        es, vs = ([out[0]], [out[1]]) if nr == 1 else out
        ctx.check(len(es) == nr, tag + ": %d pairs instead of %d" % (len(es), nr))
        nondeg = np.min(np.diff(ev[:nr + 1])) > 1e-2 * width
        verify(ctx, tag + " tol=%.0e nr=%d" % (tol, nr), A, ev, x, es, vs, 100 * tol * max(1, size) + 1e-8 * size, 1e-4, conv, x.shape,
               lowest=nondeg and tol <= 1e-8)
        ctx.count("lobpcg converged" if conv else "lobpcg not converged")
        sig = (tol, nr)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (L, W, R, x))), tag + ": inputs modified")
    ctx.count("calls " + solver)
    ctx.sig(solver, kind, x.shape, *sig)


def bond_solvers(ctx):
    """lanczosbond, eigshbond (bond to the left or right of a tensor) and eigshbondsimple"""
    pos = ctx.pick("left", "right")
    D1, D2, d, M1, M2 = ctx.integer(1, 8), ctx.integer(1, 8), ctx.integer(2, 3), ctx.integer(1, 4), ctx.integer(1, 4)
    dt, dt2 = gen.dtype(ctx), gen.dtype(ctx)
    D1 = D2                               # these solvers shape their result by the outer blocks
    A = ctx.array((D1, D2, d), dt)
    W = np.zeros((M1, M2, d, d), dtype=dt)
    for i in range(M1):
        for j in range(M2):
            W[i, j] = ctx.herm(d, dt)
    D = D2 if pos == "right" else D1
    if D < 2:
        raise Skip("one-dimensional bond")
    herm = lambda n, m, t: np.stack([ctx.herm(n, t) for _ in range(m)], axis=2)
    L, R = herm(D1, M1, dt2), herm(D2, M2, dt)
    solver = ctx.pick("lanczosbond", "eigshbond", "eigshbondsimple")
    if solver == "eigshbondsimple":
        M2 = M1
        L, R = herm(D, M1, dt), herm(D, M1, dt)
        Hd = dense.heff_bond(L, R)
        x = ctx.array((D, D), dt)
    else:
        if pos == "right":
            Hd = dense.heff_bond(dense.env_left([A], [W], [A], L), R)
        else:
            Hd = dense.heff_bond(L, dense.env_right([A], [W], [A], R))
        x = ctx.array((D, D), gen.dtype(ctx))
        if np.iscomplexobj(Hd) is False and ctx.flag():
            x = x.real.copy()
    Hd = (Hd + Hd.conj().T) / 2
    ev = np.linalg.eigvalsh(Hd)
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    width = max(ev[-1] - ev[0], 1e-12)
    n = x.size
    keep = [t.copy() for t in (L, W, A, R, x)]
    tag = "%s (%s, D=%d)" % (solver, pos, D)
    if solver == "lanczosbond":
        Nd, dE = ctx.integer(1, 10), ctx.pick(1e-12, 1e-10, 1e-8)
        e, v = mf.lanczosbond(L, W, A, R, x, pos, Ndiag=Nd, nmax=ctx.pick(60, 200), numeig=1, delta=1e-10, deltaEta=dE)
        verify(ctx, tag, Hd, ev, x, [e], [v], 30 * np.sqrt(dE * width) + 1e-6 * size, 1e-4, True, x.shape)
        k = ctx.integer(2, 3)
        if n > 3 * k and ctx.flag():
            es, vs = mf.lanczosbond(L, W, A, R, x, pos, Ndiag=Nd, nmax=k, numeig=k, delta=1e-10, deltaEta=1e-14)
            ctx.check(len(es) == len(vs) and 1 <= len(es) <= k, tag + ": %d values, %d vectors" % (len(es), len(vs)))
            verify(ctx, tag + " numeig=%d" % k, Hd, ev, x, es, vs, None, None, False, x.shape)
    else:
        if n < 4:
            raise Skip("dimension too small for ARPACK")
        nv = ctx.integer(1, min(3, n - 2)) if solver == "eigshbond" else 1
        ncv = ctx.integer(min(n, nv + 6), min(n, 25))
        slow(ev, nv)
        tol = ctx.pick(1e-6, 1e-8, 1e-10)
        if solver == "eigshbond":
            nr = ctx.integer(1, nv) if ctx.flag(0.85) else nv + ctx.integer(1, 2)
            out = mf.eigshbond(L, W, A, R, x, pos, tolerance=tol, numvecs=nv, numcv=ncv, numvecs_returned=nr)
            es, vs = ([out[0]], [out[1]]) if nr == 1 else out
            ctx.check(len(es) == min(nr, nv) and len(vs) == len(es), tag + ": number of pairs")
        else:
            e, v = mf.eigshbondsimple(L, R, x, tolerance=tol, numvecs=1, numcv=ncv)
            es, vs = np.atleast_1d(e), [v]
        nondeg = np.min(np.diff(ev[:nv + 1])) > 1e-3 * width
        verify(ctx, tag + " tol=%.0e" % tol, Hd, ev, x, es, vs, 100 * tol * size + 1e-9 * size, 1e-4, True, x.shape, lowest=nondeg)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (L, W, A, R, x))), tag + ": inputs modified")
    ctx.count("calls " + solver)
    ctx.sig(solver, pos, D1, D2, d, M1, M2, np.dtype(dt).name)


def online(ctx):
    """every solver call of DMRG runs: eigenpair of the hermitian operator handed over, not above the start"""
    mpo, d = workloads.model(ctx, ctx.integer(3, 6))
    N = len(mpo)
    m, ds, v = gen.state(ctx, [d] * N, kind=ctx.pick("flat", "random"))
    m.position(0)
    if min(t.size for t in m.tensors) < 4:
        raise Skip("local problem too small for the iterative solvers")
    e = en.DMRGengine(m, mpo, "e")
    solver = ctx.pick("AR", "LAN", "LOBPCG")
    two = ctx.flag(0.3) and solver != "LOBPCG"
    seen = [0]

    def contract(args, kw, res):
        L, W, R, x = args[:4]
        if x.size > 260:
            return
        A = dense.heff_one(L, np.asarray(W), R)
        s = max(np.linalg.norm(A), 1e-12)
        ctx.check(np.linalg.norm(A - A.conj().T) <= 1e-8 * s, "local problem of %s is not hermitian" % solver)
        A = (A + A.conj().T) / 2
        ev = np.linalg.eigvalsh(A)
        e0, v0 = res
        verify(ctx, "%s in DMRG%s" % (solver, " (two-site)" if two else ""), A, ev, np.asarray(x), [e0], [v0], None, None, False, np.shape(x))
        seen[0] += 1
    name = {"AR": "eigsh", "LAN": "lanczos", "LOBPCG": "lobpcg"}[solver]
    with watch((mf, name, contract)):
        if two:
            e.simulateTwoSite(Nmax=2, Econv=1e-12, tol=1e-8, ncv=12, cp=None, verbose=0, solver=solver)
        else:
            e.simulate(Nmax=2, Econv=1e-12, tol=1e-8, ncv=12, cp=None, verbose=0, solver=solver)
    ctx.count("solver calls observed", seen[0])
    ctx.sig(solver, two, N, d, m.D)


CASES = [("engine", engine, 1800, 40000), ("tensor-solvers", tensor_solvers, 1500, 30000), ("bond-solvers", bond_solvers, 2000, 40000),
         ("online", online, 120, 2500)]
