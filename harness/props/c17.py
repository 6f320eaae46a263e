"""C17: local exponential propagators against dense matrix exponentials of the operators they were given."""
import numpy as np
import dense, gen, workloads
from common import Skip
from monitors import watch
from props import c16
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.sexpmv as sx

RULE = ("effective one-site and bond Hamiltonians (random hermitian blocks, states and models; non-hermitian for the Arnoldi and Runge-Kutta "
        "propagators), steps of both signs, real, imaginary and complex, of size 0 to 3 in units of 1/||H||, numpy and python scalars; gexpmv with "
        "arbitrary matrices of 1 to 60 dimensions; all propagator calls of TDVP runs observed online")
ASSUMPTIONS = ["Krylov dimension and step are chosen such that the Krylov error bound (tau*||H||)^m/m! is below the tolerance",
               "Sexpmv uses EXPOKIT's default tolerance sqrt(machine epsilon) per unit time"]


def step(ctx, size, kinds=("real", "imag", "complex")):
    k = ctx.pick(*kinds)
    t = ctx.pick(0.01, 0.1, 0.5, 1.0, 2.0, 3.0) / size * ctx.pick(1, -1) * ctx.rng.uniform(0.5, 1.0)
    if ctx.flag(0.03):
        t = 0.0
    if k == "imag":
        t = 1j * t
    elif k == "complex":
        t = t * np.exp(1j * ctx.rng.uniform(0, 2 * np.pi))
    if ctx.flag(0.3):
        t = np.complex128(t) if k != "real" else np.float64(t)
    else:
        t = complex(t) if k != "real" else float(t)
    return k, t


def nonherm_blocks(ctx):
    while True:
        D1, D2, d, M1, M2 = ctx.size(1, 5, 10), ctx.size(1, 5, 10), ctx.integer(2, 3), ctx.integer(1, 3), ctx.integer(1, 3)
        if D1 * D2 * d <= 150:
            break
    a, b, c, e = [gen.dtype(ctx) for _ in range(4)]
    return "general", ctx.array((D1, D1, M1), a), ctx.array((M1, M2, d, d), b), ctx.array((D2, D2, M2), c), ctx.array((D1, D2, d), e)


def one_site(ctx):
    meth = ctx.pick("Sexpmv", "Lan", "ivp")
    if meth == "Lan" or ctx.flag(0.6):
        try:
            kind, L, W, R, x = c16.herm_blocks(ctx)
            herm = True
        except Skip:
            kind, L, W, R, x = nonherm_blocks(ctx)
            herm = False
            if meth == "Lan":
                raise
    else:
        kind, L, W, R, x = nonherm_blocks(ctx)
        herm = False
    if ctx.flag(0.2):
        # product-state sized problems
        D1 = D2 = 1
        L, R, x = L[:1, :1], R[:1, :1], np.ascontiguousarray(x[:1, :1])
        if herm and kind != "random":
            L, R = L.real.copy(), R.real.copy()
    x = x * ctx.pick(1.0, 0.05, 7.0)
    A = dense.heff_one(L, W, R)
    if herm:
        A = (A + A.conj().T) / 2
    call = lambda t, y, **k: {"Sexpmv": mf.evolveTensorSexpmv, "Lan": mf.evolveTensorLan, "ivp": mf.evolveTensorsolve_ivp}[meth](L, W, R, y, t, **k)
    propagate(ctx, meth, "one-site %s" % kind, A, herm, x, call, [L, W, R, x])


def bond(ctx):
    meth = ctx.pick("Sexpmv", "Lan", "ivp")
    D, M = ctx.size(1, 8, 14), ctx.integer(1, 4)
    dt, dt2 = gen.dtype(ctx), gen.dtype(ctx)
    herm = meth == "Lan" or ctx.flag(0.6)
    if herm:
        L = np.stack([ctx.herm(D, dt) for _ in range(M)], axis=2)
        R = np.stack([ctx.herm(D, dt) for _ in range(M)], axis=2)
    else:
        L, R = ctx.array((D, D, M), dt), ctx.array((D, D, M), dt2)
    x = ctx.array((D, D), dt2) * ctx.pick(1.0, 0.05, 7.0)
    A = dense.heff_bond(L, R)
    call = lambda t, y, **k: {"Sexpmv": mf.evolveMatrixSexpmv, "Lan": mf.evolveMatrixLan, "ivp": mf.evolveMatrixsolve_ivp}[meth](L, R, y, t, **k)
    propagate(ctx, meth, "bond D=%d" % D, A, herm, x, call, [L, R, x])


def propagate(ctx, meth, what, A, herm, x, call, inputs):
    n = x.size
    size = max(np.linalg.norm(A, 2), 1e-6)
    keep = [np.array(t) for t in inputs]
    kinds = ("real", "imag", "complex")
    k, tau = step(ctx, size, kinds)
    kw, tol = {}, 1e-6
    if meth == "Sexpmv" and size > 50:
        raise Skip("EXPOKIT's step control is relative to anorm=1")
    if meth == "Lan":
        m = ctx.pick(20, 25, 30)
        kw = dict(krylov_dimension=m, delta=ctx.pick(1e-8, 1e-10))
        tol = 1e-7
    elif meth == "ivp":
        r = ctx.pick(1e-8, 1e-10)
        kw = dict(method=ctx.pick("RK45", "RK23", "DOP853") if r > 1e-9 else ctx.pick("RK45", "DOP853"), rtol=r, atol=r * 1e-2)
        tol = 1e-5
    fac = -1j if meth == "ivp" else 1.0
    prop = lambda t: dense.expm(fac * t * A)
    tag = "evolve %s %s (%s, n=%d, tau=%s %s)" % (meth, kw.get("method", ""), what, n, tau, type(tau).__name__)
    nx = np.linalg.norm(x)
    U = prop(tau)
    growth = max(1.0, np.linalg.norm(U, 2))
    y = call(tau, x, **kw)
    ctx.check(np.shape(y) == x.shape, tag + ": shape %s" % (np.shape(y),))
    want = (x.reshape(-1) @ U).reshape(x.shape)
    if meth == "ivp":
        ctx.check(np.iscomplexobj(y), tag + ": real result of a unitary evolution")
    ctx.close(y, want, tag, tol=tol * growth, scale=nx)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), tag + ": inputs modified")
    unitary = herm and k == ("real" if meth == "ivp" else "imag")
    if unitary:
        ctx.close(np.linalg.norm(y), nx, tag + ": norm", tol=tol, scale=nx)
        q = lambda v: np.real(np.vdot(v, v.reshape(-1) @ A))
        ctx.close(q(y), q(x), tag + ": energy", tol=3 * tol, scale=nx ** 2 * size)
        ctx.count("unitary steps")
    # forward and back, and composition
    if growth < 50:
        z = call(-tau, y, **kw)
        ctx.close(z, x, tag + ": forward and back", tol=4 * tol * growth ** 2, scale=nx)
        half = call(tau / 2, call(tau / 2, x, **kw), **kw)
        ctx.close(half, y, tag + ": two half steps", tol=3 * tol * growth ** 2, scale=nx)
        if np.isrealobj(x) or ctx.flag(0.3):
            c = (0.3 - 1.1j) if meth != "ivp" else 1j
            ctx.close(call(tau, c * x, **kw), c * want, tag + ": not linear", tol=2 * tol * growth * abs(c), scale=nx)
    ctx.count("steps " + meth)
    ctx.sig(meth, what, n, k, type(tau).__name__, str(sorted(kw)), np.dtype(x.dtype).name, herm)


class Op(object):
    def __init__(self, A):
        self.A, self.shape, self.dtype, self.n = A, A.shape, A.dtype, 0

    def matvec(self, v):
        self.n += 1
        return self.A @ v


def expokit(ctx):
    """gexpmv as a general-purpose routine: arbitrary matrices, norms, tolerances, Krylov dimensions"""
    n = ctx.pick(ctx.integer(1, 4), ctx.integer(3, 25), ctx.integer(20, 60))
    dt = gen.dtype(ctx)
    kind = ctx.pick("general", "herm", "antiherm", "lowrank", "diag", "nilpotent", "zero")
    if kind == "herm":
        A = ctx.herm(n, dt)
    elif kind == "antiherm":
        A = ctx.array((n, n), dt)
        A = A - A.conj().T
    elif kind == "lowrank":
        k = ctx.integer(1, n)
        A = ctx.array((n, k), dt) @ ctx.array((k, n), dt) / n
    elif kind == "diag":
        A = np.diag(ctx.array(n, dt))
    elif kind == "nilpotent":
        A = np.triu(ctx.array((n, n), dt), 1)
    elif kind == "zero":
        A = np.zeros((n, n), dtype=dt)
    else:
        A = ctx.array((n, n), dt)
    nrm = np.linalg.norm(A, 2)
    if nrm > 0:
        A = A * (ctx.pick(0.3, 1.0, 4.0) / nrm)
        nrm = np.linalg.norm(A, 2)
    t = ctx.pick(0.05, 0.5, 1.0, 3.0) * ctx.pick(1, -1)
    tol = ctx.pick(0.0, 1e-10, 1e-6)
    v = ctx.array(n, dt) * ctx.pick(1.0, 0.01, 100.0)
    if ctx.flag(0.15):
        v = np.zeros(n, dtype=dt)
        v[ctx.integer(0, n - 1)] = 1.0
    anorm = max(ctx.pick(1.0, nrm, np.linalg.norm(A, 1), np.linalg.norm(A, "fro")), 1e-3)
    m = None if ctx.flag(0.6) or n < 4 else ctx.integer(2, min(n - 1, 25))
    op = Op(A)
    keepA, keepv = A.copy(), v.copy()
    w, ok, nstep, brk, mbrk = sx.gexpmv(op, v, t, anorm, m=m, tol=tol)
    tag = "gexpmv(%s, n=%d, t=%g, tol=%g, m=%s, anorm=%.2g, |A|=%.2g)" % (kind, n, t, tol, m, anorm, nrm)
    ctx.check(np.array_equal(A, keepA) and np.array_equal(v, keepv), tag + ": inputs modified")
    ctx.check(np.shape(w) == v.shape, tag + ": shape")
    if not ok:
        ctx.count("gexpmv gave up")
        raise Skip("not converged within the allowed steps")
    U = dense.expm(t * A)
    eff = max(tol, 1.5e-8)
    ctx.close(w, U @ v, tag, tol=100 * eff * max(1.0, abs(t)) * max(1.0, np.linalg.norm(U, 2)) ** 2 * max(1, nrm), scale=max(1.0, np.linalg.norm(v)))
    ctx.count("gexpmv internal steps", nstep)
    ctx.sig(kind, n, np.dtype(dt).name, t, tol, m, brk)


def online(ctx):
    """all propagator calls of a TDVP run, forward on sites and backward on bonds"""
    mpo, d = workloads.model(ctx, ctx.integer(3, 6))
    N = len(mpo)
    m, ds, v = gen.state(ctx, [d] * N, kind=ctx.pick("flat", "random", "one"), norm="unit")
    m.position(0)
    solver = ctx.pick("LAN", "SEXPMV", "RK45")
    e = en.TimeEvolutionEngine(m, mpo, "e")
    dt = ctx.pick(-1j, 1j, -1.0) if solver != "RK45" else ctx.pick(-1j, 1j)
    dt = dt * ctx.pick(0.01, 0.05)
    seen = [0]

    def check(A, x, tau, y, fac, name):
        x = np.asarray(x)
        want = (x.reshape(-1) @ dense.expm(fac * tau * A)).reshape(x.shape)
        ctx.close(y, want, "%s in TDVP (%s, tau=%s)" % (name, x.shape, tau), tol=2e-3 if solver == "RK45" else 1e-5, scale=np.linalg.norm(x))
        seen[0] += 1

    def one(fac, name):
        def f(a, k, res):
            if a[3].size <= 150:
                check(dense.heff_one(a[0], np.asarray(a[1]), a[2]), a[3], a[4], res, fac, name)
        return f

    def two(fac, name):
        def f(a, k, res):
            if a[2].size <= 150:
                check(dense.heff_bond(a[0], a[1]), a[2], a[3], res, fac, name)
        return f
    with watch((mf, "evolveTensorLan", one(1.0, "evolveTensorLan")), (mf, "evolveMatrixLan", two(1.0, "evolveMatrixLan")),
               (mf, "evolveTensorSexpmv", one(1.0, "evolveTensorSexpmv")), (mf, "evolveMatrixSexpmv", two(1.0, "evolveMatrixSexpmv")),
               (mf, "evolveTensorsolve_ivp", one(-1j, "evolveTensorsolve_ivp")), (mf, "evolveMatrixsolve_ivp", two(-1j, "evolveMatrixsolve_ivp"))):
        e.doTDVP(dt, 2, krylov_dim=20, verbose=0, solver=solver)
    ctx.count("propagator calls observed", seen[0])
    ctx.sig(solver, N, d, dt, m.D)


CASES = [("one-site", one_site, 600, 15000), ("bond", bond, 600, 15000), ("expokit", expokit, 1100, 20000), ("online", online, 80, 1000)]
