"""C12: transfer operators and their dominant eigenpairs against dense transfer matrices."""
import numpy as np
import dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("random (rectangular) tensors and unit cells of 1-4 sites, real/complex/mixed dtypes, different bond dimensions of the two layers, arrays and MPS "
        "objects; eigensolvers on injective cells with random and given start vectors")
ASSUMPTIONS = ["eigensolvers: cells with a spectral gap of at least 10%"]


def lmap(x, A, B):
    return np.einsum("ab,acs,bds->cd", x, A, np.conj(B), optimize=True)


def rmap(x, A, B):
    return np.einsum("cd,acs,bds->ab", x, A, np.conj(B), optimize=True)


def wrap(ctx, A):
    """array or single-site MPS object"""
    if A.shape[0] == A.shape[1] and A.shape[0] > 1 and ctx.flag(0.3):
        return mpslib.MPS([A])
    return A


def single(ctx):
    D1, D2, d = ctx.size(1, 5, 14), ctx.size(1, 5, 14), ctx.integer(1, 4)
    if ctx.flag():
        D2 = D1
    E1, E2 = ctx.size(1, 5, 14), ctx.size(1, 5, 14)
    if ctx.flag():
        E2 = E1
    dt = [gen.dtype(ctx) for _ in range(3)]
    A, B = ctx.array((D1, D2, d), dt[0]), ctx.array((E1, E2, d), dt[1])
    A0, B0 = A.copy(), B.copy()
    x, y = ctx.array((D1, E1), dt[2]), ctx.array((D2, E2), dt[2])
    a, b = wrap(ctx, A), wrap(ctx, B)
    kind = "%s/%s" % (type(a).__name__, type(b).__name__)
    xl = mf.MixedTransferOperator(1, a, b, x.reshape(-1))
    ctx.close(xl, lmap(x, A, B).reshape(-1), "MixedTransferOperator left (%s)" % kind, tol=1e-11)
    yr = mf.MixedTransferOperator(-1, a, b, y.reshape(-1))
    ctx.close(yr, rmap(y, A, B).reshape(-1), "MixedTransferOperator right (%s)" % kind, tol=1e-11)
    # transposed maps
    ctx.close(np.sum(xl * y.reshape(-1)), np.sum(x.reshape(-1) * yr), "left/right transposition", tol=1e-10,
              scale=np.linalg.norm(xl) * np.linalg.norm(y))
    ctx.close(mf.GeneralizedMatrixVectorProduct(1, B, A, x.reshape(-1)), xl, "GeneralizedMatrixVectorProduct left", tol=1e-12)
    ctx.close(mf.GeneralizedMatrixVectorProduct(-1, B, A, y.reshape(-1)), yr, "GeneralizedMatrixVectorProduct right", tol=1e-12)
    x2, y2 = ctx.array((D1, D1), dt[2]), ctx.array((D2, D2), dt[2])
    ctx.close(mf.TransferOperator(1, a, x2.reshape(-1)), lmap(x2, A, A).reshape(-1), "TransferOperator left", tol=1e-11)
    ctx.close(mf.TransferOperator(-1, a, y2.reshape(-1)), rmap(y2, A, A).reshape(-1), "TransferOperator right", tol=1e-11)
    M = ctx.integer(1, 3)
    X = ctx.array((D1, E1, M), dt[2])
    Y = ctx.array((D2, E2, M), dt[2])
    ctx.close(mf.addELayer(X, A, B, 1), np.stack([lmap(X[:, :, k], A, B) for k in range(M)], 2), "addELayer left", tol=1e-11)
    ctx.close(mf.addELayer(Y, A, B, -1), np.stack([rmap(Y[:, :, k], A, B) for k in range(M)], 2), "addELayer right", tol=1e-11)
    ctx.check(np.array_equal(A, A0) and np.array_equal(B, B0), "inputs modified")
    ctx.sig(D1, D2, E1, E2, d, [np.dtype(t).name for t in dt], kind)


def chains(ctx):
    N = ctx.integer(1, 4)
    ds = [ctx.integer(1, 3) for _ in range(N)]
    Da = [ctx.integer(1, 4) for _ in range(N + 1)]
    Db = [ctx.integer(1, 4) for _ in range(N + 1)]
    dt = [gen.dtype(ctx) for _ in range(3)]
    A = [ctx.array((Da[n], Da[n + 1], ds[n]), dt[0]) for n in range(N)]
    B = [ctx.array((Db[n], Db[n + 1], ds[n]), dt[1]) for n in range(N)]
    x, y = ctx.array((Da[0], Db[0]), dt[2]), ctx.array((Da[-1], Db[-1]), dt[2])
    xl, yr = x, y
    for n in range(N):
        xl = lmap(xl, A[n], B[n])
    for n in range(N - 1, -1, -1):
        yr = rmap(yr, A[n], B[n])
    v = x.reshape(-1)
    v0 = v.copy()
    ctx.close(mf.MixedUnitcellTransferOperator(1, A, B, v), xl.reshape(-1), "MixedUnitcellTransferOperator left", tol=1e-10)
    ctx.close(mf.MixedUnitcellTransferOperator(-1, A, B, y.reshape(-1)), yr.reshape(-1), "MixedUnitcellTransferOperator right", tol=1e-10)
    ctx.check(np.array_equal(v, v0), "start vector modified")
    T = dense.transfer_matrix(A, B)
    ctx.close(mf.MixedUnitcellTransferOperator(1, A, B, v), v @ T, "left product vs dense transfer matrix", tol=1e-10)
    s1 = ctx.integer(0, N - 1)
    s2 = ctx.integer(s1, N - 1)
    M = ctx.integer(1, 2)
    X, Y = ctx.array((Da[s1], Db[s1], M), dt[2]), ctx.array((Da[s2 + 1], Db[s2 + 1], M), dt[2])
    wl, wr = X, Y
    for n in range(s1, s2 + 1):
        wl = np.stack([lmap(wl[:, :, k], A[n], B[n]) for k in range(M)], 2)
    for n in range(s2, s1 - 1, -1):
        wr = np.stack([rmap(wr[:, :, k], A[n], B[n]) for k in range(M)], 2)
    X0 = X.copy()
    ctx.close(mf.contractE(A, B, X, s1, s2, 1), wl, "contractE left over [%d,%d]" % (s1, s2), tol=1e-10)
    ctx.close(mf.contractE(A, B, Y, s1, s2, -1), wr, "contractE right over [%d,%d]" % (s1, s2), tol=1e-10)
    ctx.check(np.array_equal(X, X0), "contractE modified its environment")
    # unmixed versions
    x2, y2 = ctx.array((Da[0], Da[0]), dt[2]), ctx.array((Da[-1], Da[-1]), dt[2])
    a, b = [x2], [y2]
    for n in range(N):
        a.append(lmap(a[-1], A[n], A[n]))
    for n in range(N - 1, -1, -1):
        b.insert(0, rmap(b[0], A[n], A[n]))
    ctx.close(mf.UnitcellTransferOperator(1, A, x2.reshape(-1)), a[-1].reshape(-1), "UnitcellTransferOperator left", tol=1e-10)
    ctx.close(mf.UnitcellTransferOperator(-1, A, y2.reshape(-1)), b[0].reshape(-1), "UnitcellTransferOperator right", tol=1e-10)
    dl = mf.computeDensity(x2, A, 1)
    dr = mf.computeDensity(y2, A, -1)
    ctx.check(len(dl) == N + 1 and len(dr) == N + 1, "computeDensity: number of densities")
    for n in range(N + 1):
        ctx.close(dl[n], a[n], "computeDensity left, bond %d" % n, tol=1e-10)
        ctx.close(dr[n], b[n], "computeDensity right, bond %d" % n, tol=1e-10)
    ctx.sig(N, ds, Da, Db, [np.dtype(t).name for t in dt], s1, s2)


def eigen(ctx):
    ts, dt = gen.cell(ctx, N=ctx.integer(1, 3))
    N, D = len(ts), ts[0].shape[0]
    T = dense.transfer_matrix(ts, ts)
    top = np.max(np.abs(np.linalg.eigvals(T)))
    t0 = [t.copy() for t in ts]
    for direction in (1, -1):
        def residual(eta, v, what):
            ctx.close(eta, top, what + ": dominant eigenvalue", tol=1e-8)
            v = np.asarray(v)
            ctx.check(v.shape == (D * D,), what + ": shape of the eigenvector %s" % (v.shape,))
            ctx.check(np.linalg.norm(v) > 1e-3, what + ": vanishing eigenvector")
            w = v @ T if direction > 0 else T @ v
            ctx.close(w, eta * v, what + ": eigen-equation", tol=1e-7, scale=abs(top) * np.linalg.norm(v))
            m = v.reshape(D, D)
            m = m / np.trace(m)
            ctx.check(np.max(np.abs(m - m.conj().T)) < 1e-6 and np.linalg.eigvalsh((m + m.conj().T) / 2)[0] > -1e-6,
                      what + ": eigenvector is not a density matrix up to a factor")
            ctx.count("eigenpairs")
        init = None if ctx.flag() else np.eye(D).reshape(-1)
        cell = ts if ctx.flag(0.7) else mpslib.MPS(ts)
        eta, v, ne = mf.UnitcellTMeigs(cell, direction, 1, init=init, nmax=10000, tolerance=1e-12, ncv=30)
        residual(eta, v, "UnitcellTMeigs(direction %d)" % direction)
        if dt is float:
            ctx.check(np.isrealobj(v) and np.isrealobj(np.asarray(eta)), "complex eigenpair of a real cell")
        if N == 1:
            a = ts[0] if ctx.flag(0.7) else mpslib.MPS(ts)
            eta, v, ne = mf.TMeigs(a, direction, ctx.pick(1, min(4, D * D - 2)), init=init, tolerance=1e-12)
            residual(eta, v, "TMeigs(direction %d, %s)" % (direction, type(a).__name__))
    ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "eigensolver modified the tensors")
    ctx.sig(N, D, np.dtype(dt).name)


def mixed_eigen(ctx):
    ts, dt = gen.cell(ctx, N=ctx.integer(1, 3))
    N, D = len(ts), ts[0].shape[0]
    if ctx.flag():
        # a gauge transform plus small perturbation of the same state
        us = [ctx.array((D, D), dt) + 2 * np.eye(D) for _ in range(N)]
        bs = [np.einsum("ab,bcs,cd->ads", np.linalg.inv(us[n]), t, us[(n + 1) % N]) + 0.02 * ctx.array(t.shape, dt) for n, t in enumerate(ts)]
    else:
        D = ctx.integer(3, 5)
        bs, _ = gen.cell(ctx, N=N, D=D, d=[t.shape[2] for t in ts], dt=dt)
    T = dense.transfer_matrix(ts, bs)
    e = np.linalg.eigvals(T)
    o = np.sort(np.abs(e))[::-1]
    if o[1] > 0.97 * o[0]:
        e1 = e[np.argmax(np.abs(e))]
        if not (abs(e1.imag) > 1e-6 and o[2] < 0.95 * o[0]):
            raise Skip("no gap")
    if T.shape[0] < 5:
        raise Skip("too small for the sparse solver")
    for direction in (1, -1):
        # mps1 is the lower (conjugated) layer
        eta, v, ne = mf.MixedUnitcellTMeigs(bs, ts, direction, 2, nmax=20000, tolerance=1e-12, ncv=40)
        ctx.close(abs(eta), o[0], "MixedUnitcellTMeigs: dominant modulus", tol=1e-7)
        w = v @ T if direction > 0 else T @ v
        ctx.close(w, eta * v, "MixedUnitcellTMeigs: eigen-equation (direction %d)" % direction, tol=1e-6, scale=o[0] * np.linalg.norm(v))
        ctx.count("mixed eigenpairs")
    ctx.sig(N, D, ts[0].shape, np.dtype(dt).name)


CASES = [("single", single, 400, 6000), ("chains", chains, 400, 6000), ("eigen", eigen, 150, 2500), ("mixed-eigen", mixed_eigen, 100, 1500)]
