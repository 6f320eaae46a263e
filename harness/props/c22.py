"""C22: steady-state environments of infinite states against dense geometric series and physical bookkeeping."""
import copy
import numpy as np
import dense, gen
from common import Skip
from props import c21
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H

RULE = ("random injective cells of 1-4 sites (real, complex, mixed), arbitrary and exact left/right vectors, both directions, momenta of either sign, "
        "random hermitian nearest-neighbour models and all infinite built-in models; distinct per cell, dtype, direction, momentum and model")
ASSUMPTIONS = ["nearest-neighbour MPOs (the first layer of the series only knows the last site of the previous cell)",
               "without regauging, getBoundaryHams is only defined on the side at which the state's centre already is"]


def unitnorm(ctx, N=None, maxgap=0.8, **kw):
    ts, dt = gen.cell(ctx, N=N, maxgap=maxgap, **kw)
    e, l, r, gap = dense.fixed_points(ts)
    if gap > 0.9:
        raise Skip("no gap")
    ts = [t / abs(e) ** (0.5 / len(ts)) for t in ts]
    if all(np.isrealobj(t) for t in ts):
        l, r = l.real, r.real
    return ts, l, r / np.sum(l * r), dt


def c_operators(ctx):
    D1, D2, d = ctx.size(1, 5, 12), ctx.size(1, 5, 12), ctx.integer(1, 3)
    dts = [gen.dtype(ctx) for _ in range(4)]
    A, B = ctx.array((D1, D1, d), dts[0]), ctx.array((D2, D2, d), dts[1])
    l, r = ctx.array((D1, D2), dts[2]), ctx.array((D1, D2), dts[2])
    v = ctx.array((D1 * D2,), dts[3])
    k = ctx.pick(0.0, 0.0, 1e-12, -1e-12, ctx.rng.uniform(0.01, np.pi), -ctx.rng.uniform(0.01, np.pi), np.pi, -np.pi, 4.0)
    ctx.sig(D1, D2, d, [np.dtype(x).name for x in dts], "k=%.3f" % k)
    T = dense.transfer_matrix([A], [B])
    zero = abs(k) < 1e-8
    M = np.eye(D1 * D2) - (1.0 if zero else np.exp(1j * k)) * T
    if zero:
        M = M + np.outer(r.reshape(-1), l.reshape(-1))
    keep = [x.copy() for x in (A, B, l, r, v)]
    ctx.close(mf.OneMinusPseudoTransferOperator(A, B, r, l, 1, k, v), v @ M, "OneMinusPseudoTransferOperator left, momentum %.3g" % k, tol=1e-11)
    ctx.close(mf.OneMinusPseudoTransferOperator(A, B, r, l, -1, k, v), M @ v, "OneMinusPseudoTransferOperator right, momentum %.3g" % k, tol=1e-11)
    for a, b in zip(keep, (A, B, l, r, v)):
        ctx.check(np.array_equal(a, b), "input of the operator changed")
    l, r = ctx.array((D1, D1), dts[2]), ctx.array((D1, D1), dts[2])
    v = ctx.array((D1 * D1,), dts[3])
    P = dense.transfer_matrix([A], [A]) - np.outer(r.reshape(-1), l.reshape(-1))
    ctx.close(mf.pseudoTransferOperator(A, r, l, 1, v), v @ P, "pseudoTransferOperator left", tol=1e-11)
    ctx.close(mf.pseudoTransferOperator(A, r, l, -1, v), P @ v, "pseudoTransferOperator right", tol=1e-11)


def c_unitops(ctx):
    N = ctx.integer(1, 4)
    D = [ctx.integer(1, 4) for _ in range(N)]
    dts = [gen.dtype(ctx) for _ in range(3)]
    ts = [ctx.array((D[n], D[(n + 1) % N], ctx.integer(1, 3)), dts[0]) for n in range(N)]
    bonds = D + [D[0]]
    ld = [ctx.array((b, b), dts[1]) for b in bonds]
    rd = [ctx.array((b, b), dts[1]) for b in bonds]
    v = ctx.array((D[0] ** 2,), dts[2])
    ctx.sig(N, D, [np.dtype(x).name for x in dts])
    T = dense.transfer_matrix(ts, ts)
    PL = np.outer(rd[-1].reshape(-1), ld[-1].reshape(-1))
    PR = np.outer(rd[0].reshape(-1), ld[0].reshape(-1))
    I = np.eye(len(v))
    ctx.close(mf.pseudoUnitcellTransferOperator(1, ts, ld, rd, v), v @ (T - PL), "pseudoUnitcellTransferOperator left", tol=1e-10)
    ctx.close(mf.pseudoUnitcellTransferOperator(-1, ts, ld, rd, v), (T - PR) @ v, "pseudoUnitcellTransferOperator right", tol=1e-10)
    ctx.close(mf.OneMinusPseudoUnitcellTransferOperator(1, ts, ld, rd, v), v @ (I - T + PL), "OneMinusPseudoUnitcellTransferOperator left", tol=1e-10)
    ctx.close(mf.OneMinusPseudoUnitcellTransferOperator(-1, ts, ld, rd, v), (I - T + PR) @ v, "OneMinusPseudoUnitcellTransferOperator right", tol=1e-10)


def c_solve(ctx):
    ts, l, r, dt = unitnorm(ctx, N=1)
    A = ts[0]
    D = A.shape[0]
    k = ctx.pick(0.0, 0.0, ctx.rng.uniform(0.1, np.pi), -ctx.rng.uniform(0.1, np.pi))
    dr = ctx.pick(1, -1)
    ih = ctx.array((D, D), gen.dtype(ctx))
    proj = ctx.flag()
    if proj:      # orthogonal to the dominant vector, as in the engines
        ih = ih - (np.sum(ih * r) * l if dr > 0 else np.sum(l * ih) * r)
    fn = ctx.pick("RENORMBLOCKHAMGMRES", "TDVPGMRES")
    ctx.sig(fn, D, np.dtype(dt).name, np.dtype(ih.dtype).name, dr, "k=%.2f" % k, "projected=%s" % proj)
    tol = ctx.pick(1e-12, 1e-10)
    x0 = ctx.pick(None, 1)
    x0 = None if x0 is None else ctx.array((D, D), dt)
    x = getattr(mf, fn)(A, A, r, l, ih, x0, tolerance=tol, maxiteration=400, direction=dr, momentum=k)
    T = dense.transfer_matrix(ts, ts)
    M = np.eye(D * D) - np.exp(1j * k) * T
    if k == 0.0:
        M = M + np.outer(r.reshape(-1), l.reshape(-1))
    want = np.linalg.solve(M.T if dr > 0 else M, ih.reshape(-1)).reshape(D, D)
    cond = np.linalg.cond(M)
    ctx.close(x, want, "%s direction %d momentum %.3f" % (fn, dr, k), tol=max(1e-9, 100 * tol * cond))
    if proj and k == 0.0:
        ctx.close(np.sum(x * r) if dr > 0 else np.sum(l * x), 0.0, fn + ": divergent component", tol=1e-7, scale=np.linalg.norm(want) + 1)


def c_unitsolve(ctx):
    ts, l, r, dt = unitnorm(ctx)
    N, D = len(ts), ts[0].shape[0]
    dr = ctx.pick(1, -1)
    ld = mf.computeDensity(l, ts, 1)
    rd = mf.computeDensity(r, ts, -1)
    ih = ctx.array((D * D,), dt)
    ctx.sig(N, D, np.dtype(dt).name, dr)
    obj = ts
    x, info = mf.TDVPGMRESUC(obj, ld, rd, ih, ctx.array((D * D,), dt), tolerance=1e-12, maxiteration=400, datatype=np.dtype(dt), direction=dr)
    T = dense.transfer_matrix(ts, ts)
    M = np.eye(D * D) - T + np.outer(r.reshape(-1), l.reshape(-1))
    want = np.linalg.solve(M.T if dr > 0 else M, ih)
    ctx.check(info == 0, "TDVPGMRESUC reports failure (%r)" % info)
    ctx.close(x, want, "TDVPGMRESUC direction %d" % dr, tol=1e-8)


def c_projected(ctx):
    """getLprojected / getRprojected: every block is the exact one minus its component along the steady state"""
    d = ctx.pick(2, 2, 3)
    ts, l, r, dt = unitnorm(ctx, d=d)
    N, D = len(ts), ts[0].shape[0]
    kind, mpo = model(ctx, N, d)
    ws = [np.asarray(mpo[n]) for n in range(N)]
    ctx.sig(kind, N, D, d, np.dtype(dt).name)
    ld, rd = mf.computeDensity(l, ts, 1), mf.computeDensity(r, ts, -1)
    M = ws[0].shape[0]
    L0, R0 = ctx.array((D, D, M), dt), ctx.array((D, D, M), dt)
    Ls = mf.getLprojected(ts, mpo, L0, ld, rd)
    Rs = mf.getRprojected(ts, mpo, R0, ld, rd)
    ctx.check(len(Ls) == N and len(Rs) == N, "number of projected blocks")
    L = L0
    for n in range(N):
        L = dense.env_left([ts[n]], [ws[n]], [ts[n]], L)
        L[:, :, 0] = L[:, :, 0] - np.sum(L[:, :, 0] * rd[n + 1]) * ld[n + 1]
        ctx.close(Ls[n], L, "getLprojected block %d" % n, tol=1e-10)
    R = R0
    for n in range(N):
        m = N - 1 - n
        R = dense.env_right([ts[m]], [ws[m]], [ts[m]], R)
        R[:, :, -1] = R[:, :, -1] - np.sum(R[:, :, -1] * ld[m]) * rd[m]
        ctx.close(Rs[n], R, "getRprojected block %d" % n, tol=1e-10)


def model(ctx, N, d):
    """infinite nearest-neighbour MPO with N sites per cell"""
    u = lambda: ctx.rng.uniform(-1.5, 1.5, N)
    k = ctx.pick("TFI", "XXZ", "random", "random")
    if d != 2 and k != "random":
        k = "random"
    if k == "TFI":
        return k, H.TFI(u(), u(), False)
    if k == "XXZ":
        return k, H.XXZ(u(), u(), u(), False)
    dt = gen.dtype(ctx)
    r = ctx.integer(1, 3)
    ws = []
    for n in range(N):
        W = np.zeros((r + 2, r + 2, d, d), dtype=dt)
        W[0, 0] = W[-1, -1] = np.eye(d)
        W[-1, 0] = ctx.herm(d, dt)
        for m in range(r):
            W[-1, m + 1] = ctx.herm(d, dt)
            W[m + 1, 0] = ctx.herm(d, dt)
        ws.append(W)
    return k, H.MPO(ws)


def grow_left(ctx, tag, L, ts, ws, h, scale, tol):
    """adding one cell to the steady state adds exactly the energy per cell"""
    got = dense.env_left(ts, ws, ts, L)
    want = L.astype(complex)
    want[:, :, 0] += h * np.eye(L.shape[0])
    ctx.close(got, want, tag + ": adding one cell to the left block", tol=tol, scale=scale)


def grow_right(ctx, tag, R, ts, ws, h, scale, tol):
    got = dense.env_right(ts, ws, ts, R)
    want = R.astype(complex)
    want[:, :, -1] += h * np.eye(R.shape[0])
    ctx.close(got, want, tag + ": adding one cell to the right block", tol=tol, scale=scale)


def c_steady(ctx):
    """computeUCsteadyStateHamiltonianGMRES on canonical cells"""
    d = ctx.pick(2, 2, 3)
    ts, l, r, dt = unitnorm(ctx, d=d)
    N, D = len(ts), ts[0].shape[0]
    kind, mpo = model(ctx, N, d)
    dr = ctx.pick(1, -1)
    gauge = "left" if dr > 0 else "right"
    if ctx.flag(0.3):
        gauge = "symmetric"
    m = mpslib.MPS(ts)
    m.regauge(gauge)
    m.position(N if dr > 0 else 0)
    ts = dense.full_tensors_inf(m)
    iso = max((dense.left_iso if dr > 0 else dense.right_iso)(t) for t in ts)
    if iso > 1e-8:
        raise Skip("regauging precision %.1e" % iso)
    ctx.sig(kind, N, D, d, np.dtype(dt).name, dr, gauge)
    tr = dense.rdm_inf
    _, l, r, gap = dense.fixed_points(ts)
    I = np.eye(D)
    if dr > 0:
        rd, ld = mf.computeDensity(r, ts, -1), mf.computeDensity(I, ts, 1)
    else:
        ld, rd = mf.computeDensity(l, ts, 1), mf.computeDensity(I, ts, -1)
    ws = [np.asarray(mpo[n]) for n in range(N)]
    keep = [w.copy() for w in ws] + [t.copy() for t in ts]
    X, h = mf.computeUCsteadyStateHamiltonianGMRES(ts, mpo if ctx.flag(0.7) else _listed(mpo), np.zeros(D * D), ld, rd, direction=dr, thresh=1e-12, imax=1000)
    for a, b in zip(keep, [np.asarray(mpo[n]) for n in range(N)] + ts):
        ctx.check(np.array_equal(a, b), "computeUCsteadyStateHamiltonianGMRES changed its input")
    tag = "%s %s gauge, %s cell of %d" % ("left" if dr > 0 else "right", gauge, kind, N)
    scale = 1.0 + np.max(np.abs(X))
    e = c21.energy(ts, mpo)
    ctx.close(np.asarray(h), np.asarray(e), tag + ": energy per cell", tol=1e-7, scale=scale)
    if dr > 0:
        grow_left(ctx, tag, X, ts, ws, h, scale, 1e-7)
        ctx.close(np.sum(X[:, :, 0] * r), 0.0, tag + ": divergent component", tol=1e-6, scale=scale)
        ctx.close(X[:, :, -1], I, tag + ": identity component", tol=1e-8)
    else:
        grow_right(ctx, tag, X, ts, ws, h, scale, 1e-7)
        ctx.close(np.sum(X[:, :, -1] * l), 0.0, tag + ": divergent component", tol=1e-6, scale=scale)
        ctx.close(X[:, :, 0], I, tag + ": identity component", tol=1e-8)


def _listed(mpo):
    return mpo


def c_boundary(ctx):
    """getBoundaryHams: blocks, densities and energies of both half-infinite systems"""
    d = ctx.pick(2, 2, 3)
    ts, l, r, dt = unitnorm(ctx, d=d, D=ctx.integer(3, 5))
    N, D = len(ts), ts[0].shape[0]
    kind, mpo = model(ctx, N, d)
    m = mpslib.MPS(ts)
    start = ctx.pick("left", "right", "symmetric")
    m.regauge(start)
    if ctx.flag(0.3):
        m.position(ctx.integer(0, N))
    reg = ctx.flag(0.75)
    if reg is False:
        start = ctx.pick("left", "right")
        m.regauge(start)
    ref = dense.full_tensors_inf(m)
    e = c21.energy(ref, mpo)
    ws = [np.asarray(mpo[n]) for n in range(N)]
    bond = 0.0
    two = dense.mpo_dense([ws[-1], ws[0]], lrow=-1, rcol=0)
    bond = np.einsum("pq,pq->", dense.rdm_inf(ref, N - 1, 2), two)
    for n in (N - 1, 0):
        bond -= np.einsum("pq,pq->", dense.rdm_inf(ref, n, 1), ws[n][-1, 0])
    ctx.sig(kind, N, D, d, np.dtype(dt).name, start, "pos=%d" % m.pos, "regauge=%s" % reg)
    tag = "getBoundaryHams(regauge=%s) %s gauge %s cell of %d" % (reg, start, kind, N)
    out = mf.getBoundaryHams(m, mpo, regauge=reg)
    ctx.check(len(out) == 6, tag + ": %d values returned" % len(out))
    lb, rb, lbound, rbound, hl, hr = out
    scale = 1.0 + max(np.max(np.abs(lb)), np.max(np.abs(rb)))
    if not reg:
        if start == "left":
            ctx.close(np.asarray(hl), np.asarray(e), tag + ": left energy per cell", tol=1e-5, scale=scale)
        else:
            ctx.close(np.asarray(hr), np.asarray(e), tag + ": right energy per cell", tol=1e-5, scale=scale)
        return
    new = dense.full_tensors_inf(m)
    ctx.close(dense.fidelity_inf(ref, new), 1.0, tag + ": state changed (fidelity)", tol=1e-7)
    ctx.close(np.asarray(hl), np.asarray(e), tag + ": left energy per cell", tol=1e-5, scale=scale)
    ctx.close(np.asarray(hr), np.asarray(e), tag + ": right energy per cell", tol=1e-5, scale=scale)
    a, b = copy.deepcopy(m), copy.deepcopy(m)
    a.position(N)
    b.position(0)
    ta, tb = dense.full_tensors_inf(a), dense.full_tensors_inf(b)
    if max([dense.left_iso(t) for t in ta] + [dense.right_iso(t) for t in tb]) > 1e-6:
        raise Skip("regauging precision")
    grow_left(ctx, tag, lb, ta, ws, hl, scale, 2e-5)
    grow_right(ctx, tag, rb, tb, ws, hr, scale, 2e-5)
    # the open cell between the two blocks: its energy and one more bond
    phi = dense.chain(dense.full_tensors(m))
    M = dense.env_left(dense.full_tensors(m), ws, dense.full_tensors(m), lb)
    E = np.sum(M * rb)
    nn = np.sum(np.abs(phi) ** 2)
    ctx.close(nn, 1.0, tag + ": norm of the cell between the blocks", tol=1e-6)
    ctx.close(np.asarray(E / nn), np.asarray(e + bond), tag + ": energy of the cell between the blocks", tol=2e-5, scale=scale)
    # densities
    for name, dens, x, side in (("left", lbound, tb, 1), ("right", rbound, ta, -1)):
        ctx.close(np.trace(dens), 1.0, tag + ": trace of the %s density" % name, tol=1e-9)
        ctx.close(dens, dens.conj().T, tag + ": %s density not hermitian" % name, tol=1e-10)
        T = dense.transfer_matrix(x, x)
        y = dens.reshape(-1) @ T if side > 0 else T @ dens.reshape(-1)
        ctx.close(y.reshape(dens.shape), dens, tag + ": %s density is not a fixed point" % name, tol=1e-5)
        ctx.check(np.min(np.linalg.eigvalsh((dens + dens.conj().T) / 2)) > -1e-8, tag + ": %s density not positive" % name)


CASES = [("operators", c_operators, 400, 6000), ("unitops", c_unitops, 300, 5000), ("solve", c_solve, 240, 3000), ("unitsolve", c_unitsolve, 160, 2500),
         ("projected", c_projected, 160, 2500), ("steady", c_steady, 400, 4000), ("boundary", c_boundary, 300, 2500)]
