"""C15: environments, effective operators and engine-kept blocks against explicit sums and dense projections of H."""
import numpy as np
import dense, long, gen, workloads
from common import Skip
from monitors import watch
from props import c14
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en

RULE = ("random tensors and MPOs (different bra and ket, mixed local dimensions, non-hermitian, complex, random boundary blocks) for the block "
        "builders; random states and hermitian nearest-neighbour MPOs for the projections at every site and bond; engines driven through random centre "
        "moves, sweeps, update() and truncateMPS(); every solver call of DMRG runs observed online; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["environment leg order is (ket, bra, mpo)", "MPO tensors have index order (left, right, in=ket, out=bra)"]


def mpo_list(ctx, ds, dt, M0=1, MN=1, dout=None):
    M = [M0] + [ctx.integer(1, 4) for _ in ds[1:]] + [MN]
    return [ctx.array((M[n], M[n + 1], d, (dout or ds)[n]), dt) for n, d in enumerate(ds)]


def blocks(ctx):
    """all block builders with arbitrary bra/ket lists and boundary blocks"""
    ds = gen.dims(ctx, N=ctx.integer(2, 5), maxdim=300)
    N = len(ds)
    dta, dtb, dtm, dte = [gen.dtype(ctx) for _ in range(4)]
    ka = [ctx.integer(1, 4) for _ in range(N + 1)]
    kb = [ctx.integer(1, 4) for _ in range(N + 1)]
    M0, MN = ctx.integer(1, 3), ctx.integer(1, 3)
    dout = list(ds)
    A = gen.tensors(ctx, ds, [1] + ka[1:-1] + [1], dta) if ctx.flag(0.2) else [ctx.array((ka[n], ka[n + 1], ds[n]), dta) for n in range(N)]
    ka = [A[0].shape[0]] + [a.shape[1] for a in A]
    B = [ctx.array((kb[n], kb[n + 1], dout[n]), dtb) for n in range(N)]
    W = mpo_list(ctx, ds, dtm, M0, MN, dout)
    L0 = ctx.array((ka[0], kb[0], M0), dte)
    R0 = ctx.array((ka[-1], kb[-1], MN), dte)
    keep = [[x.copy() for x in y] for y in (A, B, W)] + [L0.copy(), R0.copy()]
    # single layers
    n = ctx.integer(0, N - 1)
    E = ctx.array((ka[n], kb[n], W[n].shape[0]), dte)
    ctx.close(mf.addLayer(E, A[n], W[n], B[n], 1), dense.env_left([A[n]], [W[n]], [B[n]], E), "addLayer right", tol=1e-11)
    F = ctx.array((ka[n + 1], kb[n + 1], W[n].shape[1]), dte)
    ctx.close(mf.addLayer(F, A[n], W[n], B[n], -1), dense.env_right([A[n]], [W[n]], [B[n]], F), "addLayer left", tol=1e-11)
    k = ctx.integer(1, 3)
    X = ctx.array((ka[n], kb[n], k), dte)
    ctx.close(mf.addELayer(X, A[n], B[n], 1), np.einsum("abm,acs,bds->cdm", X, A[n], np.conj(B[n])), "addELayer right", tol=1e-11)
    Y = ctx.array((ka[n + 1], kb[n + 1], k), dte)
    ctx.close(mf.addELayer(Y, A[n], B[n], -1), np.einsum("cdm,acs,bds->abm", Y, A[n], np.conj(B[n])), "addELayer left", tol=1e-11)
    # boundary layers with a single MPO row / column
    x = ctx.array((ka[n], kb[n]), dte)
    w = ctx.array((1, ctx.integer(1, 4), ds[n], ds[n]), dtm)
    ctx.close(mf.initializeLayer(A[n], x, B[n], w, 1), np.einsum("ab,acs,nst,bdt->cdn", x, A[n], w[0], np.conj(B[n])),
              "initializeLayer right", tol=1e-11)
    y = ctx.array((ka[n + 1], kb[n + 1]), dte)
    w = ctx.array((ctx.integer(1, 4), 1, ds[n], ds[n]), dtm)
    ctx.close(mf.initializeLayer(A[n], y, B[n], w, -1), np.einsum("cd,acs,mst,bdt->abm", y, A[n], w[:, 0], np.conj(B[n])),
              "initializeLayer left", tol=1e-11)
    # ranges
    i = ctx.integer(0, N - 1)
    j = ctx.integer(i, N - 1)
    E = ctx.array((ka[i], kb[i], W[i].shape[0]), dte)
    F = ctx.array((ka[j + 1], kb[j + 1], W[j].shape[1]), dte)
    s = slice(i, j + 1)
    ctx.close(mf.contractMPO(A, B, W, E, i, j, 1), dense.env_left(A[s], W[s], B[s], E), "contractMPO(%d..%d) right" % (i, j), tol=1e-10)
    ctx.close(mf.contractMPO(A, B, W, F, i, j, -1), dense.env_right(A[s], W[s], B[s], F), "contractMPO(%d..%d) left" % (i, j), tol=1e-10)
    X = ctx.array((ka[i], kb[i], k), dte)
    Y = ctx.array((ka[j + 1], kb[j + 1], k), dte)
    I = [np.eye(d).reshape(1, 1, d, d) for d in ds]

    def e(f, t, *a):
        return np.concatenate([f(*a, t[:, :, m:m + 1]) for m in range(k)], axis=2)
    ctx.close(mf.contractE(A, B, X, i, j, 1), e(dense.env_left, X, A[s], I[s], B[s]), "contractE(%d..%d) right" % (i, j), tol=1e-10)
    ctx.close(mf.contractE(A, B, Y, i, j, -1), e(dense.env_right, Y, A[s], I[s], B[s]), "contractE(%d..%d) left" % (i, j), tol=1e-10)
    # all blocks of a chain (bra = ket)
    l0 = ctx.array((ka[0], ka[0], M0), dte)
    r0 = ctx.array((ka[-1], ka[-1], MN), dte)
    Ls = mf.getL(A, W, l0)
    Rs = mf.getR(A, W, r0)
    ctx.check(len(Ls) == N and len(Rs) == N, "getL/getR: number of blocks")
    tot = None
    for m in range(N):
        ctx.close(Ls[m], dense.env_left(A[:m + 1], W[:m + 1], A[:m + 1], l0), "getL block %d of %d" % (m, N), tol=1e-10)
        ctx.close(Rs[m], dense.env_right(A[N - 1 - m:], W[N - 1 - m:], A[N - 1 - m:], r0), "getR block %d of %d" % (m, N), tol=1e-10)
    for m in range(1, N):
        v = np.sum(Ls[m - 1] * Rs[N - 1 - m])
        tot = v if tot is None else tot
        ctx.close(v, tot, "value at bond %d" % m, tol=1e-9, scale=max(abs(tot), np.linalg.norm(Ls[m - 1]) * np.linalg.norm(Rs[N - 1 - m])))
    ctx.close(mf.getUCL(A, W, l0), Ls[-1], "getUCL", tol=1e-12)
    ctx.close(mf.getUCR(A, W, r0), Rs[-1], "getUCR", tol=1e-12)
    for a, b, name in ((A, keep[0], "ket"), (B, keep[1], "bra"), (W, keep[2], "mpo")):
        ctx.check(all(np.array_equal(p, q) for p, q in zip(a, b)), "block builders changed the %s tensors" % name)
    ctx.sig(N, str(ds), np.dtype(dta).name, np.dtype(dtb).name, np.dtype(dtm).name, np.dtype(dte).name)


def effective(ctx):
    """matrix-vector products with arbitrary blocks against the explicit effective matrix"""
    dt = [gen.dtype(ctx) for _ in range(4)]
    D1, D2, M1, M2, d = ctx.integer(1, 4), ctx.integer(1, 4), ctx.integer(1, 4), ctx.integer(1, 4), ctx.integer(2, 3)
    L, R, W = ctx.array((D1, D1, M1), dt[0]), ctx.array((D2, D2, M2), dt[1]), ctx.array((M1, M2, d, d), dt[2])
    x = ctx.array((D1, D2, d), dt[3])
    ref = (x.reshape(-1) @ dense.heff_one(L, W, R)).reshape(D1, D2, d)
    sc = np.linalg.norm(L) * np.linalg.norm(R) * np.linalg.norm(W) * np.linalg.norm(x)
    ctx.close(mf.contractionH(L, x, W, R), ref, "contractionH", tol=1e-11, scale=sc)
    ctx.close(mf.HAproductSingleSiteMPS(L, W, R, x), ref, "HAproductSingleSiteMPS", tol=1e-11, scale=sc)
    ctx.close(np.reshape(mf.HAproductSingleSite(L, W, R, x.reshape(-1)), x.shape), ref, "HAproductSingleSite", tol=1e-11, scale=sc)
    ctx.close(np.reshape(mf.gradient(L, W, R, x), x.shape), ref, "gradient", tol=1e-11, scale=sc)
    if d == 2:
        ctx.close(mf.applyHsingleSite(L, W, R, x), ref, "applyHsingleSite", tol=1e-11, scale=sc)
    # bra legs of a different size
    D1b, D2b = ctx.integer(1, 4), ctx.integer(1, 4)
    Lb, Rb = ctx.array((D1, D1b, M1), dt[0]), ctx.array((D2, D2b, M2), dt[1])
    refb = (x.reshape(-1) @ dense.heff_one(Lb, W, Rb)).reshape(D1b, D2b, d)
    scb = np.linalg.norm(Lb) * np.linalg.norm(Rb) * np.linalg.norm(W) * np.linalg.norm(x)
    ctx.close(mf.contractionH(Lb, x, W, Rb), refb, "contractionH (rectangular)", tol=1e-11, scale=scb)
    # bonds
    c = ctx.array((D1, D1), dt[3])
    Rc = ctx.array((D1, D1, M1), dt[1])
    refc = (c.reshape(-1) @ dense.heff_bond(L, Rc)).reshape(D1, D1)
    scc = np.linalg.norm(L) * np.linalg.norm(Rc) * np.linalg.norm(c)
    ctx.close(mf.HAproductBondMatrix(L, Rc, c), refc, "HAproductBondMatrix", tol=1e-11, scale=scc)
    ctx.close(np.reshape(mf.HAproductBond(L, Rc, c.reshape(-1)), c.shape), refc, "HAproductBond", tol=1e-11, scale=scc)
    ctx.close(mf.applyHbond(L, Rc, c), refc, "applyHbond", tol=1e-11, scale=scc)
    r = ctx.array((D1, D2), dt[3])
    Rr = ctx.array((D2, D2, M1), dt[1])
    refr = (r.reshape(-1) @ dense.heff_bond(L, Rr)).reshape(D1, D2)
    ctx.close(mf.HAproductBondMatrix(L, Rr, r), refr, "HAproductBondMatrix (rectangular)", tol=1e-11,
              scale=np.linalg.norm(L) * np.linalg.norm(Rr) * np.linalg.norm(r))
    # zero-site products: bond matrix to the right / left of a given tensor
    for pos in ("right", "left"):
        A = ctx.array((D1, D2, d), dt[3])
        if pos == "right":
            L1, R1, D = dense.env_left([A], [W], [A], L), ctx.array((D2, D2, M2), dt[1]), D2
            args = (L, W, A, R1)
        else:
            L1, R1, D = ctx.array((D1, D1, M1), dt[0]), dense.env_right([A], [W], [A], R), D1
            args = (L1, W, A, R)
        m = ctx.array((D, D), dt[2])
        refm = (m.reshape(-1) @ dense.heff_bond(L1, R1)).reshape(D, D)
        scm = np.linalg.norm(L1) * np.linalg.norm(R1) * np.linalg.norm(m)
        ctx.close(mf.HAproductZeroSiteMat(*(args + (pos, m))), refm, "HAproductZeroSiteMat " + pos, tol=1e-10, scale=scm)
        ctx.close(np.reshape(mf.HAproductZeroSite(*(args + (pos, m.reshape(-1)))), (D, D)), refm, "HAproductZeroSite " + pos, tol=1e-10, scale=scm)
    ctx.sig(D1, D2, M1, M2, d, [np.dtype(t).name for t in dt])


def isometry_site(left, right, ds, n):
    """matrix from centre-tensor space (l,r,s) to the full space: row = tangent index, columns = basis states"""
    l = dense.chain(left)[0] if left else np.ones((1, 1))                      # P_l, Dl
    r = dense.chain(right)[:, :, 0] if right else np.ones((1, 1))              # Dr, P_r
    d = ds[n]
    t = np.einsum("pa,st,bq->absptq", l, np.eye(d), r)
    return t.reshape(l.shape[1] * r.shape[0] * d, -1)


def isometry_bond(left, right):
    l = dense.chain(left)[0]
    r = dense.chain(right)[:, :, 0]
    return np.einsum("pa,bq->abpq", l, r).reshape(l.shape[1] * r.shape[0], -1)


def projections(ctx):
    """tangent-space projections of a real Hamiltonian for canonical states"""
    kind, mpo, ds, herm = c14.model(ctx, ctx.integer(2, 6))
    N = len(ds)
    if np.prod(ds) > 260:
        raise Skip("too large")
    Hd = dense.mpo_dense(mpo)
    hs = max(np.linalg.norm(Hd, 2), 1e-30)
    m, _, v = gen.state(ctx, ds, norm="unit")
    want = dense.expect(Hd, v)
    one = np.ones((1, 1, 1))
    n = ctx.integer(0, N - 1)
    m.position(n)
    ts = [np.array(t) for t in m.tensors]
    # blocks of the canonical parts left and right of the centre site (the centre matrix may be rectangular)
    L = [one] + (mf.getL(ts[:n], [mpo[i] for i in range(n)], one) if n > 0 else [])
    R = [one] + (mf.getR(ts[n + 1:], [mpo[i] for i in range(n + 1, N)], one) if n < N - 1 else [])
    c = np.tensordot(m._mat, ts[n], ([1], [0]))
    P = isometry_site(ts[:n], ts[n + 1:], ds, n)
    ctx.close(P @ P.conj().T, np.eye(P.shape[0]), "canonical centre at site %d" % n, tol=1e-9)
    Heff = P @ Hd @ P.conj().T
    x = c if ctx.flag() else ctx.array(c.shape, complex)
    y = mf.HAproductSingleSiteMPS(L[n], mpo[n], R[N - 1 - n], x)
    ctx.close(np.reshape(y, -1), x.reshape(-1) @ Heff, "one-site effective Hamiltonian at site %d of %d (%s)" % (n, N, kind), tol=1e-9,
              scale=hs * np.linalg.norm(x))
    y = mf.contractionH(L[n], c, mpo[n], R[N - 1 - n])
    ctx.close(np.sum(y * np.conj(c)), want, "energy from the site blocks", tol=1e-9, scale=hs)
    if herm:
        a, b = ctx.array(c.shape, complex), ctx.array(c.shape, complex)
        f = lambda z: np.asarray(mf.HAproductSingleSite(L[n], mpo[n], R[N - 1 - n], z.reshape(-1)))
        ctx.close(np.vdot(f(a), b.reshape(-1)), np.vdot(a.reshape(-1), f(b)), "one-site effective Hamiltonian is not hermitian", tol=1e-9,
                  scale=hs * np.linalg.norm(a) * np.linalg.norm(b))
    k = ctx.integer(1, N - 1)
    m.position(k)
    ts = [np.array(t) for t in m.tensors]
    c = np.array(m._mat)
    Lk = mf.getL(ts[:k], mpo[:k] if isinstance(mpo, list) else [mpo[i] for i in range(k)], one)[-1]
    Rk = mf.getR(ts[k:], [mpo[i] for i in range(k, N)], one)[-1]
    P = isometry_bond(ts[:k], ts[k:])
    Heff = P @ Hd @ P.conj().T
    x = ctx.array(c.shape, complex)
    y = mf.HAproductBondMatrix(Lk, Rk, x)
    ctx.close(np.reshape(y, -1), x.reshape(-1) @ Heff, "bond effective Hamiltonian at bond %d of %d (%s)" % (k, N, kind), tol=1e-9,
              scale=hs * np.linalg.norm(x))
    y = mf.HAproductBondMatrix(Lk, Rk, c)
    ctx.close(np.sum(y * np.conj(c)), want, "energy from the bond blocks", tol=1e-9, scale=hs)
    if herm:
        ctx.check(np.max(np.abs(Heff - Heff.conj().T)) <= 1e-9 * hs, "oracle: projected H is hermitian")
    ctx.count("projections", 2)
    ctx.sig(kind, N, n, k)


def engine_blocks(ctx):
    """blocks an engine keeps under arbitrary centre moves"""
    mpo, d = workloads.model(ctx, ctx.integer(3, 6))
    N = len(mpo)
    dt = gen.dtype(ctx)
    m, ds, v = gen.state(ctx, [d] * N, norm="unit", dt=dt)
    Hd = dense.mpo_dense(mpo)
    hs = np.linalg.norm(Hd, 2)
    which = ctx.pick("dmrg", "tevol")
    e = en.DMRGengine(m, mpo, "e") if which == "dmrg" else en.TimeEvolutionEngine(m, mpo, "e")
    if not (hasattr(e, "_L") and hasattr(e, "_R")):
        raise Skip("engine keeps no blocks")
    one = np.ones((1, 1, 1))
    W = [np.array(mpo[i]) for i in range(N)]

    def inspect(what, v):
        s = e.mps
        p = s.pos
        ts = [np.array(t) for t in s.tensors]
        for i in range(0, p + 1):
            ctx.close(e._L[i], dense.env_left(ts[:i], W[:i], ts[:i], one), "%s engine: left block %d with centre %d after %s" % (which, i, p, what),
                      tol=1e-9, scale=hs)
        for i in range(0, N - p + 1):
            ctx.close(e._R[i], dense.env_right(ts[N - i:], W[N - i:], ts[N - i:], one),
                      "%s engine: right block %d with centre %d after %s" % (which, i, p, what), tol=1e-9, scale=hs)
        c = np.array(s._mat)
        val = np.einsum("abm,ac,bd,cdm->", e._L[p], c, np.conj(c), e._R[N - p])
        w = dense.vec(s)
        ctx.close(val * abs(s._Z) ** 2, dense.expect(Hd, w), "%s engine: energy at bond %d after %s" % (which, p, what), tol=1e-9, scale=hs)
        if v is not None:
            ctx.close(w, v, "%s engine: state after %s" % (which, what), tol=1e-9)
        ctx.count("engine block sets")
    inspect("construction", v)
    for _ in range(6):
        n = ctx.integer(0, N)
        r = e.position(n)
        ctx.check(e.mps.pos == n, "engine.position(%d) left the centre at %d" % (n, e.mps.pos))
        inspect("position(%d)" % n, v)
        if ctx.flag(0.2):
            e.update()
            inspect("update", v)
        if ctx.flag(0.15):
            e.truncateMPS(truncation_threshold=1e-14)
            inspect("truncateMPS", None)
            v = dense.vec(e.mps)
    ops = [ctx.herm(d) for _ in range(N)]
    got = np.asarray(e.measureLocal(ops))
    ctx.close(got, [dense.expect(dense.embed(o, n, ds), v) for n, o in enumerate(ops)], "engine.measureLocal", tol=1e-9, scale=1.0)
    bad = ctx.pick(-1, N + 1)
    try:
        e.position(bad)
        ctx.check(False, "engine.position(%d) accepted for %d sites" % (bad, N))
    except IndexError:
        pass
    ctx.sig(which, N, d, np.dtype(dt).name)


def online(ctx):
    """every local problem DMRG hands to its solver is the projection of H onto the current state"""
    mpo, d = workloads.model(ctx, ctx.integer(3, 6))
    N = len(mpo)
    dt = gen.dtype(ctx)
    m, ds, v = gen.state(ctx, [d] * N, dt=dt, kind=ctx.pick("flat", "random"))
    m.position(0)
    if min(t.size for t in m.tensors) < 4:
        raise Skip("local problem too small for the iterative solvers")
    Hd = dense.mpo_dense(mpo)
    hs = np.linalg.norm(Hd, 2)
    e = en.DMRGengine(m, mpo, "e")
    solver = ctx.pick("AR", "LAN", "LOBPCG")
    seen = [0]

    def contract(args, kw, res):
        L, W, R, x = args[:4]
        if W.shape[0] == 1 and W.shape[1] == 1:
            return
        ts = [np.array(t) for t in e.mps.tensors]
        xx = np.array(x)
        y = (xx.reshape(-1) @ dense.heff_one(L, np.asarray(W), R))
        best = None
        for n in range(N):
            if xx.shape != (ts[n - 1].shape[1] if n > 0 else 1, ts[n + 1].shape[0] if n < N - 1 else 1, ts[n].shape[2]) or not np.array_equal(W, mpo[n]):
                continue
            w = dense.lvec(ts[:n] + [xx] + ts[n + 1:])
            dev = abs(np.sum(y * np.conj(xx.reshape(-1))) - dense.expect(Hd, w)) / hs + abs(np.linalg.norm(w) - np.linalg.norm(xx)) / np.linalg.norm(xx)
            best = dev if best is None else min(best, dev)
        ctx.check(best is not None and best < 1e-8 * max(1, np.linalg.norm(xx) ** 2),
                  "local problem handed to the %s solver is not the projection of H (deviation %s)" % (solver, best))
        seen[0] += 1
    name = {"AR": "eigsh", "LAN": "lanczos", "LOBPCG": "lobpcg"}[solver]
    with watch((mf, name, contract)):
        e.simulate(Nmax=2, Econv=1e-12, tol=1e-8, ncv=12, cp=None, verbose=0, solver=solver)
    ctx.count("solver calls observed", seen[0])
    ctx.sig(solver, N, d, np.dtype(dt).name)


CASES = [("blocks", blocks, 500, 5000), ("effective", effective, 500, 5000), ("projections", projections, 500, 5000),
         ("engine-blocks", engine_blocks, 200, 2000), ("online", online, 80, 800),
         ("long-environments", long.environments, 40, 800)]
