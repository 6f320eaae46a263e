"""C10: Gamma-Lambda form of finite and infinite MPS."""
import copy
import numpy as np
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("canonize() on random finite MPS (swept and unswept, every centre position, norms, dtypes, mixed dimensions) and infinite unit cells of 1-3 "
        "sites; canonizeMPS on lists and objects; Schmidt vectors against dense SVDs / fixed points; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["isometry of Lambda*Gamma is judged with a tolerance that grows with the inverse of the smallest Schmidt coefficient (division by Lambda)",
               "infinite cells are injective (generated with a gap in the transfer operator)"]


def products(G, L):
    """Lambda0 Gamma0 Lambda1 ... Gamma_{N-1} Lambda_N as tensors"""
    ts = [np.tensordot(np.diag(L[n]), G[n], ([1], [0])) for n in range(len(G))]
    ts[-1] = np.transpose(np.tensordot(ts[-1], np.diag(L[-1]), ([1], [0])), (0, 2, 1))
    return ts


def form(ctx, G, L, N, what):
    ctx.check(len(G) == N and len(L) == N + 1, "%s: %d Gammas and %d Lambdas for %d sites" % (what, len(G), len(L), N))
    for n, l in enumerate(L):
        l = np.asarray(l)
        ctx.check(l.ndim == 1, "%s: Lambda[%d] is not a vector" % (what, n))
        ctx.check(np.isrealobj(l) and np.all(l > 0), "%s: Lambda[%d] not positive: %s" % (what, n, l))
        ctx.check(np.all(np.diff(l) <= 1e-12), "%s: Lambda[%d] not descending: %s" % (what, n, l))
        ctx.close(np.linalg.norm(l), 1.0, "%s: norm of Lambda[%d]" % (what, n), tol=1e-9)
    for n in range(N):
        ctx.check(G[n].shape[:2] == (len(L[n]), len(L[n + 1])), "%s: Gamma[%d] has shape %s" % (what, n, G[n].shape))


def isometries(ctx, G, L, what, base=1e-9):
    """sum_s Gamma' Lambda^2 Gamma = 1 on either side, element by element: dividing by Lambda amplifies rounding by 1/(lambda_i lambda_j)"""
    for n in range(len(G)):
        a = np.tensordot(np.diag(L[n]), G[n], ([1], [0]))
        b = np.transpose(np.tensordot(G[n], np.diag(L[n + 1]), ([1], [0])), (0, 2, 1))
        ea = np.abs(np.einsum("abs,acs->bc", a.conj(), a) - np.eye(a.shape[1]))
        eb = np.abs(np.einsum("abs,cbs->ac", b.conj(), b) - np.eye(b.shape[0]))
        for name, e, l in (("Lambda*Gamma not left-isometric", ea, L[n + 1]), ("Gamma*Lambda not right-isometric", eb, L[n])):
            tol = base + 1e-13 / np.outer(l, l)
            judged = tol < 1e-2
            bad = judged & (e > tol)
            ctx.check(not np.any(bad), "%s: %s on site %d (%.1e, smallest coefficient %.1e)" % (what, name, n, np.max(np.where(bad, e, 0)), np.min(l)))
            ctx.count("isometries checked", int(np.any(judged)))
            ctx.count("entries belonging to coefficients below 1e-5", int(np.sum(judged & (np.minimum.outer(l, l) < 1e-5))))


def finite_object(ctx):
    if ctx.flag(0.8):
        m, ds, v = gen.state(ctx)
    else:
        # as constructed, not swept
        ds = gen.dims(ctx)
        ts = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 5), gen.dtype(ctx))
        m = mpslib.MPS(ts)
        m._Z = 1.0
        v = dense.lvec(ts)
        ctx.sig("raw", str(ds))
    N = len(ds)
    p, Z = m.pos, m._Z
    arrs = [t.copy() for t in m.tensors] + [m._mat.copy()]
    m.canonize()
    ctx.close(dense.vec(m), v, "state after canonize", tol=1e-9)
    ctx.check(m.pos == p, "canonize moved the centre of a finite MPS")
    G, L = m._gamma, m._lambda
    form(ctx, G, L, N, "canonize")
    u = dense.lvec(products(G, L))
    ctx.close(np.linalg.norm(u), 1.0, "norm of the Gamma-Lambda product", tol=1e-8)
    F = abs(np.vdot(u, v)) / np.linalg.norm(v)
    ctx.close(F, 1.0, "overlap of the Gamma-Lambda product with the state (centre %d)" % p, tol=1e-8)
    ctx.check(len(L[0]) == 1 and len(L[-1]) == 1, "boundary Lambdas of a finite MPS")
    for n in range(1, N):
        s = dense.schmidt(v, ds, n)
        l = np.asarray(L[n])
        k = min(len(s), len(l))
        ctx.close(l[:k], s[:k], "Lambda[%d]" % n, tol=1e-8, scale=1.0)
        ctx.check(np.all(l[k:] < 1e-8) and np.all(s[k:] < 1e-8), "Lambda[%d] has the wrong length" % n)
        ctx.count("Schmidt vectors compared")
    isometries(ctx, G, L, "canonize")
    # the form is a copy: writing to it must not reach the state
    for g in G:
        g *= 0.5
    ctx.close(dense.vec(m), v, "state after writing to Gamma", tol=1e-9)
    for a, b in zip(arrs, m.tensors):
        ctx.check(np.array_equal(a, b), "canonize changed tensors of a finite MPS")


def finite_list(ctx):
    ds = gen.dims(ctx)
    N = len(ds)
    ts = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 6), gen.dtype(ctx), scale=ctx.pick(1.0, 0.01, 20.0))
    graded = ctx.flag(0.5)
    if graded:
        for k in range(1, N):
            e = np.sort(ctx.rng.uniform(-6.3, 0, ts[k].shape[0]))[::-1]
            ts[k] = ts[k] * (10.0 ** (e - e[0]))[:, None, None]
    v = dense.lvec(ts)
    t0 = [t.copy() for t in ts]
    G, L = mf.canonizeMPS(ts)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "canonizeMPS changed its input list")
    form(ctx, G, L, N, "canonizeMPS")
    u = dense.lvec(products(G, L))
    ctx.close(np.linalg.norm(u), 1.0, "norm of the Gamma-Lambda product", tol=1e-8)
    ctx.close(abs(np.vdot(u, v)) / np.linalg.norm(v), 1.0, "overlap with the state", tol=1e-8)
    for n in range(1, N):
        s = dense.schmidt(v, ds, n)
        l = np.asarray(L[n])
        k = min(len(s), len(l))
        ctx.close(l[:k], s[:k], "Lambda[%d]" % n, tol=1e-8, scale=1.0)
    isometries(ctx, G, L, "canonizeMPS")
    ctx.sig(str(ds), [t.shape for t in ts])


def finite_trunc(ctx):
    """canonizeMPS with a threshold keeps exactly the coefficients above it (single cut) and stays close"""
    ds = gen.dims(ctx)
    N = len(ds)
    ts = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 6), gen.dtype(ctx), style="decay")
    v = dense.lvec(ts)
    th = 10.0 ** -ctx.integer(2, 6)
    G, L = mf.canonizeMPS(ts, tr_thresh=th)
    form(ctx, G, L, N, "canonizeMPS(tr_thresh)")
    u = dense.lvec(products(G, L))
    ctx.check(all(np.min(l) > 0.99 * th for l in L), "a coefficient below the threshold %.0e was kept" % th)
    w = 0.0
    for n in range(1, N):
        s = dense.schmidt(v, ds, n)
        w += np.sum(s[len(L[n]):] ** 2)
        ctx.check(len(L[n]) <= np.sum(s > 0.5 * th) + 0, "Lambda[%d] longer than the spectrum above the threshold" % n)
    F = abs(np.vdot(u, v)) ** 2 / np.linalg.norm(v) ** 2 / np.linalg.norm(u) ** 2
    ctx.check(F >= 1 - w - 1e-9, "fidelity %.3e below 1 - discarded weight %.3e" % (1 - F, w))
    ctx.sig(str(ds), th, [len(l) for l in L])


def infinite(ctx, api):
    ts, dt = gen.cell(ctx)
    N = len(ts)
    lam = dense.schmidt_inf(ts)
    if lam[-1] < 3e-4:
        raise Skip("spectrum too wide for the default eigensolver tolerance")
    if api == "object":
        m = mpslib.MPS(ts)
        if ctx.flag(0.4):
            m.position(ctx.integer(0, N))
        F = dense.fidelity_inf(ts, dense.full_tensors_inf(m))
        ctx.close(F, 1.0, "construction / position of an infinite MPS", tol=1e-8)
        m.canonize()
        G, L = m._gamma, m._lambda
        F = dense.fidelity_inf(ts, dense.full_tensors_inf(m))
        ctx.close(F, 1.0, "fidelity per cell of the MPS after canonize", tol=1e-7)
    else:
        x = [t.copy() for t in ts]
        if ctx.flag():
            mf.regaugeIMPS(x, "symmetric", nmaxit=10000, tol=1e-12, ncv=30)
        x0 = [t.copy() for t in x]
        G, L = mf.canonizeMPS(x)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(x, x0)), "canonizeMPS changed its input list")
    form(ctx, G, L, N, "infinite canonize")
    c = [np.tensordot(np.diag(L[n]), G[n], ([1], [0])) for n in range(N)]
    ctx.close(dense.fidelity_inf(ts, c), 1.0, "fidelity per cell of the Gamma-Lambda state", tol=1e-7)
    for s in range(N):
        a, b = dense.rdm_inf(ts, s, 2), dense.rdm_inf(c, s, 2)
        ctx.close(b, a, "two-site density matrix at site %d" % s, tol=1e-6, scale=1.0)
        lam = dense.schmidt_inf([ts[(s + n) % N] for n in range(N)])
        k = min(len(lam), len(L[s]))
        ctx.close(np.asarray(L[s])[:k], lam[:k], "Lambda[%d] of the infinite state" % s, tol=1e-6, scale=1.0)
        ctx.check(len(L[s]) == len(lam) or np.all(lam[k:] < 1e-5), "length of Lambda[%d]" % s)
    ctx.close(np.asarray(L[0]), np.asarray(L[-1]), "Lambdas at the two ends of the cell", tol=1e-9)
    tol = 1e-10 / np.min(np.concatenate(L)) ** 2 * 10 + 1e-8
    if tol < 1e-2:
        for n in range(N):
            a = np.tensordot(np.diag(L[n]), G[n], ([1], [0]))
            b = np.transpose(np.tensordot(G[n], np.diag(L[n + 1]), ([1], [0])), (0, 2, 1))
            ctx.check(dense.left_iso(a) < tol, "Lambda*Gamma not left-isometric (%.1e > %.1e)" % (dense.left_iso(a), tol))
            ctx.check(dense.right_iso(b) < tol, "Gamma*Lambda not right-isometric (%.1e > %.1e)" % (dense.right_iso(b), tol))
    ctx.count("infinite states canonised")
    ctx.sig(api, N, [t.shape for t in ts], np.dtype(dt).name)


def inf_object(ctx):
    infinite(ctx, "object")


def inf_list(ctx):
    infinite(ctx, "list")


def inf_trunc(ctx):
    """canonizeMPS of an infinite state with a threshold: exactly canonical, nothing far above the threshold lost"""
    ts, dt = gen.cell(ctx, D=ctx.integer(3, 7), decay=ctx.pick(0.5, 0.3, 0.2))
    N = len(ts)
    th = 10.0 ** ctx.rng.uniform(-4, -1.3)
    spec = [dense.schmidt_inf([ts[(s + n) % N] for n in range(N)]) for s in range(N)]
    if min(np.sum(x > 3 * th) for x in spec) < 2:
        raise Skip("would be truncated to a product state")
    x = [t.copy() for t in ts]
    G, L = mf.canonizeMPS(x, tr_thresh=th)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(x, ts)), "canonizeMPS changed its input list")
    form(ctx, G, L, N, "truncating infinite canonizeMPS")
    ctx.check(len(L[0]) == len(L[-1]), "Lambdas at the two ends of the cell have different lengths")
    ctx.close(np.asarray(L[0]), np.asarray(L[-1]), "Lambdas at the two ends of the cell", tol=1e-9)
    c = [np.tensordot(np.diag(L[n]), G[n], ([1], [0])) for n in range(N)]
    w = 0.0
    for s in range(N):
        k = len(L[s])
        w += np.sum(spec[s][k:] ** 2)
        ctx.check(k >= np.sum(spec[s] > 3 * th), "Lambda[%d]: coefficients far above the threshold %.1e were dropped" % (s, th))
        own = dense.schmidt_inf([c[(s + n) % N] for n in range(N)])[:k]
        ctx.close(np.asarray(L[s])[:len(own)], own, "Lambda[%d] against the Schmidt coefficients of the returned state" % s, tol=1e-7, scale=1.0)
    tol = 1e-10 / np.min(np.concatenate(L)) ** 2 * 10 + 1e-8
    if tol < 1e-2:
        for n in range(N):
            b = np.transpose(np.tensordot(G[n], np.diag(L[n + 1]), ([1], [0])), (0, 2, 1))
            ctx.check(dense.left_iso(c[n]) < tol, "truncated Lambda*Gamma not left-isometric (%.1e)" % dense.left_iso(c[n]))
            ctx.check(dense.right_iso(b) < tol, "truncated Gamma*Lambda not right-isometric (%.1e)" % dense.right_iso(b))
    F = dense.fidelity_inf(ts, c)
    ctx.check(F >= 1 - 20 * w - 1e-7, "infidelity per cell %.2e at discarded weight %.2e" % (1 - F, w))
    ctx.count("truncated infinite states canonised")
    ctx.sig(N, [t.shape for t in ts], np.dtype(dt).name, [len(l) for l in L])


CASES = [("finite-object", finite_object, 300, 5000), ("finite-list", finite_list, 250, 4000), ("finite-truncated", finite_trunc, 100, 2000),
         ("infinite-object", inf_object, 150, 2500), ("infinite-list", inf_list, 100, 1500), ("infinite-trunc", inf_trunc, 60, 1200),
         ("long-gammalambda", long.gammalambda, 40, 800)]
