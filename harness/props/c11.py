"""C11: gauge transforms and truncation of infinite MPS."""
import warnings
import numpy as np
import dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("random injective unit cells (1-3 sites, D=3-6, real/complex, arbitrary normalisation, decaying spectra), regauged through MPS.regauge "
        "(chains of gauges, every centre position), regaugeIMPS and the single-tensor regauge; truncation by D, by threshold and by both")
ASSUMPTIONS = ["cells are injective (gap in the transfer operator)",
               "tolerances scale with the eigensolver tolerance over the smallest squared Schmidt coefficient"]


def check_cell(ctx, ts, new, what, tol=1e-7):
    F = dense.fidelity_inf(ts, new)
    ctx.close(F, 1.0, what + ": fidelity per cell", tol=tol)
    for s in range(len(ts)):
        ctx.close(dense.rdm_inf(new, s, 2), dense.rdm_inf(ts, s, 2), what + ": density matrix at site %d" % s, tol=1e-6, scale=1.0)
    ctx.count("cells compared")


def eigtol(ctx, ts, tol):
    lam = dense.schmidt_inf(ts)
    e = min(np.linalg.eigvalsh((x + x.conj().T) / 2)[0] for x in dense.fixed_points(ts)[1:3])
    if lam[-1] < 1e-3 or e < 1e-6:
        raise Skip("spectrum too wide for the eigensolver tolerance")
    return 1e-8 + 100 * tol / min(e, lam[-1] ** 2)


def normalised(ctx, ts, what):
    e = np.max(np.abs(np.linalg.eigvals(dense.transfer_matrix(ts, ts))))
    ctx.close(e, 1.0, what + ": dominant eigenvalue of the transfer operator", tol=1e-7)


def direction_checks(ctx, x, lam, gauge, what, tol):
    N = len(x)
    iso = dense.right_iso if gauge == "right" else dense.left_iso
    for n in range(N):
        ctx.check(iso(x[n]) < tol, "%s: site %d not isometric (%.1e, tolerance %.1e)" % (what, n, iso(x[n]), tol))
    ctx.check(lam.ndim == 2 and lam.shape[0] == lam.shape[1], what + ": bond matrix shape")
    ctx.close(np.linalg.norm(lam), 1.0, what + ": norm of the bond matrix", tol=1e-9)
    if gauge == "symmetric":
        d = np.diag(lam)
        ctx.check(np.max(np.abs(lam - np.diag(d))) < 1e-12, what + ": bond matrix not diagonal")
        ctx.check(np.all(np.real(d) > 0) and np.all(np.diff(np.real(d)) <= 1e-12), what + ": not positive descending: %s" % d)
        # complementary isometry of the cell: lam^-1 A..A lam is right-isometric
        c = dense.chain(x)
        c = np.einsum("a,aPb,b->aPb", 1 / d, c, d)
        m = np.einsum("aPb,cPb->ac", c, np.conj(c))
        e = np.max(np.abs(m - np.eye(m.shape[0])))
        ctx.check(e < tol * 10, what + ": complementary isometry violated (%.1e)" % e)


def lists(ctx):
    ts, dt = gen.cell(ctx)
    tol = eigtol(ctx, ts, 1e-12)
    N = len(ts)
    for gauge in ("left", "right", "symmetric"):
        x = [t.copy() for t in ts]
        kw = {}
        if ctx.flag(0.3) and gauge != "symmetric":
            _, l, r, _ = dense.fixed_points(ts)
            kw = {"ldens": l, "rdens": r} if dt is complex else {"ldens": np.real(l), "rdens": np.real(r)}
        lam = mf.regaugeIMPS(x, gauge, nmaxit=10000, tol=1e-12, ncv=30, **kw)
        what = "regaugeIMPS(%s)" % gauge
        ctx.check(len(x) == N, what + ": number of tensors")
        ctx.check(x[0].shape[0] == x[-1].shape[1] and all(x[n].shape[1] == x[n + 1].shape[0] for n in range(N - 1)), what + ": bonds")
        check_cell(ctx, ts, x, what)
        normalised(ctx, x, what)
        direction_checks(ctx, x, lam, gauge, what, tol)
        if gauge == "symmetric":
            ctx.close(np.real(np.diag(lam)), dense.schmidt_inf(ts)[:lam.shape[0]], what + ": Schmidt coefficients", tol=1e-6, scale=1.0)
        ctx.check(all(np.isrealobj(t) for t in x) if dt is float else True, what + ": real cell became complex")
    ctx.sig(N, [t.shape for t in ts], np.dtype(dt).name)


def objects(ctx):
    ts, dt = gen.cell(ctx)
    tol = eigtol(ctx, ts, 1e-10)
    N = len(ts)
    m = mpslib.MPS(ts)
    gs = []
    for _ in range(3):
        if ctx.flag(0.5):
            m.position(ctx.integer(0, N))
            ctx.close(dense.fidelity_inf(ts, dense.full_tensors_inf(m)), 1.0, "position of an infinite MPS after %s" % gs, tol=1e-7)
        gauge = ctx.pick("left", "right", "symmetric")
        gs.append(gauge)
        m.regauge(gauge)
        what = "MPS.regauge %s" % gs
        check_cell(ctx, ts, dense.full_tensors_inf(m), what)
        ctx.check(m.pos == (0 if gauge == "right" else N), what + ": centre at %d" % m.pos)
        direction_checks(ctx, m.tensors, m._mat, gauge, what, tol)
        D = m._mat.shape[0]
        prod = m._mat @ m._connector
        ctx.close(prod, np.eye(D), what + ": connector is not the inverse of the bond matrix", tol=1e-9)
        ctx.check(not m.obc and len(m) == N, what + ": bookkeeping")
    m.canonize()
    check_cell(ctx, ts, dense.full_tensors_inf(m), "canonize after %s" % gs)
    ctx.sig(N, [t.shape for t in ts], np.dtype(dt).name, gs)


def single(ctx):
    ts, dt = gen.cell(ctx, N=1)
    tol = eigtol(ctx, ts, 1e-12)
    t = ts[0]
    D = t.shape[0]
    t0 = t.copy()
    ncv = min(D * D, 50)
    kw = dict(tol=1e-12, ncv=ncv, numeig=min(6, D * D - 3))
    for gauge in ("left", "right"):
        out, y = mf.regauge(t, gauge, **kw)
        what = "regauge(%s)" % gauge
        ctx.check(np.array_equal(t, t0), what + " modified its input")
        iso = dense.left_iso if gauge == "left" else dense.right_iso
        ctx.check(iso(out) < tol, what + ": not isometric (%.1e)" % iso(out))
        check_cell(ctx, ts, [out], what)
        # the returned matrix is the gauge transform: y A = eta^(1/2) out y (left), A x = x out (right)
        ctx.close(np.trace(y @ y.conj().T), 1.0, what + ": trace of the density matrix", tol=1e-8)
        e = np.sqrt(np.max(np.abs(np.linalg.eigvals(dense.transfer_matrix(ts, ts)))))
        if gauge == "left":
            ctx.close(np.einsum("ab,acs->bcs", y, t) / e, np.einsum("abs,cb->acs", out, y), what + ": gauge relation", tol=1e-6, scale=np.max(np.abs(y)))
        else:
            ctx.close(np.einsum("abs,bc->acs", t, y) / e, np.einsum("ab,bcs->acs", y, out), what + ": gauge relation", tol=1e-6, scale=np.max(np.abs(y)))
    g, lam, rest = mf.regauge(t, "symmetric", **kw)
    what = "regauge(symmetric)"
    ctx.check(np.array_equal(t, t0), what + " modified its input")
    ctx.check(lam.ndim == 1 and np.all(lam > 0) and np.all(np.diff(lam) <= 1e-12), what + ": Schmidt vector %s" % lam)
    ctx.close(lam, dense.schmidt_inf(ts)[:len(lam)], what + ": Schmidt coefficients", tol=1e-6, scale=1.0)
    A = np.einsum("a,abs->abs", lam, g)
    B = np.einsum("abs,b->abs", g, lam)
    ctx.check(dense.left_iso(A) < tol * 10 and dense.right_iso(B) < tol * 10, what + ": isometries %.1e %.1e" % (dense.left_iso(A), dense.right_iso(B)))
    check_cell(ctx, ts, [A], what)
    ctx.close(np.linalg.norm(lam), 1.0, what + ": norm", tol=1e-10)
    ctx.check(abs(rest) < 1e-12, what + ": truncated weight without truncation")
    ctx.sig(t.shape, np.dtype(dt).name)


def single_trunc(ctx):
    ts, dt = gen.cell(ctx, N=1, decay=ctx.pick(0.7, 0.4))
    eigtol(ctx, ts, 1e-12)
    t = ts[0]
    D = t.shape[0]
    s = dense.schmidt_inf(ts)
    kw = dict(tol=1e-12, ncv=min(D * D, 50), numeig=min(6, D * D - 3))
    Dm = ctx.integer(1, D)
    th = 1.01e-15 if ctx.flag() else 0.5 * (s[ctx.integer(1, D - 1)] + s[0] * 1e-6)
    g, lam, rest = mf.regauge(t, "symmetric", trunc=th, Dmax=Dm, **kw)
    k = min(Dm, int(np.sum(s > th)))
    if np.min(np.abs(s - th)) < 1e-8:
        raise Skip("threshold on a coefficient")
    ctx.check(len(lam) == k and g.shape[:2] == (k, k), "regauge kept %d states, expected %d" % (len(lam), k))
    ctx.close(lam, s[:k] / np.linalg.norm(s[:k]), "kept Schmidt coefficients", tol=1e-6, scale=1.0)
    ctx.close(rest, np.sum(s[k:]), "reported discarded weight", tol=1e-6, scale=1.0)
    A = np.einsum("a,abs->abs", lam, g)
    w = np.sum(s[k:] ** 2)
    F = dense.fidelity_inf(ts, [A])
    ctx.check(F >= 1 - 1.5 * w - 1e-7, "infidelity %.3e, discarded weight %.3e" % (1 - F, w))
    ctx.sig(D, Dm, "%.1e" % th, k)


def truncation(ctx):
    ts, dt = gen.cell(ctx, decay=ctx.pick(0.7, 0.5, 0.4))
    N = len(ts)
    eigtol(ctx, ts, 1e-10)
    D = ts[0].shape[0]
    spec = [dense.schmidt_inf([ts[(n + k) % N] for k in range(N)]) for n in range(N)]
    m = mpslib.MPS(ts)
    how = ctx.pick("D", "thresh", "both", "none")
    Dn = ctx.integer(1 if N == 1 else 2, D - 1) if how in ("D", "both") else None
    if Dn == 1:
        Dn = 2
    if how == "none":
        Dn = D + ctx.integer(0, 3)
    th = ctx.pick(1e-16, 1e-15) if how in ("D", "none") else 10 ** ctx.rng.uniform(-3, -0.7)
    if th > 1e-14:
        if min(np.min(np.abs(s - th)) for s in spec) < 1e-3 * th or min(np.sum(s > th) for s in spec) < 2:
            raise Skip("threshold on a coefficient or leaving a product state")
        if sum(np.sum(s[s <= th] ** 2) for s in spec) > 0.03:
            raise Skip("threshold would discard a substantial part of the state")
    g = ctx.pick(None, "left", "right", "symmetric")
    m.position(ctx.integer(0, N))
    m.truncate(schmidt_thresh=th, D=Dn, returned_gauge=g)
    what = "truncate(thresh=%.1e, D=%s, returned_gauge=%s) of a %d-site cell" % (th, Dn, g, N)
    dims = gen.bdims(m)
    if Dn is not None:
        ctx.check(max(dims) <= Dn, "%s left bonds %s" % (what, dims))
    if th > 1e-14:
        k = int(np.sum(spec[0] > th))
        k = min(k, Dn) if Dn is not None else k
        ctx.check(dims[0] == k and dims[-1] == k, "%s: boundary bond has %s states, expected %d" % (what, (dims[0], dims[-1]), k))
    new = dense.full_tensors_inf(m)
    if th > 1e-14:
        w = sum(np.sum(s[s <= th * 1.3] ** 2) for s in spec) if Dn is None else \
            sum(np.sum(s[min(Dn, int(np.sum(s > th * 1.3))):] ** 2) for s in spec)
    else:
        w = sum(np.sum(s[Dn:] ** 2) for s in spec)
    F = dense.fidelity_inf(ts, new)
    ctx.check(F >= 1 - 1.2 * w - 1e-7, "%s: infidelity per cell %.3e, discarded weight %.3e" % (what, 1 - F, w))
    if how == "none":
        check_cell(ctx, ts, new, what)
    gg = g or ("symmetric" if how != "none" else None)
    lmin = 1e-16
    if gg:
        lmin = min(np.min(dense.schmidt_inf([new[(n + k) % N] for k in range(N)])) for n in range(N))
        if lmin > 1e-3:
            direction_checks(ctx, m.tensors, m._mat, gg, what, 1e-7 + 1e-8 / lmin ** 2)
            ctx.check(m.pos == (0 if gg == "right" else N), what + ": centre")
    ctx.count("truncations that discarded something", int(w > 1e-12))
    ctx.sig(N, D, Dn, "%.1e" % th, g, dims)


def rank_deficient(ctx):
    """cells whose bond matrices do not have full rank: a smaller cell embedded in a larger bond space and rotated there"""
    core, dt = gen.cell(ctx)
    tol = eigtol(ctx, core, 1e-12)
    N, D = len(core), core[0].shape[0]
    E = D + ctx.integer(1, 3)
    qs = [np.linalg.qr(ctx.array((E, E), dt))[0] for _ in range(N)]
    kind = ctx.pick("padded", "nilpotent-left", "nilpotent-right")
    ts = []
    for n in range(N):
        t = np.zeros((E, E, core[n].shape[2]), dtype=dt)
        t[:D, :D] = core[n]
        if kind == "nilpotent-left":          # the extra states can be entered and never left again without leaving the chain
            t[:D, D:] = 0.5 * ctx.array((D, E - D, t.shape[2]), dt)
        elif kind == "nilpotent-right":
            t[D:, :D] = 0.5 * ctx.array((E - D, D, t.shape[2]), dt)
        a, b = qs[n], qs[(n + 1) % N]
        ts.append(np.einsum("ax,xys,by->abs", a, t, b.conj()))
    for gauge in ("left", "right", "symmetric"):
        x = [t.copy() for t in ts]
        with warnings.catch_warnings():
            lam = mf.regaugeIMPS(x, gauge, nmaxit=10000, tol=1e-12, ncv=30)
        what = "regaugeIMPS(%s) of a %s cell of rank %d in %d dimensions" % (gauge, kind, D, E)
        check_cell(ctx, core, x, what)
        if gauge == "symmetric":
            ctx.check(lam.shape == (D, D) and x[0].shape[0] == D and x[-1].shape[1] == D, what + ": boundary bond %s" % (lam.shape,))
            direction_checks(ctx, x, lam, gauge, what, 10 * tol)
            ctx.close(np.real(np.diag(lam)), dense.schmidt_inf(core), what + ": Schmidt coefficients", tol=1e-6, scale=1.0)
    m = mpslib.MPS([t.copy() for t in ts])
    with warnings.catch_warnings():
        g = ctx.pick("left", "right", "symmetric")
        m.regauge(g)
        check_cell(ctx, core, dense.full_tensors_inf(m), "MPS.regauge(%s) of a %s cell" % (g, kind))
        m.regauge("symmetric")
    check_cell(ctx, core, dense.full_tensors_inf(m), "MPS.regauge(%s, symmetric) of a %s cell" % (g, kind))
    ctx.check(m.D[0] == D, "MPS.regauge(symmetric) left %d states on the boundary bond, the state has %d" % (m.D[0], D))
    ctx.sig(N, D, E, kind, np.dtype(dt).name)


CASES = [("list", lists, 150, 2500), ("object", objects, 120, 2000), ("single", single, 150, 2500), ("single-truncated", single_trunc, 100, 1500),
         ("truncation", truncation, 200, 3000),
         ("rank-deficient", rank_deficient, 80, 1500)]
