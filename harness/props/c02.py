"""C02: contracts of the local splittings, driven directly and observed online inside running algorithms."""
import numpy as np
import dense, gen, workloads
from common import Skip
import lib.mpslib.mpsfunctions as mf

RULE = ("random tensors (tall, wide, size-1 legs, real/complex, scales 1e-6..1e6, full rank, rank deficient, degenerate spectra, "
        "prescribed singular values) through every splitting, direction and option; plus contracts evaluated on every splitting "
        "executed inside DMRG/TEBD/arithmetic runs; non-trivial = more than one element")
ASSUMPTIONS = ["the zero tensor is outside the precondition (no normalised factorisation exists)",
               "numpy.linalg.svd computes singular values accurately"]


def tensor(ctx, dt=None):
    dt = dt or gen.dtype(ctx)
    D1, D2, d = ctx.size(1, 7, 48), ctx.size(1, 7, 48), ctx.size(1, 4, 9)
    style = ctx.pick("plain", "plain", "rank", "iso", "degenerate", "decay", "order")
    a = ctx.array((D1, D2, d), dt)
    m = np.transpose(a, (0, 2, 1)).reshape(D1 * d, D2)
    if style == "rank":
        k = ctx.integer(1, min(m.shape))
        m = ctx.array((m.shape[0], k), dt) @ ctx.array((k, m.shape[1]), dt)
    elif style in ("iso", "degenerate", "decay"):
        u, s, v = np.linalg.svd(m, full_matrices=False)
        if style == "iso":
            s = np.ones(len(s))
        elif style == "degenerate":
            s = np.array([1.0] * ((len(s) + 1) // 2) + [0.25] * (len(s) // 2))[:len(s)]
        else:
            s = 0.1 ** np.arange(len(s)) if len(s) < 10 else 10.0 ** -np.linspace(0, 8, len(s))
        m = (u * s) @ v
    a = np.transpose(m.reshape(D1, d, D2), (0, 2, 1))
    if style == "order":
        a = np.asfortranarray(a)
    scale = ctx.pick(1.0, 1.0, 1e-6, 1e6, 0.02)
    a = a * scale
    if np.linalg.norm(a) == 0:
        a = a + 1.0
    return a, style


def right_matrix(t, m):     # t.m
    return np.transpose(np.tensordot(t, m, ([1], [0])), (0, 2, 1))


def left_matrix(m, t):
    return np.tensordot(m, t, ([1], [0]))


def triangular_ok(r, upper):
    return np.allclose(r, np.triu(r) if upper else np.tril(r), atol=1e-12)


def check_qr_split(ctx, t, direction, out, r, Z, what, fixphase=None):
    ctx.check(np.ndim(Z) == 0 and np.isreal(Z) and Z > 0, "%s: Z=%r is not a positive number" % (what, Z))
    ctx.close(np.linalg.norm(r), 1.0, what + ": norm of the bond matrix", tol=1e-10)
    if direction > 0:
        ctx.check(dense.left_iso(out) < 1e-10, "%s: not left isometric (%.1e)" % (what, dense.left_iso(out)))
        ctx.close(right_matrix(out, r) * Z, t, what + ": product of the factors", tol=1e-10)
        ctx.check(out.shape[1] == min(t.shape[0] * t.shape[2], t.shape[1]), "%s: bond %d is not minimal" % (what, out.shape[1]))
        ctx.check(triangular_ok(r, True), what + ": bond matrix is not upper triangular")
    else:
        ctx.check(dense.right_iso(out) < 1e-10, "%s: not right isometric (%.1e)" % (what, dense.right_iso(out)))
        ctx.close(left_matrix(r, out) * Z, t, what + ": product of the factors", tol=1e-10)
        ctx.check(out.shape[0] == min(t.shape[1] * t.shape[2], t.shape[0]), "%s: bond %d is not minimal" % (what, out.shape[0]))
        ctx.check(triangular_ok(r, False), what + ": bond matrix is not lower triangular")


def prepare_tensor(ctx):
    t, style = tensor(ctx)
    t0 = t.copy()
    direction = ctx.pick(1, -1, 2, -3)
    fix = ctx.pick(None, None, "q", "r")
    out, r, Z = mf.prepareTensor(t, direction, **({} if fix is None else {"fixphase": fix}))
    check_qr_split(ctx, t0, direction, out, r, Z, "prepareTensor(%s,dir=%d,fixphase=%s)" % (t.shape, direction, fix), fix)
    ctx.check(np.array_equal(t, t0), "prepareTensor changed its input")
    if fix == "q":
        if direction > 0:
            q = np.transpose(out, (2, 0, 1)).reshape(-1, out.shape[1])
        else:
            q = np.conj(np.transpose(out, (1, 2, 0))).reshape((-1, out.shape[0]), order="F")
        dd = np.diag(q)
        ctx.check(np.max(np.abs(np.imag(dd))) < 1e-10 and np.min(np.real(dd)) > -1e-10,
                  "prepareTensor(fixphase='q'): diagonal of q is not real and non-negative")
    if fix == "r":
        dd = np.diag(r)
        ctx.check(np.max(np.abs(np.imag(dd))) < 1e-10 and np.min(np.real(dd)) > -1e-10,
                  "prepareTensor(fixphase='r'): diagonal of r is not real and non-negative")
    ctx.count("QR splittings checked")
    if t.size > 1:
        ctx.sig(t.shape, t.dtype, style, direction, fix)


def check_svd_split(ctx, t, direction, res, what, D=None, thresh=1e-32):
    s, Z = np.asarray(res[1]), res[3]
    ctx.check(np.ndim(Z) == 0 and np.isreal(Z) and Z > 0, "%s: Z=%r is not a positive number" % (what, Z))
    ctx.close(Z, np.linalg.norm(t), what + ": Z is not the norm of the tensor", tol=1e-10)
    m = np.transpose(t, (2, 0, 1)).reshape(-1, t.shape[1]) if direction > 0 else t.reshape(t.shape[0], -1)
    full = np.linalg.svd(m, compute_uv=False)
    keep = len(full)
    if thresh > 1e-16:
        keep = int(np.sum(full > thresh))
    if D is not None:
        keep = min(keep, D)
    ctx.check(len(s) == keep, "%s: %d singular values kept, expected %d of %s" % (what, len(s), keep, full))
    ctx.close(np.linalg.norm(s), 1.0, what + ": norm of the singular values", tol=1e-10)
    kn = np.linalg.norm(full[:keep])
    ctx.close(s, full[:keep] / kn, what + ": singular values", tol=1e-9, scale=1.0)
    ctx.check(np.all(np.diff(s) <= 1e-12) and np.all(s >= 0), "%s: singular values not descending/non-negative" % what)
    if direction > 0:
        out, v = res[0], res[2]
        ctx.check(dense.left_iso(out) < 1e-10, "%s: not left isometric" % what)
        ctx.check(np.max(np.abs(v @ v.conj().T - np.eye(keep))) < 1e-10, "%s: v is not an isometry" % what)
        rec = right_matrix(out, np.diag(s) @ v) * kn
    else:
        u, out = res[0], res[2]
        ctx.check(dense.right_iso(out) < 1e-10, "%s: not right isometric" % what)
        ctx.check(np.max(np.abs(u.conj().T @ u - np.eye(keep))) < 1e-10, "%s: u is not an isometry" % what)
        rec = left_matrix(u @ np.diag(s), out) * kn
    if keep == len(full):
        ctx.close(rec, t, what + ": product of the factors", tol=1e-10)
    else:
        ctx.close(np.linalg.norm(rec - t), np.linalg.norm(full[keep:]), what + ": truncation error", tol=1e-8, scale=Z)


def prepare_truncate(ctx):
    t, style = tensor(ctx)
    t0 = t.copy()
    direction = ctx.pick(1, -1)
    m = np.transpose(t, (2, 0, 1)).reshape(-1, t.shape[1]) if direction > 0 else t.reshape(t.shape[0], -1)
    full = np.linalg.svd(m, compute_uv=False)
    kw = {}
    if ctx.flag():
        kw["D"] = ctx.integer(1, len(full) + 2)
    if ctx.flag():
        i = ctx.integer(0, len(full) - 1)
        # a threshold clearly between two singular values
        lo = full[i + 1] if i + 1 < len(full) else 0.0
        if full[i] > 1.001 * lo and full[i] > 1e-12 * full[0] and full[i] > 1e-14:
            kw["thresh"] = np.sqrt(full[i] * max(lo, 1e-3 * full[i]))
            if kw["thresh"] <= 1e-15 or kw["thresh"] < 1e-11 * full[0]:
                del kw["thresh"]
    res = mf.prepareTruncate(t, direction, **kw)
    what = "prepareTruncate(%s,dir=%d,%s)" % (t.shape, direction, kw)
    check_svd_split(ctx, t0, direction, res, what, **kw)
    ctx.check(np.array_equal(t, t0), "prepareTruncate changed its input")
    ctx.count("truncating splittings checked")
    if t.size > 1:
        ctx.sig(t.shape, t.dtype, style, direction, sorted(kw), kw.get("D"))


def prepare_svd(ctx):
    t, style = tensor(ctx)
    t0 = t.copy()
    direction = ctx.pick(1, -1)
    fix = ctx.flag(0.4)
    out, s, x, Z = mf.prepareTensorSVD(t, direction, **({"fixphase": True} if fix else {}))
    res = (out, s, x, Z) if direction > 0 else (x, s, out, Z)
    check_svd_split(ctx, t0, direction, res, "prepareTensorSVD(%s,dir=%d,fixphase=%s)" % (t.shape, direction, fix))
    ctx.check(np.array_equal(t, t0), "prepareTensorSVD changed its input")
    ctx.count("SVD splittings checked")
    if t.size > 1:
        ctx.sig(t.shape, t.dtype, style, direction, fix)


def plain_svd_qr(ctx):
    dt = gen.dtype(ctx)
    m = ctx.array((ctx.size(1, 8, 60), ctx.size(1, 8, 60)), dt, ctx.pick(1.0, 1e-5, 1e5))
    m0 = m.copy()
    u, s, v = mf.svd(m)
    k = min(m.shape)
    ctx.check(u.shape == (m.shape[0], k) and v.shape == (k, m.shape[1]) and s.shape == (k,), "svd: wrong shapes")
    ctx.close((u * s) @ v, m0, "svd: product", tol=1e-10)
    ctx.close(u.conj().T @ u, np.eye(k), "svd: u isometric", tol=1e-10)
    ctx.close(v @ v.conj().T, np.eye(k), "svd: v isometric", tol=1e-10)
    ctx.check(np.all(s >= 0) and np.all(np.diff(s) <= 1e-12 * s[0]), "svd: order of singular values")
    if np.issubdtype(dt, np.floating) or True:
        sf = ctx.pick("q", "r")
        if dt is float:
            q, r = mf.qr(m, sf)
            ctx.close(q @ r, m0, "qr(signfix=%s): product" % sf, tol=1e-10)
            ctx.close(q.conj().T @ q, np.eye(k), "qr: q isometric", tol=1e-10)
            d = np.diag(q if sf == "q" else r)
            ctx.check(np.all(d > -1e-12), "qr(signfix=%s): diagonal not positive" % sf)
    ctx.check(np.array_equal(m, m0), "svd/qr changed its input")
    ctx.sig(m.shape, np.dtype(dt).name)


def sweep_stretch(ctx):
    """orthonormalizeQR/SVD on a stretch of a list"""
    ds = gen.dims(ctx)
    b = gen.bonds(ctx, ds, 5)
    dt = gen.dtype(ctx)
    ts = gen.tensors(ctx, ds, b, dt)
    v = dense.lvec(ts)
    N = len(ds)
    s1 = ctx.integer(0, N - 1)
    s2 = ctx.integer(s1, N - 1)
    direction = ctx.pick(1, -1)
    name = ctx.pick("QR", "SVD")
    work = [t.copy() for t in ts]
    f = mf.orthonormalizeQR if name == "QR" else mf.orthonormalizeSVD
    mat = f(work, direction, s1, s2)
    what = "orthonormalize%s(dir=%d,%d..%d of %d)" % (name, direction, s1, s2, N)
    for n in range(s1, s2 + 1):
        e = dense.left_iso(work[n]) if direction > 0 else dense.right_iso(work[n])
        ctx.check(e < 1e-9, "%s: tensor %d is not isometric (%.1e)" % (what, n, e))
    rec = [t.copy() for t in work]
    if direction > 0 and s2 == N - 1:
        rec[-1] = right_matrix(rec[-1], mat)
    if direction < 0 and s1 == 0:
        rec[0] = left_matrix(mat, rec[0])
    w = dense.lvec(rec)
    complete = (direction > 0 and s2 == N - 1) or (direction < 0 and s1 == 0)
    ctx.close(w / np.linalg.norm(w), v / np.linalg.norm(v), what + ": direction of the state", tol=1e-8)
    if complete:
        ctx.close(w, v, what + ": state recovered with the returned matrix", tol=1e-8)
    for n in list(range(0, s1)) + list(range(s2 + 1, N)):
        nb = (n == s2 + 1) if direction > 0 else (n == s1 - 1)
        if not nb:
            ctx.check(np.array_equal(work[n], ts[n]), "%s: touched tensor %d" % (what, n))
    ctx.count("stretches orthonormalised")
    ctx.sig(name, direction, s1, s2, str(ds), str(b), np.dtype(dt).name)


def live(ctx):
    """contracts on every splitting executed inside running algorithms"""
    import monitors

    def on_qr(args, kwargs, res):
        a = dict(zip(("tensor", "direction", "fixphase"), args))
        a.update(kwargs)
        t = np.asarray(a["tensor"])
        if np.linalg.norm(t) > 1e-200 and t.ndim == 3:
            check_qr_split(ctx, t, a["direction"], res[0], res[1], res[2], "live prepareTensor%s" % (t.shape,))
            ctx.count("live prepareTensor calls")

    def on_svd(args, kwargs, res):
        a = dict(zip(("tensor", "direction", "D", "thresh", "r_thresh"), args))
        a.update(kwargs)
        t = np.asarray(a["tensor"])
        m = np.transpose(t, (2, 0, 1)).reshape(-1, t.shape[1]) if a["direction"] > 0 else t.reshape(t.shape[0], -1)
        full = np.linalg.svd(m, compute_uv=False)
        th = a.get("thresh", 1e-32)
        if th > 1e-16 and np.any(np.abs(full - th) < 1e-6 * th + 1e-14 * full[0]):
            return
        if th > 1e-16 and not np.any(full > th):
            return
        check_svd_split(ctx, t, a["direction"], res, "live prepareTruncate%s" % (t.shape,), a.get("D"), th)
        ctx.count("live prepareTruncate calls")

    with monitors.watch((mf, "prepareTensor", on_qr), (mf, "prepareTruncate", on_svd)):
        workloads.run(ctx, ctx.pick("sweeps", "gates", "dmrg", "tebd", "tdvp", "arith"))


def svd_fault(ctx):
    """LAPACK's gesdd fails to converge now and then; the documented fallback has to deliver the same contract"""
    t, style = tensor(ctx)
    if style in ("rank",):
        raise Skip("fallback zeroes tiny entries")
    real = np.linalg.svd
    left = [1]

    def failing(*a, **k):
        if left[0] > 0:
            left[0] -= 1
            raise np.linalg.LinAlgError("SVD did not converge (injected)")
        return real(*a, **k)
    which = ctx.pick("truncate", "svd")
    np.linalg.svd = failing
    try:
        if which == "svd":
            m = np.transpose(t, (2, 0, 1)).reshape(-1, t.shape[1])
            u, s, v = mf.svd(m)
        else:
            direction = ctx.pick(1, -1)
            D = ctx.pick(None, 2)
            res = mf.prepareTruncate(t, direction, D=D)
    finally:
        np.linalg.svd = real
    ctx.check(left[0] == 0, "fault was not injected")
    ctx.count("SVD failures injected")
    if which == "svd":
        k = min(m.shape)
        ctx.check(u.shape == (m.shape[0], k) and v.shape == (k, m.shape[1]) and s.shape == (k,), "svd fallback: wrong shapes")
        ctx.close((u * s) @ v, m, "svd fallback: product", tol=1e-8)
        ctx.close(u.conj().T @ u, np.eye(k), "svd fallback: u isometric", tol=1e-8)
        ctx.close(v @ v.conj().T, np.eye(k), "svd fallback: v isometric", tol=1e-8)
    else:
        check_svd_split(ctx, t, direction, res, "prepareTruncate fallback%s" % (t.shape,), D=D)
    ctx.sig(which, t.shape, t.dtype, style)


CASES = [("svd-fault", svd_fault, 60, 1000), ("prepareTensor", prepare_tensor, 400, 10000), ("prepareTruncate", prepare_truncate, 400, 10000),
         ("prepareTensorSVD", prepare_svd, 200, 4000), ("svd-qr", plain_svd_qr, 100, 2000),
         ("stretch", sweep_stretch, 120, 3000), ("live", live, 30, 400)]
