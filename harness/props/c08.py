"""C08: one- and two-site gates against dense application; truncation bookkeeping on the gated bond."""
import numpy as np
import dtypes
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib

RULE = ("random swept finite MPS (mixed local dimensions, norms, dtypes) under sequences of random unitary / non-unitary / projecting gates at "
        "random sites, without truncation and with every Dmax and thresholds placed inside the exact spectrum; long chains of 9-40 sites against contraction references of the harness; gates in every number type")
ASSUMPTIONS = ["a two-site gate that does not conserve the norm is followed by normalisation to the norm before the gate (documented by the TEBD usage); "
               "its direction must be exact"]


def unitary(ctx, n, dt):
    q = np.linalg.qr(ctx.array((n, n), dt))[0]
    k = ctx.pick("haar", "haar", "near", "perm", "diag", "id")
    if k == "near":
        return dense.expm_herm(ctx.herm(n, dt), 1j * 0.05) if dt is complex else np.linalg.qr(np.eye(n) + 0.05 * ctx.array((n, n)))[0]
    if k == "perm":
        return np.eye(n)[ctx.rng.permutation(n)]
    if k == "diag":
        return np.diag(np.exp(1j * ctx.array(n))) if dt is complex else np.diag(np.sign(ctx.array(n)))
    if k == "id":
        return np.eye(n)
    return q


def gate_on(v, g, site, ds):
    """dense application without building the full matrix; g (n,n) [in,out] over one or two sites"""
    n = g.shape[0]
    dl = int(np.prod(ds[:site])) if site else 1
    x = v.reshape(dl, n, -1)
    return np.einsum("aib,io->aob", x, g).reshape(-1)


def one_site(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    for _ in range(5):
        s = ctx.integer(0, N - 1)
        keep = ctx.flag(0.75)
        kind = ctx.pick("unitary", "general", "projector") if keep else "unitary"
        gdt = gen.dtype(ctx)
        if kind == "unitary":
            g = unitary(ctx, ds[s], gdt)
        elif kind == "general":
            g = ctx.array((ds[s], ds[s]), gdt)
        else:
            g = np.zeros((ds[s], ds[s]))
            g[ctx.integer(0, ds[s] - 1), ctx.integer(0, ds[s] - 1)] = 1.0
        w = gate_on(v, g, s, ds)
        if np.linalg.norm(w) < 1e-6 * np.linalg.norm(v):
            continue
        g0 = g.copy()
        D0 = gen.bdims(m)
        p0 = m.pos
        if keep:
            m.applyOneSiteGate(g, s)
        else:
            m.applyOneSiteGate(g, s, preserve_position=False)
        v = w
        ctx.close(dense.vec(m), v, "one-site gate (%s, site %d of %d, centre %d)" % (kind, s, N, p0), tol=1e-8)
        ctx.check(np.array_equal(g, g0), "applyOneSiteGate changed the gate")
        ctx.check(gen.canonical_errors(m) < 1e-8, "one-site gate destroyed the canonical form")
        ctx.close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix", tol=1e-9)
        ctx.check(all(a <= b for a, b in zip(gen.bdims(m), D0)), "one-site gate enlarged a bond")
        ctx.close(np.asarray(m.measureList([np.diag(np.arange(d)) for d in ds])),
                  np.array([dense.expect(dense.embed(np.diag(np.arange(d)), n, ds), v) for n, d in enumerate(ds)]),
                  "local expectation values after the gate", tol=1e-8, scale=np.linalg.norm(v) ** 2)
        ctx.count("one-site gates")
        ctx.sig(kind, N, s, keep)


def two_site_exact(ctx):
    m, ds, v = gen.state(ctx, Dmax=5)
    N = len(ds)
    for _ in range(5):
        s = ctx.integer(0, N - 2)
        n = ds[s] * ds[s + 1]
        gdt = gen.dtype(ctx)
        kind = ctx.pick("unitary", "unitary", "general")
        g = unitary(ctx, n, gdt) if kind == "unitary" else ctx.array((n, n), gdt) + 2 * np.eye(n)
        w = gate_on(v, g, s, ds)
        if np.linalg.norm(w) < 1e-3 * np.linalg.norm(v):
            continue
        G = g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1])
        G0 = G.copy()
        how = ctx.pick("default", "large")
        r = m.applyTwoSiteGate(G, s) if how == "default" else m.applyTwoSiteGate(G, s, Dmax=10000)
        tw, D = r
        ctx.check(np.array_equal(G, G0), "applyTwoSiteGate changed the gate")
        if kind != "unitary":
            w = w * (np.linalg.norm(v) / np.linalg.norm(w))
        v = w
        ctx.close(dense.vec(m), v, "two-site gate (%s, sites %d,%d of %d)" % (kind, s, s + 1, N), tol=1e-7)
        ctx.check(m.pos == s + 1, "centre bond is %d after a gate on site %d" % (m.pos, s))
        ctx.check(abs(tw) < 1e-20, "truncated weight %.2e without truncation" % tw)
        ctx.check(D == gen.bdims(m)[s + 1] and m._mat.shape == (D, D), "reported bond dimension %s, actual %s" % (D, m._mat.shape))
        ctx.check(gen.canonical_errors(m) < 1e-7, "two-site gate destroyed the canonical form")
        ctx.close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix", tol=1e-9)
        full = dense.schmidt(v, ds, s + 1)
        sv = np.sort(np.abs(np.diag(m._mat)))[::-1]
        ctx.close(sv, full[:len(sv)], "Schmidt coefficients on the gated bond", tol=1e-8)
        o = np.triu(np.arange(1, ds[s] ** 2 + 1).reshape(ds[s], ds[s]) * (1 + 0.5j))
        ctx.close(m.measureLocal(o, s), dense.expect(dense.embed(o, s, ds), v), "measurement after the gate", tol=1e-8,
                  scale=np.linalg.norm(v) ** 2 * np.linalg.norm(o, 2))
        ctx.count("two-site gates")
        ctx.sig(kind, N, s, how, ds[s], ds[s + 1], np.dtype(gdt).name)


def two_site_trunc(ctx):
    m, ds, v = gen.state(ctx, Dmax=6, style=ctx.pick("plain", "decay"))
    N = len(ds)
    for _ in range(4):
        s = ctx.integer(0, N - 2)
        n = ds[s] * ds[s + 1]
        g = unitary(ctx, n, gen.dtype(ctx))
        w = gate_on(v, g, s, ds)
        S = dense.schmidt(w, ds, s + 1)
        r = int(np.sum(S > 1e-12))
        Dmax = ctx.pick(None, ctx.integer(1, max(1, r)), ctx.integer(1, max(1, r)), r + 3)
        thresh = 1e-16
        if ctx.flag(0.6):
            # a threshold strictly between two exact coefficients
            k = ctx.integer(1, r)
            nxt = S[k] if k < len(S) else 0.0
            if S[k - 1] - nxt < 1e-6:
                continue
            thresh = ctx.pick(0.5, 0.1, 0.9) * (S[k - 1] - max(nxt, 1e-13)) + max(nxt, 1e-13)
        keep = int(np.sum(S > thresh)) if thresh > 1e-15 else r
        if Dmax is not None:
            keep = min(keep, Dmax)
        G = g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1])
        tw, D = m.applyTwoSiteGate(G, s, Dmax=Dmax, thresh=thresh)
        if Dmax is not None:
            ctx.check(D <= Dmax, "bond dimension %d exceeds Dmax=%s" % (D, Dmax))
        if thresh > 1e-15:
            ctx.check(D == keep, "kept %d states, expected %d (Dmax=%s, thresh=%.2e)" % (D, keep, Dmax, thresh))
        ctx.check(D == gen.bdims(m)[s + 1], "reported bond dimension %s" % D)
        ctx.close(tw, np.sum(S[D:] ** 2), "truncated weight", tol=1e-9, scale=1.0)
        got = dense.vec(m)
        ctx.close(np.linalg.norm(got), np.linalg.norm(v), "norm after a truncating gate", tol=1e-8)
        # the best approximation: fidelity is exactly 1 - discarded weight
        F = abs(np.vdot(got, w)) ** 2 / (np.linalg.norm(got) * np.linalg.norm(w)) ** 2
        ctx.close(F, 1 - np.sum(S[D:] ** 2), "fidelity of a truncating gate", tol=1e-8)
        # ... and equals the truncated SVD itself unless the cut falls into a degenerate multiplet
        if D < len(S) and S[D - 1] - S[D] > 1e-4:
            dl = int(np.prod(ds[:s + 1]))
            u, ss, vh = np.linalg.svd(w.reshape(dl, -1), full_matrices=False)
            b = (u[:, :D] * ss[:D]) @ vh[:D]
            b = b.reshape(-1) * (np.linalg.norm(v) / np.linalg.norm(b))
            ctx.close(got, b, "best approximation on the gated bond", tol=1e-6)
        ctx.check(gen.canonical_errors(m) < 1e-7, "truncating gate destroyed the canonical form")
        ctx.close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix", tol=1e-9)
        v = got
        ctx.count("truncating gates", int(D < r))
        ctx.sig(N, s, Dmax, D)


CASES = [("one-site", one_site, 250, 4000), ("two-site", two_site_exact, 300, 5000), ("number-types", dtypes.gates, 120, 2000), ("truncating", two_site_trunc, 300, 5000),
         ("long-circuit", long.circuit, 40, 800)]
