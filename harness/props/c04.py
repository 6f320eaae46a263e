"""C04: truncation of finite MPS - limits and error budget."""
import numpy as np
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("random finite states with plain, decaying, rank-deficient and degenerate spectra, truncated by position(D, schmidt_thresh) over "
        "part or all of the chain and by truncate(), from every start centre; non-trivial = something could be discarded "
        "(D below the largest bond, or a threshold above the smallest coefficient); long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["bound used: a sequence of optimal projections loses at most the sum of the per-bond discarded weights of the original state",
               "thresholds within 1e-6 relative of a Schmidt coefficient are not judged for the exact count"]


def truncated(ctx):
    style = ctx.pick("plain", "decay", "rank", "offset", "plain")
    m, ds, v = gen.state(ctx, Dmax=10, style=style, kind=ctx.pick("flat", "random", "exact", "exact"))
    N = len(ds)
    if ctx.flag(0.1):
        # degenerate spectrum: products of maximally entangled pairs across a random pairing are covered by 'ghz'
        pass
    nrm = np.linalg.norm(v)
    spectra = [dense.schmidt(v, ds, n) for n in range(N + 1)]
    D0 = gen.bdims(m)
    mat0 = max(m._mat.shape)  # larger side of a rectangular centre matrix: a bond the centre leaves keeps one of the two
    D = ctx.pick(None, ctx.integer(1, 6), ctx.integer(1, 3))
    th = None
    if ctx.flag(0.5) or D is None:
        b = ctx.integer(1, N - 1)
        s = spectra[b]
        th = float(ctx.pick(s[ctx.integer(0, len(s) - 1)] * 1.3 + 1e-14, 10.0 ** ctx.rng.uniform(-14, -0.5)))
        th = min(th, 0.4)
        if any(s[0] <= 2 * th for s in spectra[1:N]):
            th = 0.3 * min(s[0] for s in spectra[1:N])
    how = ctx.pick("position", "position", "truncate")
    if how == "truncate":
        lo, hi = 1, N - 1
        start = m.pos
        m.truncate(schmidt_thresh=th if th is not None else 1e-16, D=D)
    else:
        start = m.pos
        end = ctx.integer(0, N)
        if end == start:
            end = N if start < N else 0
        kw = {}
        if D is not None:
            kw["D"] = D
        if th is not None:
            kw["schmidt_thresh"] = th
        m.position(end, **kw)
        # bonds that received a truncation: those the centre moved onto
        lo, hi = (start + 1, end) if end > start else (end, start - 1)
        ctx.check(m.pos == end, "position(%d) left the centre at %d" % (end, m.pos))
    w = dense.vec(m)
    bd = gen.bdims(m)
    what = "%s(D=%s, thresh=%s) from bond %d" % (how, D, th, start)
    ctx.check(np.all(np.isfinite(w)), what + ": state not finite")
    ctx.close(np.linalg.norm(w), nrm, what + ": norm of the truncated state", tol=1e-8)
    ctx.check(gen.canonical_errors(m) < 1e-8, what + ": not canonical")
    swept = [n for n in range(max(lo, 1), min(hi, N - 1) + 1)]
    eps = 0.0
    for n in swept:
        s = spectra[n]
        keep = len(s)
        if th is not None and th > 1e-15:
            keep = int(np.sum(s > th * (1 + 1e-9)))
        if D is not None:
            keep = min(keep, D)
        eps += float(np.sum(s[keep:] ** 2))
    # thresholds act on renormalised intermediate states: coefficients within the accumulated loss of the
    # threshold may go either way, which the two one-sided counts below allow for
    fid = np.real(np.vdot(v, w)) / nrm ** 2
    ctx.check(abs(np.imag(np.vdot(v, w))) <= 1e-8 * nrm ** 2, what + ": phase of the state changed")
    # the loss is bounded by what lies beyond the number of states actually kept; the counts are judged below
    lost = sum(float(np.sum(spectra[n][bd[n]:] ** 2)) for n in swept)
    ctx.check(fid ** 2 >= 1 - lost - 1e-9 and fid > 0 or lost >= 1,
              what + ": squared overlap %.12f below 1-%.3e" % (fid ** 2, lost))
    if eps < 1e-20:
        ctx.close(w, v, what + ": nothing to discard, state must not change", tol=1e-8, scale=nrm * 1e-2)
    best = max([0.0] + [float(np.sum(spectra[n][bd[n]:] ** 2)) for n in range(1, N)])
    ctx.check(fid ** 2 <= 1 - best + 1e-8, what + ": better than the optimum for its bond dimensions")
    for n in range(N + 1):
        if n in swept:
            if D is not None:
                ctx.check(bd[n] <= D, what + ": bond %d has dimension %d > D=%d" % (n, bd[n], D))
            if th is not None and th > 1e-15:
                s = spectra[n]
                room = np.sqrt(max(0.0, 1 - fid ** 2)) + 1e-9
                most = int(np.sum(s > th * np.sqrt(max(0.0, 1 - eps)) * (1 - 1e-6) - 1e-12))
                least = int(np.sum(s > th * (1 + 1e-6) + 2 * room))
                if D is not None:
                    least = min(least, D)
                ctx.check(bd[n] <= most, what + ": bond %d keeps %d coefficients, only %d reach the threshold: %s" % (n, bd[n], most, s))
                ctx.check(bd[n] >= least, what + ": bond %d keeps %d coefficients, %d exceed the threshold: %s" % (n, bd[n], least, s))
        ctx.check(bd[n] <= (max(D0[n], mat0) if n == start else D0[n]), what + ": bond %d grew from %d to %d" % (n, D0[n], bd[n]))
    ctx.count("truncations")
    ctx.count("bonds truncated", sum(1 for n in swept if bd[n] < D0[n]))
    if not any(bd[n] < D0[n] for n in swept):
        ctx.sigs.clear()
    else:
        ctx.sig(how, str(D), "%.3g" % (th or 0), start)


def single_bond(ctx):
    """moving by one bond truncates exactly that bond and is optimal there"""
    m, ds, v = gen.state(ctx, Dmax=8, kind=ctx.pick("flat", "exact"), N=ctx.integer(3, 6))
    N = len(ds)
    b = ctx.integer(1, N - 1)
    m.position(b + ctx.pick(1, -1))
    s = dense.schmidt(v, ds, b)
    r = int(np.sum(s > 1e-10))
    nrm = np.linalg.norm(v)
    if ctx.flag():
        D = ctx.integer(1, max(1, r))
        m.position(b, D=D)
        k = D
    else:
        k = ctx.integer(1, r)
        lo = s[k] if k < len(s) else 0.0
        if s[k - 1] < 1.01 * lo:
            raise Skip("degenerate")
        th = np.sqrt(s[k - 1] * max(lo, 1e-3 * s[k - 1]))
        m.position(b, schmidt_thresh=th)
    k = min(k, len(s))
    bd = gen.bdims(m)
    ctx.check(bd[b] == k, "bond %d has %d states, expected %d of %s" % (b, bd[b], k, s))
    w = dense.vec(m)
    keep = np.sum(s[:k] ** 2)
    ctx.close(np.vdot(v, w) / nrm ** 2, np.sqrt(keep), "overlap after truncating bond %d to %d" % (b, k), tol=1e-8)
    ctx.close(np.linalg.norm(w), nrm, "norm", tol=1e-9)
    got = dense.schmidt(w, ds, b)
    ctx.close(got[:k], s[:k] / np.sqrt(keep), "Schmidt coefficients after truncating bond %d to %d" % (b, k), tol=1e-8, scale=1.0)
    ctx.count("single-bond truncations")


def degenerate(ctx):
    """GHZ-like and paired states: flat spectra"""
    N = ctx.integer(3, 7)
    k = ctx.integer(2, 4)
    d = max(2, k)
    if d ** N > 3000:
        N = 4
    c = np.ones(k) if ctx.flag() else np.sort(ctx.rng.random_sample(k) + 0.1)[::-1]
    ts = []
    for n in range(N):
        t = np.zeros((1 if n == 0 else k, 1 if n == N - 1 else k, d))
        for a in range(k):
            t[0 if n == 0 else a, 0 if n == N - 1 else a, a] = c[a] if n == 0 else 1.0
        ts.append(t)
    v = dense.lvec(ts)
    m = gen.swept(ts)
    ctx.close(dense.vec(m), v, "GHZ state", tol=1e-10)
    D = ctx.integer(1, k + 1)
    m.position(0, D=D)
    w = dense.vec(m)
    bd = gen.bdims(m)
    keep = np.sum(np.sort(c ** 2)[::-1][:D]) / np.sum(c ** 2)
    ctx.close(abs(np.vdot(v, w)) / np.linalg.norm(v) / np.linalg.norm(w), np.sqrt(keep), "GHZ truncated to %d of %d" % (D, k), tol=1e-8)
    ctx.check(max(bd) <= D, "bond dimensions %s exceed %d" % (bd, D))
    ctx.sig(N, k, D, "flat" if c[0] == 1 else "sorted")


def grown(ctx):
    """truncate() of states whose bonds grew past the constructed maximum (sums, gates, fresh Dmax)"""
    a, ds, va = gen.state(ctx, Dmax=3, norm="unit")
    N = len(ds)
    dt = a.dtype
    if ctx.flag():
        b, _, vb = gen.state(ctx, ds, Dmax=3, norm="unit", dt=dt)
        c = a + b
        c.position(0)
        c.position(N)
        v = va + vb
    else:
        c, v = a, va
        for _ in range(4):
            s = ctx.integer(0, N - 2)
            u = np.linalg.qr(ctx.array((ds[s] * ds[s + 1],) * 2, dt))[0]
            c.applyTwoSiteGate(u.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s, Dmax=1000)
            v = dense.apply(dense.embed2(u, s, ds), v)
    if ctx.flag(0.3):
        c.Dmax = ctx.integer(1, 3)
    D = ctx.integer(1, 8)
    th = ctx.pick(1e-16, 1e-3, 1e-1)
    spectra = [dense.schmidt(v, ds, n) for n in range(N + 1)]
    c.truncate(th, D=D)
    bd = gen.bdims(c)
    ctx.check(max(bd) <= D, "truncate(%g, D=%d) of a grown state left bonds %s" % (th, D, bd))
    if th > 1e-15:
        for n in range(1, N):
            most = int(np.sum(spectra[n] > 0.3 * th))
            if sum(np.sum(s[s <= th] ** 2) for s in spectra[1:N]) < 0.5 and D >= max(len(s) for s in spectra):
                ctx.check(bd[n] <= max(1, most), "truncate(%g, D=%d) left %d states on bond %d: %s" % (th, D, bd[n], n, spectra[n]))
    eps = sum(float(np.sum(spectra[n][bd[n]:] ** 2)) for n in range(1, N))
    if th <= 1e-15:
        ctx.check(all(bd[n] >= min(D, int(np.sum(spectra[n] > 1e-8))) for n in range(1, N)),
                  "truncate(%g, D=%d) kept %s of the coefficients %s" % (th, D, bd, spectra))
    w = dense.vec(c)
    f = np.real(np.vdot(v, w)) / np.linalg.norm(v) / np.linalg.norm(w)
    ctx.check(f ** 2 >= 1 - eps - 1e-8 or eps >= 1, "squared overlap %.10f below 1-%.3e" % (f ** 2, eps))
    ctx.sig("grown", D, th)


def list_truncation(ctx):
    """truncateMPS on plain lists of tensors"""
    style = ctx.pick("plain", "decay", "rank", "offset")
    m, ds, v = gen.state(ctx, Dmax=9, style=style, norm="unit")
    N = len(ds)
    ts = [t.copy() for t in m.tensors]
    j = min(m.pos, N - 1)
    ts[j] = np.einsum("ab,bcs->acs", m._mat, ts[j]) if m.pos < N else np.einsum("abs,bc->acs", ts[j], m._mat)
    ts[0] = ts[0] * ctx.pick(1.0, -3.0, 0.01)
    if ctx.flag():
        k = ctx.integer(0, N - 1)           # any gauge: a random basis change on one bond
        if k > 0:
            D = ts[k].shape[0]
            q = ctx.array((D, D), m.dtype) + 3 * np.eye(D)
            ts[k - 1] = np.einsum("abs,bc->acs", ts[k - 1], np.linalg.inv(q))
            ts[k] = np.einsum("ab,bcs->acs", q, ts[k])
    D = ctx.integer(1, 10)
    spectra = [dense.schmidt(v, ds, n) for n in range(N + 1)]
    lams = mf.truncateMPS(ts, D)
    what = "truncateMPS(D=%d) of bonds %s" % (D, gen.bdims(m))
    bd = [t.shape[0] for t in ts] + [ts[-1].shape[1]]
    ctx.check(len(ts) == N and len(lams) == N, what + ": %d tensors, %d spectra" % (len(ts), len(lams)))
    ctx.check(all(t.shape[2] == d for t, d in zip(ts, ds)) and all(ts[n].shape[1] == ts[n + 1].shape[0] for n in range(N - 1)), what + ": shapes")
    ctx.check(max(bd) <= D, what + ": bonds %s" % bd)
    w = dense.lvec(ts)
    ctx.close(np.linalg.norm(w), 1.0, what + ": norm", tol=1e-9)
    ctx.check(max(dense.left_iso(t) for t in ts) < 1e-9, what + ": not left orthogonal")
    eps = sum(float(np.sum(spectra[n][bd[n]:] ** 2)) for n in range(1, N))
    keep = all(bd[n] >= min(D, int(np.sum(spectra[n] > 1e-8))) for n in range(1, N))
    ctx.check(keep, what + ": kept %s of the coefficients %s" % (bd, spectra))
    f = abs(np.vdot(v, w)) / np.linalg.norm(v)
    ctx.check(f ** 2 >= 1 - eps - 1e-8 or eps >= 1, what + ": squared overlap %.10f below 1-%.3e" % (f ** 2, eps))
    if D >= max(len(s) for s in spectra):
        for n in range(1, N):
            k = min(len(lams[n - 1]), len(spectra[n]))
            ctx.close(lams[n - 1][:k], spectra[n][:k], what + ": reported Schmidt coefficients of bond %d" % n, tol=1e-8, scale=1.0)
    else:
        ctx.close(lams[0], spectra[1][:len(lams[0])] / np.linalg.norm(spectra[1][:len(lams[0])]), what + ": reported coefficients of the first bond",
                  tol=1e-8, scale=1.0)
    ctx.count("lists truncated", int(eps > 1e-12))
    ctx.sig("list", D, bd, style)


CASES = [("truncate", truncated, 700, 15000), ("single-bond", single_bond, 300, 6000), ("degenerate", degenerate, 80, 1000),
         ("grown", grown, 150, 3000), ("list", list_truncation, 250, 5000),
         ("long-truncation", long.truncation, 40, 800)]
