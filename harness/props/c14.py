"""C14: two-site gates of nearest-neighbour MPOs against dense exponentials of bond operators."""
import copy
import numpy as np
import dense, long, gen
import lib.mpslib.Hamiltonians as H
from props import c13

RULE = ("all open-boundary nearest-neighbour models and random nearest-neighbour MPOs (mixed local dimensions, several coupling terms, hermitian or "
        "not), chains of 2-7 sites, every bond, real/imaginary/complex tau of either sign; distinct per model, length, bond and kind of tau; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["the bond operator of twoSiteGate shares every on-site term equally between its two bonds and gives it entirely to the only bond at a chain end"]


def model(ctx, N=None):
    k = ctx.pick("TFI", "TFI_2", "XXZ", "XXZflipped", "Jess", "Fermi", "Hubbard", "random", "random")
    N = N or ctx.integer(2, 7)
    co = lambda n: np.asarray(c13.coup(ctx, n), dtype=float)
    dt = ctx.pick(float, complex)
    if k == "TFI":
        return k, H.TFI(co(N - 1), co(N), True, dt), [2] * N, True
    if k == "TFI_2":
        return k, H.TFI_2(co(N - 1), co(N), True, dt), [2] * N, True
    if k == "XXZ":
        return k, H.XXZ(co(N - 1), co(N - 1), co(N), True, dt), [2] * N, True
    if k == "XXZflipped":
        return k, H.XXZflipped(co(N - 1), co(N - 1), True), [2] * N, True
    if k == "Fermi":
        return k, H.SpinlessFermions(co(N - 1), co(N - 1), co(N), True, dt), [2] * N, True
    if k == "Jess":
        N = min(N, 4)
        return k, H.JessHamiltonian(co(N - 1), co(N), co(N), True), [4] * N, True
    if k == "Hubbard":
        N = min(N, 4)
        return k, H.HubbardChain(co(N), co(N - 1), co(N - 1), co(N), co(N), True, dt), [4] * N, True
    N = min(N, 5)
    ds = gen.dims(ctx, N=N, maxdim=200)
    herm = ctx.flag(0.7)
    K = ctx.integer(1, 3)
    ts, hs = [], []
    for n, d in enumerate(ds):
        op = (lambda: ctx.herm(d, dt)) if herm else (lambda: ctx.array((d, d), dt))
        t = np.zeros((K + 2, K + 2, d, d), dtype=dt)
        t[0, 0] = t[-1, -1] = np.eye(d)
        t[-1, 0] = op()
        for s in range(K):
            t[-1, s + 1] = op()
            t[s + 1, 0] = op()
        if n == 0:
            t = t[-1:]
        if n == N - 1:
            t = t[:, :1]
        ts.append(t)
    return k, H.MPO(ts), ds, herm


def bond(mpo, n, ds):
    """h_{n,n+1} from the MPO tensors, on-site terms halved inside the chain"""
    N = len(ds)
    a, b = np.asarray(mpo[n])[-1], np.asarray(mpo[n + 1])[:, 0]
    h = np.zeros((ds[n] * ds[n + 1],) * 2, dtype=complex)
    for s in range(a.shape[0]):
        w = 1.0
        if s == 0 and n > 0:
            w = 0.5
        if s == a.shape[0] - 1 and n + 1 < N - 1:
            w = 0.5
        h += w * np.kron(a[s], b[s])
    return h


def gates(ctx):
    k, mpo, ds, herm = model(ctx)
    N = len(ds)
    keep = [np.array(mpo[n]) for n in range(N)]
    hs = [bond(mpo, n, ds) for n in range(N - 1)]
    tot = sum(dense.embed2(h, n, ds) for n, h in enumerate(hs))
    full = dense.mpo_dense(mpo)
    sc = max(1e-30, np.max(np.abs(full)))
    assert np.max(np.abs(tot - full)) <= 1e-10 * sc            # oracle self-check
    got = np.zeros_like(full, dtype=complex)
    for n in ctx.rng.permutation(N - 1):
        n = int(n)
        d1, d2 = ds[n], ds[n + 1]
        h = hs[n]
        nh = max(np.linalg.norm(h, 2), 1e-12)
        kind = ctx.pick("re", "im", "cplx", "zero")
        tau = ctx.rng.uniform(0.05, 2.0) / nh * ctx.pick(1, -1)
        tau = {"re": tau, "im": 1j * tau, "cplx": tau * np.exp(1j * ctx.rng.uniform(0, 6)), "zero": 0.0}[kind]
        g = mpo.twoSiteGate(n, n + 1, tau)
        what = "%s N=%d twoSiteGate(%d,%d,%s tau)" % (k, N, n, n + 1, kind)
        ctx.check(np.shape(g) == (d1, d2, d1, d2), what + ": shape %s" % (np.shape(g),))
        G = np.reshape(g, (d1 * d2, d1 * d2))
        ctx.close(G, dense.expm(tau * h), what + " is not exp(tau*h)", tol=1e-10)
        if herm and kind == "im":
            ctx.close(G @ G.conj().T, np.eye(d1 * d2), what + " is not unitary", tol=1e-10)
        b = np.reshape(mpo.twoSiteGate(n, n + 1, -tau), G.shape)
        ctx.close(G @ b, np.eye(d1 * d2), what + ": forward and backward do not cancel", tol=1e-9)
        t2 = tau * ctx.rng.uniform(-1, 1)
        c = np.reshape(mpo.twoSiteGate(n, n + 1, t2), G.shape)
        s = np.reshape(mpo.twoSiteGate(n, n + 1, tau + t2), G.shape)
        ctx.close(G @ c, s, what + ": steps do not compose", tol=1e-9)
        if d1 == d2:
            r = mpo.twoSiteGate(n + 1, n, tau)
            e1 = np.max(np.abs(r - g))
            e2 = np.max(np.abs(r - g.transpose(1, 0, 3, 2)))
            ctx.check(min(e1, e2) <= 1e-10 * np.max(np.abs(g)), what + ": gate with exchanged sites differs")
        # the generator recovered from the gates themselves
        if herm:
            t = 0.7 / nh
            e, u = np.linalg.eigh(np.reshape(mpo.twoSiteGate(n, n + 1, t), G.shape))
            ctx.check(np.min(e) > 0, what + ": gate with real tau is not positive")
            got += dense.embed2((u * np.log(e)) @ u.conj().T / t, n, ds)
        ctx.count("gates", 4)
        ctx.sig(k, N, n, kind, herm)
    if herm:
        ctx.close(got, full, "%s N=%d: bond generators do not sum to the Hamiltonian" % (k, N), tol=1e-9, scale=sc)
    for n in range(N):
        ctx.check(np.array_equal(mpo[n], keep[n]), "twoSiteGate changed MPO tensor %d" % n)


CASES = [("gates", gates, 1000, 10000),
         ("long-bonds", long.bonds, 40, 800)]
