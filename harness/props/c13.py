"""C13: contracted model MPOs against independently built many-body matrices."""
import copy
import numpy as np
import dense, long, gen
import lib.mpslib.Hamiltonians as H

RULE = ("every model family with random site-dependent couplings (also zeros, sign changes, integers, lists and arrays), lengths 1-8 bounded by the "
        "Hilbert space, open chains and repeated periodic unit cells; reference operators from sums of embedded one- and two-site terms, for "
        "fermions from explicit occupation-number bookkeeping; a sample is distinct per model, boundary, length, kind of couplings and dtype; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["conventions of the classes as coded and used by the tests: sigma_z=diag(-1,1), S_z=diag(-1/2,1/2), fermion hopping -t, "
               "phi^4 and Lieb-Liniger functions as the second-quantised expressions their coefficients spell out",
               "finite operators of an obc=False MPO are last row ... first column of the repeated cell"]

SX = np.array([[0., 1.], [1., 0.]])
SY = np.array([[0., -1j], [1j, 0.]])
SZ = np.diag([-1., 1.])
SP = np.array([[0., 0.], [1., 0.]])
SM = SP.T
E2 = np.eye(2)


def coup(ctx, n):
    k = ctx.pick("random", "random", "random", "zeros", "int", "same", "big")
    r = ctx.rng
    if k == "random":
        v = r.uniform(-2, 2, n)
    elif k == "zeros":
        v = r.uniform(-2, 2, n) * (r.random_sample(n) < 0.5)
    elif k == "int":
        v = r.randint(-3, 4, n)
    elif k == "same":
        v = np.ones(n) * r.uniform(-2, 2)
    else:
        v = r.uniform(-1, 1, n) * 10.0 ** r.uniform(-3, 3, n)
    return list(v) if ctx.flag(0.3) else v


def total(N, d, onsite, bond):
    """sum of onsite(n) and bond(n) -> list of (A, B) products on sites n, n+1"""
    ds = [d] * N
    out = np.zeros((d ** N, d ** N), dtype=complex)
    for n in range(N):
        if onsite is not None:
            out += dense.embed(onsite(n), n, ds)
        if n < N - 1:
            h = sum(np.kron(A, B) for A, B in bond(n))
            out += dense.embed2(h, n, ds)
    return out


def annihilators(L):
    """c_j as matrices <out|c_j|in> in the occupation basis, sign = parity of the occupied modes in front of j"""
    cs = []
    for j in range(L):
        m = np.zeros((2 ** L, 2 ** L))
        for s in range(2 ** L):
            bits = [(s >> (L - 1 - i)) & 1 for i in range(L)]
            if bits[j]:
                t = s - (1 << (L - 1 - j))
                m[t, s] = -1.0 if sum(bits[:j]) % 2 else 1.0
        cs.append(m)
    return cs


def judge(ctx, build, args, want, what, herm=True, rep=1, getlist=None):
    """build(*args) -> MPO; rep>1: repeat the unit cell"""
    keep = copy.deepcopy(args)
    mpo = build(*args)
    for a, b in zip(args, keep):
        ctx.check(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b)), what + ": constructor modified its arguments")
    ts = [np.asarray(mpo[n]) for n in range(len(mpo))]
    for t in ts:
        ctx.check(t.ndim == 4 and t.shape[2] == t.shape[3], what + ": MPO tensor of shape %s" % (t.shape,))
    full = ts * rep
    M = dense.mpo_dense(full, lrow=None if full[0].shape[0] == 1 else -1, rcol=None if full[-1].shape[1] == 1 else 0)
    sc = max(1e-30, np.max(np.abs(want)))
    ctx.close(M, want, what + ": MPO is not the Hamiltonian", tol=1e-11, scale=sc)
    if herm:
        ctx.close(M, np.conj(M.T), what + ": not hermitian", tol=1e-11, scale=sc)
    again = build(*copy.deepcopy(keep))
    for n, t in enumerate(ts):
        ctx.check(np.array_equal(np.asarray(again[n]), t), what + ": two equal constructions differ")
    ctx.count("MPO tensors", len(full))
    return mpo


def tfi(ctx):
    obc = ctx.flag()
    which = ctx.pick("TFI", "TFI_2")
    N = ctx.integer(2, 8) if obc else ctx.integer(1, 4)
    rep = 1 if obc else ctx.integer(1, 2)
    J, B = coup(ctx, N - 1 if obc else N), coup(ctx, N)
    dt = ctx.pick(float, complex)
    A, Z = (SX, SZ) if which == "TFI" else (SZ, SX)
    want = total(N * rep, 2, lambda n: B[n % N] * Z, lambda n: [(J[n % N] * A, A)])
    m = judge(ctx, lambda j, b: getattr(H, which)(j, b, obc, dt), [J, B], want, "%s(obc=%s,N=%d)" % (which, obc, N), rep=rep)
    ctx.check(len(m) == N and m[0].dtype == np.dtype(dt), "%s: length or dtype" % which)
    ctx.sig(which, obc, N, rep, np.dtype(dt).name, type(J).__name__)


def xxz(ctx):
    obc = ctx.flag()
    N = ctx.integer(2, 7) if obc else ctx.integer(1, 4)
    rep = 1 if obc else ctx.integer(1, 2)
    n1 = N - 1 if obc else N
    Jz, Jxy, B = coup(ctx, n1), coup(ctx, n1), coup(ctx, N)
    dt = ctx.pick(float, complex)
    want = total(N * rep, 2, lambda n: B[n % N] * 0.5 * SZ, lambda n: [
        (Jz[n % N] * 0.25 * SZ, SZ), (Jxy[n % N] * 0.25 * SX, SX), (Jxy[n % N] * 0.25 * SY, SY)])
    m = judge(ctx, lambda a, b, c: H.XXZ(a, b, c, obc, dt), [Jz, Jxy, B], want, "XXZ(obc=%s,N=%d)" % (obc, N), rep=rep)
    ctx.check(len(m) == N and m[0].dtype == np.dtype(dt), "XXZ: length or dtype")
    ctx.sig("XXZ", obc, N, rep, np.dtype(dt).name, type(Jz).__name__)


def xxzflipped(ctx):
    obc = ctx.flag()
    N = ctx.integer(2, 7) if obc else ctx.integer(1, 4)
    rep = 1 if obc else ctx.integer(1, 2)
    n1 = N - 1 if obc else N
    De, J = coup(ctx, n1), coup(ctx, n1)
    want = total(N * rep, 2, None, lambda n: [
        (J[n % N] * SX, SX), (-J[n % N] * SY, SY), (-De[n % N] * J[n % N] * SZ, SZ)])
    m = judge(ctx, (lambda a, b: H.XXZflipped(a, b, obc)) if ctx.flag() else (lambda a, b: H.XXZflipped(a, b, obc, complex)),
              [De, J], want, "XXZflipped(obc=%s,N=%d)" % (obc, N), rep=rep)
    ctx.check(len(m) == N, "XXZflipped: length")
    ctx.sig("XXZflipped", obc, N, rep)


def jess(ctx):
    obc = ctx.flag()
    N = ctx.integer(2, 4) if obc else ctx.integer(1, 3)
    rep = 1 if obc else ctx.integer(1, 2 if N < 3 else 1)
    J, w, chi = coup(ctx, N - 1 if obc else N), coup(ctx, N), coup(ctx, N)
    z = np.diag([1., -1.])
    S = [np.kron(x, E2) for x in (SX, SY, z)]
    T = [np.kron(E2, x) for x in (SX, SY, z)]
    want = total(N * rep, 4, lambda n: w[n % N] * (S[0] + T[0]) + chi[n % N] * np.kron(SX, SX),
                 lambda n: [(J[n % N] * x, x) for x in S + T])
    judge(ctx, lambda a, b, c: H.JessHamiltonian(a, b, c, obc), [J, w, chi], want, "JessHamiltonian(obc=%s,N=%d)" % (obc, N), rep=rep)
    ctx.sig("Jess", obc, N, rep)


def fermions(ctx):
    obc = ctx.flag()
    N = ctx.integer(2, 7) if obc else ctx.integer(1, 4)
    rep = 1 if obc else ctx.integer(1, 2)
    n1 = N - 1 if obc else N
    V, t, mu = coup(ctx, n1), coup(ctx, n1), coup(ctx, N)
    L = N * rep
    c = annihilators(L)
    nn = [x.T @ x for x in c]
    want = sum(mu[n % N] * nn[n] for n in range(L))
    for n in range(L - 1):
        want = want - t[n % N] * (c[n].T @ c[n + 1] + c[n + 1].T @ c[n]) + V[n % N] * nn[n] @ nn[n + 1]
    dt = ctx.pick(float, complex)
    m = judge(ctx, lambda a, b, d: H.SpinlessFermions(a, b, d, obc, dt), [V, t, mu], want,
              "SpinlessFermions(obc=%s,N=%d)" % (obc, N), rep=rep)
    ctx.check(len(m) == N and m[0].dtype == np.dtype(dt), "SpinlessFermions: length or dtype")
    ctx.sig("SpinlessFermions", obc, N, rep, np.dtype(dt).name)


def hubbard(ctx):
    obc = ctx.flag()
    N = ctx.integer(2, 4) if obc else ctx.integer(1, 3)
    rep = 1 if obc else ctx.integer(1, 2 if N < 3 else 1)
    n1 = N - 1 if obc else N
    U, tu, td, mu, md = coup(ctx, N), coup(ctx, n1), coup(ctx, n1), coup(ctx, N), coup(ctx, N)
    L = N * rep
    c = annihilators(2 * L)
    dn, up = c[0::2], c[1::2]
    want = np.zeros((4 ** L, 4 ** L))
    for n in range(L):
        nu, nd = up[n].T @ up[n], dn[n].T @ dn[n]
        want += mu[n % N] * nu + md[n % N] * nd + U[n % N] * nu @ nd
        if n < L - 1:
            want -= tu[n % N] * (up[n].T @ up[n + 1] + up[n + 1].T @ up[n])
            want -= td[n % N] * (dn[n].T @ dn[n + 1] + dn[n + 1].T @ dn[n])
    dt = ctx.pick(float, complex)
    judge(ctx, lambda a, b, c_, d, e: H.HubbardChain(a, b, c_, d, e, obc, dt), [U, tu, td, mu, md], want,
          "HubbardChain(obc=%s,N=%d)" % (obc, N), rep=rep)
    ctx.sig("Hubbard", obc, N, rep, np.dtype(dt).name)


def bose(k):
    c = np.diag(np.sqrt(np.arange(1.0, k)), 1)
    return c, c.T, c.T @ c


def mp(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = out @ x
    return out


def phi4(ctx):
    k = ctx.integer(2, 5)
    which = ctx.pick("PhiFourmpo", "PhiFourmpo2", "PhiFourmpo3", "PhiFourmpo4", "TwoSitePhiFourMPO")
    N = 2 if which.startswith("Two") else ctx.integer(2, 4 if k < 4 else 3)
    obc = ctx.flag()
    mu, nu, g, dx = ctx.rng.uniform(0.2, 2), ctx.rng.uniform(0.3, 2), ctx.rng.uniform(-1, 2), ctx.rng.uniform(0.1, 1.5)
    c, a, n = bose(k)
    phi4n = mp(a, a, a, a) + 4 * mp(a, a, a, c) + 6 * mp(a, a, c, c) + 4 * mp(a, c, c, c) + mp(c, c, c, c)
    q = c @ c + a @ a
    I = np.eye(k)
    if which == "PhiFourmpo":
        t, e, s, G = 1 / (2 * nu * dx ** 2), (mu ** 2 + nu ** 2) / (8 * nu) + 1 / (2 * nu * dx ** 2), (mu ** 2 - nu ** 2) / (16 * nu), g / (96 * nu ** 2 * dx)
    else:
        t, e, s, G = 1 / dx ** 2, (mu ** 2 + nu ** 2) / 4 + 1 / dx ** 2, (mu ** 2 - nu ** 2) / 8, g / (96 * nu * dx)
    hop = [(-t * c, a), (-t * a, c)]
    if which in ("PhiFourmpo", "PhiFourmpo2"):
        on = lambda m: G * phi4n
        bond = lambda m: hop + [(e * n, I), (e * I, n), (s * q, I), (s * I, q)]
    elif which == "PhiFourmpo3":
        on = lambda m: (mu ** 2 + nu ** 2) / 2 * n + (mu ** 2 - nu ** 2) / 4 * q + G * phi4n
        bond = lambda m: hop + [(n / dx ** 2, I), (I / dx ** 2, n)]
    elif which == "PhiFourmpo4":
        on = lambda m: ((mu ** 2 + nu ** 2) / 2 + 2 / dx ** 2) * n + (mu ** 2 - nu ** 2) / 4 * q + G * phi4n
        bond = lambda m: hop
    else:
        on = lambda m: (((mu ** 2 + nu ** 2) / 2 + 2 / dx ** 2) * n + (mu ** 2 - nu ** 2) / 4 * q + G * phi4n) / 2
        bond = lambda m: hop
    want = total(N, k, on, bond)
    if which.startswith("Two"):
        f = lambda *x: H.TwoSitePhiFourMPO(*x)
        args = [mu, nu, g, dx, k]
    else:
        f = lambda *x: getattr(H, which)(*x, obc=obc)
        args = [mu, nu, g, N, dx, k]
    judge(ctx, f, args, want, "%s(N=%d,obc=%s)" % (which, N, obc))
    ctx.sig(which, N, obc, k)


def liebliniger(ctx):
    which = ctx.pick("LiebLinigermpo", "LiebLinigermpo1", "LiebLinigermpo2", "LiebLinigermpo3", "LocalLiebLinigermpo", "LiebLinigerEdens",
                     "HomogeneousLiebLinigermpo", "projectedLiebLinigermpo", "projectedLiebLinigermpo2", "projectedLiebLinigermpo3",
                     "UnitcellExLiebLinigermpo", "projectedUnitcellExLiebLinigermpo")
    k = ctx.integer(2, 5)
    N = ctx.integer(2, 4 if k < 4 else 3)
    g, m, dx = ctx.rng.uniform(-1, 2), ctx.rng.uniform(0.3, 2), ctx.rng.uniform(0.1, 1.5)
    mu0 = ctx.rng.uniform(-2, 2)
    c, a, n = bose(k)
    I = np.eye(k)
    t = 1 / (2 * m * dx ** 2)
    hop = [(-t * c, a), (-t * a, c)]
    inter = mp(a, a, c, c)
    obc = True
    if which == "LiebLinigermpo":
        args = [mu0, g, m, N, dx, k]
        want = total(N, k, lambda j: (mu0 + 2 * t) * n + g / dx * inter, lambda j: hop)
    elif which == "LiebLinigermpo1":
        args = [mu0, g, m, N, dx, k]
        want = total(N, k, lambda j: g / dx * inter, lambda j: hop + [((mu0 / 2 + t) * n, I), ((mu0 / 2 + t) * I, n)])
    elif which == "LiebLinigermpo2":
        args = [mu0, g, m, N, dx, k]
        want = total(N, k, None, lambda j: hop + [((mu0 / 2 + t) * n, I), ((mu0 / 2 + t) * I, n), (g / dx * n, n)])
    elif which == "LiebLinigermpo3":
        args = [mu0, g, m, N, dx, k]
        want = total(N, k, lambda j: mu0 * n, lambda j: hop + [(t * n, I), (t * I, n), (g / dx * n, n)])
    elif which == "LocalLiebLinigermpo":
        N = 2
        mu = coup(ctx, 2)
        args = [mu, g, m, dx, k]
        want = total(2, k, lambda j: (mu[j] / 2.0 + t) * n + g / (2 * dx) * inter, lambda j: hop)
    elif which == "LiebLinigerEdens":
        k = ctx.integer(2, 3)
        c, a, n = bose(k)
        inter = mp(a, a, c, c)
        N = ctx.integer(4, 6)
        s = ctx.integer(2, N - 2)
        args = [coup(ctx, N), g, m, dx, k, N, s]
        want = total(N, k, lambda j: (1 / (m * dx ** 2) * n + g / dx * inter) * (j == s),
                     lambda j: [(-t * c, a)] if j == s - 1 else [(-t * a, c)] if j == s else [(0 * c, c)])
        judge(ctx, H.LiebLinigerEdens, args, want, "LiebLinigerEdens(N=%d,site=%d)" % (N, s), herm=False)
        ctx.sig(which, N, s, k)
        return
    elif which == "HomogeneousLiebLinigermpo":
        c, a, n = bose(2)
        P = np.eye(2) - n
        t = 1 / (2 * m)
        N = 3
        args = [g, m]
        want = total(3, 2, None, lambda j: [(-t * c, a), (-t * a, c), (t * P, n), (t * n, P), (g * n, n)])
    elif which in ("projectedLiebLinigermpo", "projectedLiebLinigermpo3"):
        c, a, n = bose(2)
        P = np.eye(2) - n
        N = ctx.integer(2, 6)
        mu = coup(ctx, N)
        obc = ctx.flag()
        if which.endswith("3"):
            dxs = ctx.rng.uniform(0.2, 1.5, N)
            args = [mu, g, m, dxs, obc]
            rep = 1 if obc else ctx.integer(1, 2 if N < 5 else 1)

            def bond(j):
                x, y = dxs[j % N], dxs[(j + 1) % N]
                b = (x + y) / 2
                T = 1 / (2 * m * b)
                M0, M1 = mu[j % N] / 2.0, mu[(j + 1) % N] / 2.0
                return [(T * n / x, P), (T * P, n / y), (-T * c / np.sqrt(x), a / np.sqrt(y)), (-T * a / np.sqrt(x), c / np.sqrt(y)),
                        (g * b * n / x, n / y), (M0 * n, np.eye(2)), (np.eye(2), M1 * n)]
            want = total(N * rep, 2, None, bond)
            judge(ctx, H.projectedLiebLinigermpo3, args, want, "%s(N=%d,obc=%s)" % (which, N, obc), rep=rep)
            ctx.sig(which, N, obc, rep)
            return
        args = [mu, g, m, N, dx, obc]
        want = total(N, 2, lambda j: mu[j] * n * (0.5 if obc and j in (0, N - 1) else 1.0),
                     lambda j: [(t * n, P), (t * P, n), (-t * c, a), (-t * a, c), (g / dx * n, n)])
        judge(ctx, H.projectedLiebLinigermpo, args, want, "%s(N=%d,obc=%s)" % (which, N, obc))
        ctx.sig(which, N, obc)
        return
    elif which == "projectedLiebLinigermpo2":
        mu = coup(ctx, N)
        P = np.zeros((k, k))
        P[0, 0] = 1.0
        args = [mu, g, m, N, k, dx, True]
        want = total(N, k, lambda j: mu[j] * n + g / dx * inter, lambda j: hop + [(t * n, P), (t * P, n)])
    else:
        proj = which.startswith("proj")
        N = ctx.integer(2, 4)
        k = 2 if proj or N > 2 else ctx.integer(2, 3)
        c, a, n = bose(k)
        inter = mp(a, a, c, c)
        P = np.eye(k) - n
        mu = coup(ctx, N)
        if proj:
            args = [mu, g, m, N, dx]
            want = total(2 * N, 2, lambda j: mu[j % N] * n, lambda j: [(-t * c, a), (-t * a, c), (t * n, P), (t * P, n), (g / dx * n, n)])
        else:
            args = [mu, g, m, N, dx, k]
            # half weights inside the cells, full weight on the bond that joins them
            w = lambda j: t if j == N - 1 else t / 2
            want = total(2 * N, k, lambda j: (mu[j % N] / 2.0 + t) * n + g / (2 * dx) * inter, lambda j: [(-w(j) * c, a), (-w(j) * a, c)])

        def build(*x):
            l, r = getattr(H, which)(*x)
            return list(l) + list(r)
        judge(ctx, build, args, want, "%s(N=%d)" % (which, N))
        ctx.sig(which, N, k)
        return
    judge(ctx, getattr(H, which), args, want, "%s(N=%d)" % (which, N))
    ctx.sig(which, N, k)


def interface(ctx):
    """the MPO container: construction from lists decouples, indexing, length"""
    N = ctx.integer(2, 5)
    ts = [ctx.array((1 if n == 0 else 2, 1 if n == N - 1 else 2, 2, 2), gen.dtype(ctx)) for n in range(N)]
    keep = [t.copy() for t in ts]
    how = ctx.pick("init", "fromlist", "fromMPO")
    m = {"init": lambda: H.MPO(ts), "fromlist": lambda: H.MPO.fromlist(ts), "fromMPO": lambda: H.MPO.fromMPO(H.MPO(ts))}[how]()
    ctx.check(len(m) == N, how + ": length")
    M = dense.mpo_dense(m)
    ctx.close(M, dense.mpo_dense(keep), how + ": not the operator of the list", tol=1e-13)
    ts[0][...] = 7.0
    ctx.close(dense.mpo_dense(m), M, how + ": changing the caller's tensor changed the MPO", tol=1e-13)
    src = H.MPO(keep)
    cp = H.MPO.fromMPO(src)
    i = ctx.integer(0, N - 1)
    new = ctx.array(keep[i].shape)
    cp[i] = new
    ctx.check(np.array_equal(cp[i], new), "assignment to an MPO tensor")
    ctx.close(dense.mpo_dense(src), M, "assignment to a copy changed the source", tol=1e-13)
    x = H.TFI([1.0] * 3, [0.5] * 4, True)
    y = H.TFI([1.0] * 3, [0.5] * 4, True)
    x[1] = np.zeros((3, 3, 2, 2))
    ctx.check(np.any(y[1] != 0), "MPO objects share their tensors")
    ctx.sig(how, N)


CASES = [("tfi", tfi, 400, 4000), ("xxz", xxz, 400, 4000), ("xxzflipped", xxzflipped, 300, 3000), ("jess", jess, 150, 1500),
         ("fermions", fermions, 400, 4000), ("hubbard", hubbard, 200, 2000), ("phi4", phi4, 400, 4000),
         ("liebliniger", liebliniger, 800, 8000), ("interface", interface, 100, 1000),
         ("long-models", long.models, 40, 800)]
