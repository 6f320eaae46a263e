"""C24: bit operations, basis enumeration, Wick contractions and scalar helpers against exact arithmetic and Fock space."""
import itertools, math
import numpy as np
import lib.utils.binaryoperations as bo
import lib.utils.utilities as ut

RULE = ("random and extreme 64-bit integers at all 64 positions, all (N,Nup) up to 14 sites and sparse/dense fillings up to 64 sites, random complex "
        "correlation matrices with arbitrary (repeated) indices, exact Gaussian states in Fock space, random grids, sign-changing and periodic functions, polynomials, unitary bases with random phases and orders")
ASSUMPTIONS = ["operator order in the Wick sums is <c+ ... c+ c ... c> in the order of the two index lists"]


def c_bits(ctx):
    kind = ctx.pick("random", "zero", "ones", "single", "low")
    b = {"random": int(ctx.rng.randint(0, 2 ** 32, dtype=np.int64)) << 32 | int(ctx.rng.randint(0, 2 ** 32, dtype=np.int64)), "zero": 0, "ones": 2 ** 64 - 1,
         "single": 1 << ctx.integer(0, 63), "low": ctx.integer(0, 255)}[kind]
    ctx.sig(kind, b if kind in ("zero", "ones", "low", "single") else "")
    for pos in range(64):
        x = np.uint64(b)
        p = ctx.pick(pos, np.uint64(pos), np.int64(pos), np.int32(pos))
        tag = "bit %d of %s" % (pos, hex(b))
        one = 1 << pos
        for fn, want in ((bo.flipBit, b ^ one), (bo.setBit, b | one), (bo.unsetBit, b & ~one)):
            y = fn(x, p)
            ctx.check(int(y) == want and isinstance(y, np.uint64), "%s %s: %r (%s)" % (fn.__name__, tag, y, type(y).__name__))
        g = bo.getBit(x, p)
        ctx.check(g == (b >> pos) & 1 and isinstance(g, int), "getBit %s: %r" % (tag, g))
        ctx.check(int(bo.flipBit(bo.flipBit(x, p), p)) == b, "flipBit twice " + tag)
        ctx.count("bit operations", 4)


SPARSE = [(N, k) for N in range(15, 65) for k in (0, 1, 2)] + [(N, N) for N in range(15, 65)] + [(N, N - 1) for N in range(15, 65)] + [(20, 3), (40, 3), (60, 3), (64, 3), (56, 4)]


def c_basis(ctx):
    i = ctx.idx
    small = [(N, k) for N in range(0, 15) for k in range(0, N + 2)]
    N, k = small[i] if i < len(small) else SPARSE[(i - len(small)) % len(SPARSE)]
    ctx.sig(N, k)
    if math.comb(N, k) > 60000:
        N, k = N, 2
    s = bo.binarybasis(N, k)
    tag = "binarybasis(%d,%d)" % (N, k)
    ctx.check(len(s) == math.comb(N, k), tag + ": %d states, expected %d" % (len(s), math.comb(N, k)))
    v = [int(x) for x in s]
    ctx.check(len(set(v)) == len(v), tag + ": repeated states")
    ctx.check(all(0 <= x < 2 ** N for x in v), tag + ": bits outside the system")
    ctx.check(all(bin(x).count("1") == k for x in v), tag + ": wrong number of set bits")
    ctx.check(all(isinstance(x, np.uint64) for x in s), tag + ": states are not 64-bit integers")
    for x in s[:20]:
        ctx.check(sum(bo.getBit(x, p) for p in range(64)) == k, tag + ": bits read back")
    ctx.count("basis states", len(v))


def permanent(M):
    n = len(M)
    return sum(np.prod([M[i, p[i]] for i in range(n)]) for p in itertools.permutations(range(n)))


def c_wick(ctx):
    L, n = ctx.integer(1, 7), ctx.integer(1, 5)
    M = ctx.array((L, L), ctx.pick(float, complex))
    rep = ctx.flag(0.3) or n > L
    draw = lambda: ctx.rng.randint(0, L, n) if rep else ctx.rng.permutation(L)[:n]
    i, j = draw(), draw()
    as_ = ctx.pick(list, np.array, tuple)
    a, b = as_([int(x) for x in i]), as_([int(x) for x in j])
    ctx.sig(L, n, M.dtype.name, "repeated" if rep else "distinct", as_.__name__)
    keep = M.copy(), list(a), list(b)
    sub = M[np.ix_(i, j)]
    sgn = (-1) ** (n * (n - 1) // 2)
    ctx.close(np.asarray(ut.SFwick(M, a, b)), sgn * np.linalg.det(sub), "SFwick of %d operators %s %s" % (n, list(i), list(j)), tol=1e-9, scale=np.max(np.abs(sub)) ** n)
    ctx.close(np.asarray(ut.SBwick(M, a, b)), permanent(sub), "SBwick of %d operators %s %s" % (n, list(i), list(j)), tol=1e-9, scale=np.max(np.abs(sub)) ** n)
    ctx.check(np.array_equal(keep[0], M) and keep[1] == list(a) and keep[2] == list(b), "Wick: arguments changed")
    perm = ctx.rng.permutation(n)
    par = np.linalg.det(np.eye(n)[perm])
    ctx.close(np.asarray(ut.SFwick(M, [int(a[p]) for p in perm], list(b))), par * np.asarray(ut.SFwick(M, list(a), list(b))), "SFwick: exchange of operators", tol=1e-9,
              scale=np.max(np.abs(sub)) ** n)


def c_fock(ctx):
    """a random Gaussian state of fermions in Fock space"""
    L = ctx.integer(2, 4)
    a = np.array([[0.0, 1.0], [0.0, 0.0]])
    P = np.diag([1.0, -1.0])
    c = []
    for n in range(L):
        o = np.eye(1)
        for m in range(L):
            o = np.kron(o, P if m < n else a if m == n else np.eye(2))
        c.append(o)
    h = ctx.herm(L, ctx.pick(float, complex))
    Hm = sum(h[i, j] * c[i].T @ c[j] for i in range(L) for j in range(L))
    e, U = np.linalg.eigh(Hm)
    w = np.exp(-(e - e[0]) * ctx.rng.uniform(0.2, 3.0))
    rho = (U * (w / w.sum())) @ U.conj().T
    M = np.array([[np.trace(rho @ c[i].T @ c[j]) for j in range(L)] for i in range(L)])
    n = ctx.integer(1, L)
    i, j = [int(x) for x in ctx.rng.permutation(L)[:n]], [int(x) for x in ctx.rng.permutation(L)[:n]]
    X = rho
    for k in i:
        X = X @ c[k].T
    for k in j:
        X = X @ c[k]
    ctx.sig(L, n, h.dtype.name)
    ctx.close(np.asarray(ut.SFwick(M, i, j)), np.trace(X), "SFwick of a Gaussian state, operators %s %s" % (i, j), tol=1e-10, scale=1.0)
    ctx.count("Gaussian states")


def c_scalar(ctx):
    # root finding
    r = ctx.rng.uniform(-2, 2)
    k = ctx.pick("linear", "cubic", "tanh", "exp")
    s = ctx.pick(-1.0, 1.0)
    f = {"linear": lambda x: s * (x - r), "cubic": lambda x: s * ((x - r) ** 3 + (x - r)), "tanh": lambda x: s * np.tanh(x - r), "exp": lambda x: s * (np.exp(x) - np.exp(r))}[k]
    lo, hi = r - ctx.rng.uniform(0.1, 3), r + ctx.rng.uniform(0.1, 3)
    tol = ctx.pick(1e-6, 1e-10)
    ctx.sig(k, s, tol)
    x = ut.bisection(f, lo, hi, tol=tol)
    ctx.check(abs(x - r) <= 2 * tol, "bisection: root %r, expected %r" % (x, r))
    ctx.check(ut.bisection(f, lo, r) == r or f(r) != 0.0, "bisection: root at the upper end")
    a0 = r + ctx.rng.uniform(0.05, 0.5)
    d = ctx.rng.uniform(0.01, 0.2)
    a, b, ok = ut.placeBraket(f, a0, a0 + 0.1, d, 5.0)
    ctx.check(ok and a <= r <= b and np.sign(f(a)) != np.sign(f(b)), "placeBraket: [%r,%r] does not bracket %r" % (a, b, r))
    far = ctx.rng.uniform(1.0, 3.0)
    q0, q1 = r + far, r + far + 0.1
    lim = ctx.rng.uniform(0.2, far - 0.3)
    a, b, ok = ut.placeBraket(f, q0, q1, d, lim)
    ctx.check(not ok and lim < q0 - a <= lim + d * 1.001 and lim < b - q1 <= lim + d * 1.001, "placeBraket: gave up (%r) at [%r,%r], limit %r, step %r" % (ok, a, b, lim, d))
    # Voronoi cells of a grid
    n = ctx.integer(2, 12)
    g = np.sort(ctx.rng.uniform(0.0, 1.0, n))
    x0, xN = g[0] - ctx.pick(0.0, g[0], ctx.rng.uniform(0, 2)), g[-1] + ctx.rng.uniform(0, 0.3)
    dx = ut.computedx(x0, g, xN)
    edges = np.concatenate([[x0], (g[1:] + g[:-1]) / 2, [xN]])
    ctx.close(dx, np.diff(edges), "computedx", tol=1e-12, scale=1.0)
    # diagonality
    D = ctx.integer(1, 5)
    m = np.diag(ctx.array((D,), complex))
    u = np.diag(np.exp(1j * ctx.rng.uniform(0, 6, D)))
    e = 10.0 ** ctx.rng.uniform(-12, -3)
    p = np.zeros((D, D))
    if D > 1:
        p[0, 1] = e
    for err in (1e-8, 1e-5):
        want = D == 1 or e < err
        if 0.9 < e / err < 1.1:
            continue
        ctx.check(bool(ut.isDiag(m + p, err)[0]) == want, "isDiag with off-diagonal %.1e, threshold %.1e" % (e, err))
        ctx.check(bool(ut.isDiagUnitary(u + p, err)[0]) == want, "isDiagUnitary with off-diagonal %.1e, threshold %.1e" % (e, err))


def c_steps(ctx):
    """step-size control of the gradient engine along a history of gradient norms"""
    n = ctx.integer(1, 4)
    nx = None if ctx.flag(0.15) else sorted((10.0 ** ctx.rng.uniform(-6, 0, n)).tolist(), reverse=True)
    alphas = ctx.rng.uniform(0.01, 1.0, n).tolist()
    alpha, factor, tol = ctx.rng.uniform(0.01, 1.0), ctx.pick(2.0, 1.5, 10.0), ctx.pick(0.0, 0.1, 1.0)
    itreset = ctx.integer(1, 4)
    warm = nx is None or ctx.flag(0.8)
    st = dict(alpha_=alpha, rescaledepth=0, itPerDepth=0, reset=True, warmup=warm)
    old, norm = 10.0, 10.0 ** ctx.rng.uniform(-1, 0)
    up = down = False
    for it in range(1, ctx.integer(3, 25)):
        growth = (norm - old) / norm
        before = dict(st)
        out = ut.determineNewStepsize(alpha=alpha, alphas=list(alphas), nxdots=None if nx is None else list(nx), normxopt=norm, normxoptold=old, normtol=tol,
                                      it=it, factor=factor, itreset=itreset, **st)
        a, depth, per, reset, reject, w = out
        want = growth > tol and it > 1
        ctx.check(bool(reject) == want, "step rejected: %r, gradient norm %r after %r (tolerance %r, step %d)" % (reject, norm, old, tol, it))
        d0 = before["rescaledepth"]
        if want:
            up = True
            ctx.check(depth == d0 + 1, "depth %r after a rejected step at depth %r" % (depth, d0))
            ctx.close(a, before["alpha_"] / factor, "step size after a rejected step", tol=1e-12)
            ctx.check(w == before["warmup"], "warm-up ended by a rejected step")
            count, wreset = 0, False
        else:
            if before["reset"]:
                down = down or d0 > 0
                wd = max(0, d0 - 1)
                ctx.check(depth == wd, "depth %r after recovering at depth %r" % (depth, d0))
                w0 = before["warmup"] and (nx is None or norm >= nx[0])
                ctx.check(bool(w) == w0, "warm-up %r, gradient norm %r, first threshold %r" % (w, norm, nx and nx[0]))
                if nx is None or norm >= nx[0]:
                    base = alpha
                else:
                    base = alphas[max(k for k in range(n) if norm < nx[k])]
                ctx.close(a, base / factor ** wd, "step size at gradient norm %r, thresholds %r, depth %d" % (norm, nx, wd), tol=1e-12)
                wreset = True
                count = 0
                if wd > 0:
                    count = 1
                    wreset = 1 % itreset == 0
            else:
                ctx.check(depth == d0 and a == before["alpha_"] and w == before["warmup"], "step parameters changed while waiting at a depth")
                count = before["itPerDepth"] + 1
                wreset = count % itreset == 0
        ctx.check(per == count, "%r steps counted at this depth, expected %r" % (per, count))
        ctx.check(bool(reset) == wreset, "reset flag %r, expected %r" % (reset, wreset))
        st = dict(alpha_=a, rescaledepth=depth, itPerDepth=per, reset=bool(reset), warmup=bool(w))
        if not reject:
            old = norm
        norm = old * 10.0 ** ctx.rng.uniform(-1.0, 0.3)
        if nx is not None and ctx.flag(0.05):
            norm = ctx.pick(*nx)
    ctx.sig(n, nx is None, itreset, tol, warm, up, down)


def c_cg(ctx):
    """weight of the previous direction in the non-linear conjugate-gradient scheme"""
    lo = 10.0 ** ctx.rng.uniform(-8, -5)
    hi = None if ctx.flag(0.1) else 10.0 ** ctx.rng.uniform(-3, 0)
    tol = ctx.pick(0.0, 0.1, -0.1)
    every, wait = ctx.integer(1, 5), ctx.integer(1, 3)
    itstde, itbeta, sd, m1, m2 = 0, 0, True, False, False
    old, norm = 1.0, 10.0 ** ctx.rng.uniform(-2, 0)
    kinds = set()
    for it in range(1, ctx.integer(4, 30)):
        b, i2, ib2, sd2, m1, m2 = ut.determineNonLinearCGBeta(hi, lo, tol, every, norm, old, it, itstde, wait, sd, itbeta, m1, m2)
        if hi is None or not lo < norm < hi:
            kinds.add("outside")
            ctx.check(b == 0.0 and (i2, ib2, sd2) == (itstde, itbeta, sd), "outside the window: weight %r" % b)
        else:
            fr = norm ** 2 / old ** 2
            live = it > 1 and (norm - old) / norm <= tol and fr <= 1.0
            if not live:
                want, ws, wi = 0.0, True, itstde + 1
            elif sd and itstde < wait:
                want, ws, wi = 0.0, True, itstde + 1
            else:
                want, ws, wi = fr, False, (0 if sd else itstde)
            if itbeta == every:
                want, ws, wi = 0.0, True, 0
            ctx.close(b, want, "conjugate-gradient weight at norms %r -> %r" % (old, norm), tol=1e-12)
            ctx.check(bool(sd2) == ws and i2 == wi, "steepest-descent counter %r/%r, expected %r/%r" % (sd2, i2, ws, wi))
            wb = 0 if want == 0.0 else itbeta + 1
            ctx.check(ib2 == wb, "%r conjugate steps counted, expected %r" % (ib2, wb))
            kinds.add("zero" if want == 0.0 else "conjugate")
        itstde, itbeta, sd = i2, ib2, bool(sd2)
        if not sd and itstde >= wait:
            break
        old, norm = norm, norm * 10.0 ** ctx.rng.uniform(-0.5, 0.1)
    ctx.sig(hi is None, tol, every, wait, sorted(kinds))


def c_grid(ctx):
    n = ctx.integer(2, 20)
    g = np.cumsum(ctx.rng.uniform(0.05, 1.0, n)) + ctx.rng.uniform(-5, 5)
    k = ctx.integer(0, n - 2)
    pos = ctx.pick(g[k], g[k + 1], g[k] + ctx.rng.uniform() * (g[k + 1] - g[k]), g[0], g[-1])
    g0 = g.copy()
    l, r = ut.bisectionGrid(g if ctx.flag() else list(g), pos)
    ctx.check(r == l + 1 and g[l] <= pos <= g[r], "bisectionGrid: neighbours (%r,%r) of %r in %r" % (l, r, pos, g.tolist()))
    ctx.check(np.array_equal(g, g0), "grid modified")
    ctx.sig(n, k, bool(pos in g))


def c_fit(ctx):
    """random periodic functions, smoothing filters and phase matching"""
    dt = ctx.pick(float, complex)
    per = ctx.rng.uniform(0.3, 5.0)
    x = ctx.rng.uniform(-1, 1, ctx.integer(1, 30)) * per
    const = ctx.flag(0.3)
    f = ctx.pick(ut.funK, ut.funR)
    import random
    seed = ctx.integer(0, 10 ** 6)

    def draw(xs):
        np.random.seed(seed)
        random.seed(seed)
        return f(xs, per, dtype=dt, const=const)
    y, z = draw(x), draw(x + ctx.integer(-3, 3) * per)
    ctx.check(y.shape == x.shape and y.dtype == np.dtype(dt), "%s: shape %s type %s" % (f.__name__, y.shape, y.dtype))
    ctx.close(z, y, "%s: not periodic with period %r" % (f.__name__, per), tol=1e-10, scale=1.0)
    ctx.check(not const or np.max(np.abs(y - y[0])) < 1e-14, "%s: constant function varies" % f.__name__)
    # savgol smoothing: exact on polynomials up to its order, independent for every pair of indices
    D, n = ctx.integer(1, 3), ctx.integer(11, 30)
    po = ctx.integer(1, 3)
    wl = ctx.pick(5, 7, 9, 11)
    s = np.linspace(-1, 1, n)
    co = ctx.array((D, D, po + 1), dt)
    pol = sum(co[:, :, k, None] * s ** k for k in range(po + 1))
    ctx.close(ut.smoothArray(pol, wl, po), pol, "smoothArray changes a polynomial of degree %d (order %d)" % (po, po), tol=1e-9, scale=np.max(np.abs(pol)))
    a, b = ctx.array((D, D, n), dt), ctx.array((D, D, n), dt)
    k = ctx.rng.uniform(-2, 2)
    sa, sb, sab = ut.smoothArray(a, wl, po), ut.smoothArray(b, wl, po), ut.smoothArray(a + k * b, wl, po)
    ctx.check(sa.dtype == a.dtype and sa.shape == a.shape, "smoothArray: shape or type")
    ctx.close(sab, sa + k * sb, "smoothArray not linear", tol=1e-10, scale=5.0)
    ctx.close(ut.smoothArray(np.transpose(a, (1, 0, 2)).copy(), wl, po), np.transpose(sa, (1, 0, 2)), "smoothArray mixes matrix elements", tol=1e-12, scale=1.0)
    # gauge phases between two decompositions of one matrix
    D = ctx.integer(1, 5)
    U, V = np.linalg.qr(ctx.array((D, D), complex))[0], np.linalg.qr(ctx.array((D, D), complex))[0]
    phi = ctx.rng.uniform(-3, 3, D)
    got = ut.findPhase2(U, U * np.exp(-1j * phi), V, np.exp(1j * phi)[:, None] * V)
    ctx.close(np.exp(1j * got), np.exp(1j * phi), "findPhase2: phases", tol=1e-4, scale=1.0)
    # order of the vectors
    perm = ctx.rng.permutation(D)
    ctx.close(ut.matchState(U, U[:, perm] * np.exp(1j * phi)), (U[:, perm] * np.exp(1j * phi))[:, np.argsort(perm)], "matchState: vectors not in the order of the reference", tol=1e-12, scale=1.0)
    ctx.sig(np.dtype(dt).name, f.__name__, const, D, po, wl)


CASES = [("bits", c_bits, 200, 4000), ("basis", c_basis, 390, 390), ("wick", c_wick, 600, 10000), ("fock", c_fock, 150, 2000), ("scalar", c_scalar, 300, 4000), ("steps", c_steps, 300, 4000), ("cg", c_cg, 300, 4000), ("grid", c_grid, 300, 4000), ("fit", c_fit, 200, 3000)]
