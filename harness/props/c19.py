"""C19: TEBD against exact exponentials, with rigorous Trotter and truncation error budgets."""
import os, glob
import numpy as np
import dense, long, gen
from common import Skip
from monitors import watch
from props import c13, c14
import lib.mpslib.mps as mpslib
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H

RULE = ("all open-boundary nearest-neighbour models and random nearest-neighbour MPOs on 2-8 sites, random and product initial states (real and "
        "complex, any centre position, unnormalised ones included), imaginary, real and complex steps of either sign, any number of steps, Dmax and threshold, runs split into "
        "consecutive calls with measurements in between, any verbosity, checkpointing; distinct per model, length, step, number of steps and Dmax; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["the unitary error budget is the exact commutator bound of the symmetric second-order splitting for the two orders of its halves",
               "the distance of a truncated run is bounded by the sum over gates of sqrt(2-2*sqrt(1-tw)) of the weights the gates report",
               "the elapsed time counts |Im dt| per step (imaginary-time steps do not advance it)"]


def setup(ctx, N=None, kinds=None, maxdim=260, nonherm=False):
    for _ in range(30):
        kind, mpo, ds, herm = c14.model(ctx, N)
        if (herm or nonherm) and np.prod(ds) <= maxdim and (kinds is None or kind in kinds):
            break
    else:
        raise Skip("model")
    N = len(ds)
    Hd = dense.mpo_dense(mpo)
    hs = [c14.bond(mpo, n, ds) for n in range(N - 1)]
    A = sum([dense.embed2(hs[n], n, ds) for n in range(0, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    B = sum([dense.embed2(hs[n], n, ds) for n in range(1, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    return kind, mpo, ds, Hd, A, B, herm


def initial(ctx, ds, D=None):
    N = len(ds)
    if ctx.flag(0.3):
        dt = gen.dtype(ctx)
        loc = []
        for d in ds:
            x = ctx.array((d,), dt) if ctx.flag(0.6) else np.eye(d)[ctx.integer(0, d - 1)]
            loc.append(x / np.linalg.norm(x))
        m = mpslib.MPS.productState(loc, True)
        v = dense.lvec([np.asarray(x).reshape(1, 1, -1) for x in loc])
        m.position(ctx.integer(0, N))
    else:
        m, _, v = gen.state(ctx, ds, Dmax=D or 4, norm="unit" if ctx.flag(0.8) else None)
    ctx.check(np.linalg.norm(dense.vec(m) - v) <= 1e-8 * np.linalg.norm(v), "initial state")
    return m, v / np.linalg.norm(v)


def comm(a, b):
    return a @ b - b @ a


def strang(A, B, dt, n):
    """rigorous bound of n symmetric second-order steps of modulus dt (unitary)"""
    C = comm(A, B)
    a, b = np.linalg.norm(comm(A, C), 2), np.linalg.norm(comm(B, C), 2)
    t = abs(dt) ** 3 * n
    return t * max(b / 12 + a / 24, a / 12 + b / 24)


def normed(v):
    return v / np.linalg.norm(v)


def evolve(ctx, e, dt, n, Dmax, thr, split=True, between=True, **kw):
    """n steps, possibly as several calls with harmless queries in between"""
    parts = [n]
    if split and n > 1 and ctx.flag(0.5):
        k = ctx.integer(1, n - 1)
        parts = [k, n - k]
        if ctx.flag(0.2):
            parts.insert(1, 0)
    for i, k in enumerate(parts):
        r = e.doTEBD(dt=dt, numsteps=k, Dmax=Dmax, tr_thresh=thr, verbose=ctx.pick(0, 0, 1, 2), **kw)
        if i + 1 < len(parts) and between:
            q = ctx.integer(0, 3)
            if q == 0:
                e.mps.getSchmidt(ctx.integer(1, len(e.mps) - 1))
            elif q == 1:
                e.mps.position(ctx.integer(0, len(e.mps)))
            elif q == 2:
                e.measureLocal([ctx.herm(d) for d in e.mps.d])
    return r, parts


def distance(a, b):
    return np.linalg.norm(a - b)


def audit(ctx, tag, e, ds, n, dt, ret):
    """what every run has to satisfy"""
    m = e.mps
    tw, t = ret
    ctx.check(e.iteration == n, tag + ": iteration counter %r after %d steps" % (e.iteration, n))
    want = n * abs(np.imag(dt))
    ctx.check(abs(t - want) <= 1e-9 * (1 + want), tag + ": returned time %r, evolved %r" % (t, want))
    ctx.check(abs(e.time - want) <= 1e-9 * (1 + want), tag + ": engine time %r, evolved %r" % (e.time, want))
    ctx.check(tw == e.truncatedWeight, tag + ": returned truncated weight %r, engine %r" % (tw, e.truncatedWeight))
    v = dense.vec(m)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm", tol=1e-8)
    err = gen.canonical_errors(m)
    ctx.check(err < 1e-7, tag + ": state not canonical (%.1e)" % err)
    ops = [ctx.herm(d) for d in ds]
    got = np.asarray(e.measureLocal(ops))
    ctx.close(got, [np.real(dense.expect(dense.embed(o, k, ds), v)) for k, o in enumerate(ops)], tag + ": local expectation values", tol=1e-7, scale=1.0)
    return v


def steps(ctx, A, B, frac=None):
    size = max(np.linalg.norm(A, 2), np.linalg.norm(B, 2), 1e-6)
    return (frac or ctx.rng.uniform(0.02, 0.25)) / size * ctx.pick(1, -1)


def unitary(ctx):
    """no truncation: the error is the Trotter error"""
    kind, mpo, ds, Hd, A, B, _ = setup(ctx)
    N = len(ds)
    m, v0 = initial(ctx, ds)
    dt = 1j * steps(ctx, A, B)
    n = ctx.integer(1, 12)
    keep, keepv, keeppos = [np.array(mpo[k]) for k in range(N)], dense.vec(m), m.pos
    make = ctx.pick(en.TimeEvolutionEngine, en.TimeEvolutionEngine, en.TimeEvolutionEngine.TEBD)
    e = make(m, mpo, "x")
    Dmax = ctx.pick(10 ** 4, int(max(1, min(np.prod(ds[:N // 2]), np.prod(ds[N // 2:])) * max(ds))))
    tag = "TEBD %s N=%d dt=%s x%d" % (kind, N, dt, n)
    r, parts = evolve(ctx, e, dt, n, Dmax, 1e-16)
    v = audit(ctx, tag, e, ds, n, dt, r)
    want = v0 @ dense.expm_herm(Hd, n * dt)
    # the phase of the initial norm is not part of the claim
    bound = strang(A, B, dt, n)
    d = phase_distance(v, want)
    ctx.check(d <= 1.001 * bound + 1e-7, tag + " (calls %s): deviates by %.3e from the exact evolution, Trotter bound %.3e" % (parts, d, bound))
    ctx.check(e.truncatedWeight <= 1e-13 * (n + 1) * N, tag + ": truncated weight %.2e without truncation" % e.truncatedWeight)
    ctx.check(np.array_equal(dense.vec(m), keepv) and m.pos == keeppos, tag + ": the caller's MPS was altered")
    ctx.check(all(np.array_equal(a, np.asarray(mpo[k])) for k, a in enumerate(keep)), tag + ": the caller's MPO was altered")
    # reversal
    if ctx.flag(0.4):
        e.doTEBD(dt=-dt, numsteps=n, Dmax=Dmax, tr_thresh=1e-16, verbose=0)
        ctx.check(phase_distance(dense.vec(e.mps), v0) <= 1e-7, tag + ": evolving back does not restore the state (%.1e)" % phase_distance(dense.vec(e.mps), v0))
        e.reset()
        ctx.check(e.time == 0 and e.iteration == 0 and e.truncatedWeight == 0, tag + ": reset")
        ctx.count("reversals")
    ctx.count("gates", n * (N - 1))
    ctx.sig(kind, N, "%.4f" % abs(dt), n, np.dtype(m.dtype).name, str(parts))


def phase_distance(v, w):
    """distance of the states with the global phase removed when the start was normalised by the engine"""
    o = np.vdot(w, v)
    return np.linalg.norm(v - w * (o / abs(o) if abs(o) > 0 else 1.0))


def order(ctx):
    """halving the step reduces the error fourfold (imaginary, real and complex steps)"""
    kind, mpo, ds, Hd, A, B, herm = setup(ctx, maxdim=130, N=ctx.integer(3, 7), nonherm=True)
    N = len(ds)
    m, v0 = initial(ctx, ds)
    ph = ctx.pick(1j, -1j, -1.0, -1.0, 1.0, np.exp(1j * ctx.rng.uniform(0, 6.28)))
    size = max(np.linalg.norm(A, 2), np.linalg.norm(B, 2), 1e-6)
    T = ctx.rng.uniform(0.2, 0.8) / size
    want = normed(v0 @ dense.expm(T * ph * Hd))
    # n steps up to T; in the asymptotic regime the error vector is c/n^2 + O(1/n^4)
    ns = (4, 8, 16)
    err = []
    for n in ns:
        e = en.TimeEvolutionEngine(m, mpo, "x")
        dt = T * ph / n
        if abs(np.imag(dt)) == 0 and ctx.flag(0.7):
            dt = float(np.real(dt))
        r, _ = evolve(ctx, e, dt, n, 10 ** 4, 1e-16)
        v = audit(ctx, "TEBD %s N=%d dt=%s x%d" % (kind, N, dt, n), e, ds, n, dt, r)
        err.append(phase_distance(v, want))
        ctx.count("gates", n * (N - 1))
    tag = "TEBD %s N=%d total %s: errors %s for %s steps" % (kind, N, T * ph, ["%.2e" % x for x in err], ns)
    ctx.check(err[0] <= 0.2, tag)
    ctx.check(err[2] <= 0.29 * err[1] + 2e-7, tag + ", expected a factor 4")
    ctx.check(err[1] <= 0.35 * err[0] + 2e-7, tag + ", expected a factor 4")
    ctx.count("order resolved" if err[2] > 1e-6 else "order below resolution")
    ctx.sig(kind, N, str(ph), "%.3f" % T)


def commuting(ctx):
    """exact for commuting bond terms, whatever the step"""
    N = ctx.integer(2, 8)
    u = lambda n: ctx.rng.uniform(-1.5, 1.5, n)
    k = ctx.pick("XX", "ZZ", "field", "dimers", "density", "two-sites")
    if k == "XX":
        mpo, d = H.TFI(u(N - 1), np.zeros(N), True), 2
    elif k == "ZZ":
        mpo, d = H.XXZ(u(N - 1), np.zeros(N - 1), u(N), True), 2
    elif k == "field":
        mpo, d = H.TFI(np.zeros(N - 1), u(N), True), 2
    elif k == "dimers":
        J = u(N - 1)
        J[ctx.integer(0, 1)::2] = 0.0
        mpo, d = H.XXZ(J, J * ctx.rng.uniform(-1, 1), np.zeros(N), True), 2
    elif k == "density":
        N = min(N, 4)
        mpo, d = H.HubbardChain(u(N), np.zeros(N - 1), np.zeros(N - 1), u(N), u(N), True), 4
    else:
        N = 2
        mpo, d = H.XXZ(u(1), u(1), u(2), True), 2
    ds = [d] * N
    Hd = dense.mpo_dense(mpo)
    m, v0 = initial(ctx, ds)
    dt = ctx.rng.uniform(0.05, 2.5) * ctx.pick(1j, -1j, -0.3, 0.2, 0.2 - 0.7j)
    n = ctx.integer(1, 6)
    e = en.TimeEvolutionEngine(m, mpo, "x")
    r, parts = evolve(ctx, e, dt, n, 10 ** 4, 1e-16)
    tag = "TEBD of commuting terms (%s, N=%d, dt=%s x%d)" % (k, N, dt, n)
    v = audit(ctx, tag, e, ds, n, dt, r)
    U = dense.expm_herm(Hd, n * dt)
    cond = np.linalg.norm(U, 2) / np.linalg.norm(v0 @ U)
    ctx.check(phase_distance(v, normed(v0 @ U)) <= 1e-7 * cond + 1e-7, tag + ": not exact (%.1e)" % phase_distance(v, normed(v0 @ U)))
    ctx.sig(k, N, str(dt)[:12], n)


def truncated(ctx):
    """Dmax, threshold, the reported weight and the resulting distance"""
    kind, mpo, ds, Hd, A, B, _ = setup(ctx, N=ctx.integer(3, 8))
    N = len(ds)
    Dm = ctx.integer(1, 6)
    m, v0 = initial(ctx, ds, D=Dm)
    if max(m.D) > Dm:
        m.truncate(schmidt_thresh=1e-16, D=Dm)
    v0 = normed(dense.vec(m))
    dt = 1j * steps(ctx, A, B)
    n = ctx.integer(2, 12)
    thr = ctx.pick(1e-16, 1e-10, 1e-4, 1e-2)
    e = en.TimeEvolutionEngine(m, mpo, "x")
    tws = []
    tag = "TEBD %s N=%d dt=%s x%d Dmax=%d threshold=%.0e" % (kind, N, dt, n, Dm, thr)

    def gate(args, kw, res):
        tws.append(float(res[0]))
        ctx.check(res[0] >= -1e-14 and res[1] <= Dm, tag + ": a gate reports weight %r and %d states" % tuple(res))
        ctx.check(max(e.mps.D[1:-1]) <= Dm, tag + ": bond dimensions %s during the run" % (e.mps.D,))
        ctx.count("monitored gates")
    with watch((mpslib.MPS, "__applyTwoSiteGate__", gate)):
        r, parts = evolve(ctx, e, dt, n, Dm, thr)
    v = audit(ctx, tag, e, ds, n, dt, r)
    ctx.check(max(gen.bdims(e.mps)) <= Dm, tag + ": bond dimensions %s" % gen.bdims(e.mps))
    want = v0 @ dense.expm_herm(Hd, n * dt)
    tw = float(e.truncatedWeight)
    if tws:
        ctx.close(tw, sum(tws), tag + ": accumulated truncated weight", tol=1e-9, scale=1e-9)
        bound = sum(np.sqrt(max(0.0, 2 - 2 * np.sqrt(max(0.0, 1 - x)))) for x in tws) + strang(A, B, dt, n)
        d = phase_distance(v, want)
        ctx.check(d <= bound * 1.001 + 1e-6, tag + ": distance %.3e, error budget %.3e" % (d, bound))
        # the weight is not overstated either: an exact run reports none
        exact = [int(min(np.prod(ds[:k]), np.prod(ds[k:]))) for k in range(1, N)]
        if Dm >= max(exact) and thr <= 1e-10:
            ctx.check(tw <= 1e-12, tag + ": truncated weight %.2e of an exact run" % tw)
    if tw > 1e-6:
        ctx.count("runs with truncation")
    ctx.sig(kind, N, Dm, thr, n, "%.4f" % abs(dt))


def charge(kind, N):
    if kind in ("XXZ", "Fermi"):
        return [np.diag([-0.5, 0.5])] * N
    return [np.diag([0.0, 1.0, 1.0, 2.0])] * N


def conserved(ctx):
    """particle number / magnetisation and norm under unitary evolution, truncating or not"""
    kind = ctx.pick("XXZ", "Fermi", "Hubbard")
    N = ctx.integer(2, 8) if kind != "Hubbard" else ctx.integer(2, 4)
    u = lambda n: ctx.rng.uniform(0.3, 1.5, n) * ctx.rng.choice([-1, 1], n)
    if kind == "XXZ":
        mpo = H.XXZ(u(N - 1), u(N - 1), u(N), True)
    elif kind == "Fermi":
        mpo = H.SpinlessFermions(u(N - 1), u(N - 1), u(N), True)
    else:
        mpo = H.HubbardChain(u(N), u(N - 1), u(N - 1), u(N), u(N), True)
    q = charge(kind, N)
    d = q[0].shape[0]
    ds = [d] * N
    loc = [np.eye(d)[ctx.integer(0, d - 1)] for _ in range(N)]
    m = mpslib.MPS.productState(loc, True)
    Q = sum(dense.embed(x, k, ds) for k, x in enumerate(q))
    v0 = dense.vec(m)
    q0 = np.real(dense.expect(Q, v0))
    Hd = dense.mpo_dense(mpo)
    e0 = np.real(dense.expect(Hd, v0))
    Dm = ctx.pick(2, 4, 100, 100)
    dt = 1j * ctx.rng.uniform(0.02, 0.15) * ctx.pick(1, -1)
    n = ctx.integer(5, 30)
    e = en.TimeEvolutionEngine(m, mpo, "x")
    r, parts = evolve(ctx, e, dt, n, Dm, ctx.pick(1e-16, 1e-12, 1e-8))
    tag = "TEBD %s N=%d dt=%s x%d Dmax=%d" % (kind, N, dt, n, Dm)
    v = audit(ctx, tag, e, ds, n, dt, r)
    tw = float(e.truncatedWeight)
    span = N * 2.0
    tol = 1e-7 + span * np.sqrt(max(tw, 0.0)) * 4
    ctx.check(abs(np.real(dense.expect(Q, v)) - q0) <= tol, tag + ": conserved charge %.10f -> %.10f" % (q0, np.real(dense.expect(Q, v))))
    if tw < 1e-14:
        var = np.real(dense.expect(Q @ Q, v)) - np.real(dense.expect(Q, v)) ** 2
        ctx.check(abs(var) < 1e-6, tag + ": charge fluctuates by %.2e" % var)
        # energy oscillates within the Trotter error
        hs = [c14.bond(mpo, k, ds) for k in range(N - 1)]
        A = sum([dense.embed2(hs[k], k, ds) for k in range(0, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
        B = sum([dense.embed2(hs[k], k, ds) for k in range(1, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
        lim = 2 * np.linalg.norm(Hd, 2) * strang(A, B, dt, n) + 1e-6
        ctx.check(abs(np.real(dense.expect(Hd, v)) - e0) <= lim, tag + ": energy %.8f -> %.8f" % (e0, np.real(dense.expect(Hd, v))))
    ctx.sig(kind, N, Dm, n, "%.4f" % abs(dt))


def cooling(ctx):
    """real negative steps: energy falls, the ground state is reached, the state stays normalised"""
    kind = ctx.pick("TFI", "XXZ", "Fermi")
    N = ctx.integer(2, 6)
    u = lambda n: ctx.rng.uniform(0.5, 1.5, n) * ctx.rng.choice([-1, 1], n)
    if kind == "TFI":
        mpo = H.TFI(u(N - 1), u(N), True)
    elif kind == "XXZ":
        mpo = H.XXZ(u(N - 1), u(N - 1), u(N), True)
    else:
        mpo = H.SpinlessFermions(u(N - 1), u(N - 1), u(N), True)
    ds = [2] * N
    Hd = dense.mpo_dense(mpo)
    ev, U = np.linalg.eigh(Hd)
    dt0 = gen.dtype(ctx)
    m = mpslib.MPS([ctx.array((1 if n == 0 else 3, 1 if n == N - 1 else 3, 2), dt0) for n in range(N)])
    m._Z = 1.0
    m.position(0)
    m.position(N)
    v0 = normed(dense.vec(m))
    # time needed for exp(-t*H) to bring the energy within 1e-4 of the ground state
    w2 = np.abs(v0 @ U) ** 2                                   # weights of the eigenvectors (row-vector convention)
    en_at = lambda t: np.sum(w2 * ev * np.exp(-2 * t * (ev - ev[0]))) / np.sum(w2 * np.exp(-2 * t * (ev - ev[0])))
    dt = ctx.pick(0.05, 0.1)
    T = dt
    while en_at(T) - ev[0] > 1e-4 and T < 30:
        T *= 1.5
    if T >= 30:
        raise Skip("gap too small")
    n = int(np.ceil(T / dt))
    e = en.TimeEvolutionEngine(m, mpo, "x")
    E = [np.real(dense.expect(Hd, v0))]
    tag = "imaginary-time TEBD %s N=%d dt=-%s" % (kind, N, dt)
    done = 0
    hs = [c14.bond(mpo, k, ds) for k in range(N - 1)]
    A = sum([dense.embed2(hs[k], k, ds) for k in range(0, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    B = sum([dense.embed2(hs[k], k, ds) for k in range(1, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    S = dense.expm_herm(A, -dt / 2) @ dense.expm_herm(B, -dt) @ dense.expm_herm(A, -dt / 2)
    S2 = dense.expm_herm(B, -dt / 2) @ dense.expm_herm(A, -dt) @ dense.expm_herm(B, -dt / 2)
    fix = []
    for s in (S, S2):
        _, W = np.linalg.eigh((s + s.conj().T) / 2)
        x = np.conj(W[:, -1])
        fix.append(np.real(dense.expect(Hd, x)) - ev[0])
    allowance = max(fix)                                        # energy of the fixed point of a second-order splitting
    while done < n:
        k = max(1, min(n - done, ctx.integer(1, max(2, n // 3))))
        r = e.doTEBD(dt=-dt, numsteps=k, Dmax=64, tr_thresh=1e-16, verbose=ctx.pick(0, 1))
        done += k
        v = audit(ctx, tag, e, ds, done, -dt, r)
        E.append(np.real(dense.expect(Hd, v)))
        ctx.check(E[-1] >= ev[0] - 1e-9 * abs(ev[0]), tag + ": energy below the ground state")
        ctx.check(E[-1] <= E[-2] + 3 * allowance + 1e-9, tag + ": energy rose from %.10f to %.10f" % (E[-2], E[-1]))
    ctx.check(E[-1] - ev[0] <= 5e-4 + 3 * allowance, tag + ": energy %.8f after %d steps, ground state %.8f (splitting allows %.1e)" % (E[-1], n, ev[0], allowance))
    ctx.count("imaginary-time steps", n)
    ctx.sig(kind, N, dt, n, np.dtype(dt0).name)


def checkpointed(ctx):
    """checkpointing does not change the run"""
    kind, mpo, ds, Hd, A, B, _ = setup(ctx, N=ctx.integer(2, 6), maxdim=130)
    m, v0 = initial(ctx, ds)
    dt = 1j * steps(ctx, A, B)
    n, cp = ctx.integer(1, 8), ctx.integer(1, 4)
    a, b = en.TimeEvolutionEngine(m, mpo, "a"), en.TimeEvolutionEngine(m, mpo, "b")
    ra, _ = evolve(ctx, a, dt, n, 1000, 1e-16, split=False)
    keep = ctx.flag()
    rb, parts = evolve(ctx, b, dt, n, 1000, 1e-16, cp=cp, keep_cp=keep)
    tag = "TEBD %s N=%d dt=%s x%d cp=%d" % (kind, len(ds), dt, n, cp)
    va, vb = audit(ctx, tag, a, ds, n, dt, ra), audit(ctx, tag, b, ds, n, dt, rb)
    ctx.check(phase_distance(va, vb) <= 1e-7, tag + " (calls %s): checkpointing or splitting changed the result by %.1e" % (parts, phase_distance(va, vb)))
    ctx.count("checkpoint files", len(glob.glob("b_tebd_cp*")))
    ctx.sig(kind, len(ds), n, cp, keep)


CASES = [("unitary", unitary, 340, 8000), ("order", order, 140, 3000), ("commuting", commuting, 180, 4000),
         ("truncated", truncated, 240, 6000), ("conserved", conserved, 140, 3000), ("cooling", cooling, 45, 900), ("checkpointed", checkpointed, 110, 2500),
         ("long-quench", long.quench, 16, 200)]
