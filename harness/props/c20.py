"""C20: single-site TDVP against exact evolution and its own conservation laws."""
import numpy as np
import dense, long, gen
from common import Skip
from props import c14, c18
from props.c19 import phase_distance, normed
import lib.mpslib.mps as mpslib
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H

RULE = ("hermitian open-boundary models and random nearest-neighbour MPOs on 1-7 sites, chains between boundary blocks, random states at full and restricted bond "
        "dimension, solvers LAN/SEXPMV/RK45/RK23/BDF with random parameters, imaginary, real and complex steps of either sign, split runs with measurements and moved "
        "centres in between; distinct per model, length, bonds, solver, step and number of steps; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["at full bond dimension the tangent space is the whole space, so a TDVP step is exact up to the solver's tolerance",
               "every substep of the symmetric splitting conserves norm and energy and the composition is time-reversible, at any bond dimension",
               "LSODA and Radau cannot integrate complex functions in the installed scipy and are refused by it"]


def setup(ctx, full, nmin=1, maxdim=200):
    if ctx.flag(0.5):
        N = ctx.integer(max(2, nmin), 7)
        kind, mpo, ds, herm = c18.generic(ctx, N)
    else:
        kind, mpo, ds, herm = c14.model(ctx, ctx.integer(max(2, nmin), 7))
    if nmin == 1 and ctx.flag(0.05):
        d = ctx.integer(2, 5)
        mpo, ds, herm, kind = H.MPO([ctx.herm(d, gen.dtype(ctx)).reshape(1, 1, d, d)]), [d], True, "one site"
    if not herm or np.prod(ds) > maxdim:
        raise Skip("model")
    Hd = dense.mpo_dense(mpo)
    if np.max(np.abs(Hd)) < 1e-3:
        raise Skip("vanishing Hamiltonian")
    m = c18.start(ctx, ds, full, gen.dtype(ctx))
    return kind, mpo, ds, Hd, m


def solver(ctx, imag=True):
    """(keyword arguments, tolerance of one run relative to one)"""
    s = ctx.pick("LAN", "LAN", "SEXPMV", "RK45", "RK45", "RK23", "BDF")
    if s == "LAN":
        return dict(solver=s, krylov_dim=ctx.pick(10, 12, 20)), 1e-7
    if s == "SEXPMV":
        return dict(solver=s), 1e-6
    if s == "RK45" and ctx.flag(0.15):
        return dict(), 1e-3                           # the defaults: RK45, rtol=1e-6
    r = {"RK45": 1e-9, "RK23": 1e-7, "BDF": 1e-6}[s]
    return dict(solver=s, rtol=r, atol=r * 1e-2), {"RK45": 1e-6, "RK23": 1e-4, "BDF": 3e-3}[s]


def step(ctx, Hd, kind="imag"):
    """dt*||H|| stays moderate, so that a Krylov space of ten vectors is converged"""
    size = max(np.linalg.norm(Hd, 2), 1e-9)
    f = ctx.rng.uniform(0.02, 0.6) / size
    if kind == "imag":
        return f * ctx.pick(1j, -1j, -1j)
    if kind == "real":
        return f * ctx.pick(-1.0, -1.0, 1.0)
    return f * np.exp(1j * ctx.rng.uniform(0, 6.28))


def evolve(ctx, e, dt, n, split=True, **kw):
    parts = [n]
    if split and n > 1 and ctx.flag(0.5):
        k = ctx.integer(1, n - 1)
        parts = [k, n - k]
    for i, k in enumerate(parts):
        t = e.doTDVP(dt, k, verbose=ctx.pick(0, 0, 1, 2), **kw)
        if i + 1 < len(parts):
            q = ctx.integer(0, 4)
            if q == 0 and len(e.mps) > 1:
                [e.mps.getSchmidt(b) for b in range(1, len(e.mps))]
            elif q == 1:
                e.mps.position(ctx.integer(0, len(e.mps)))
            elif q == 2:
                e.measureLocal([ctx.herm(d) for d in e.mps.d])
            elif q == 3:
                e.mps.position(len(e.mps))
                e.mps.position(0)
    return t, parts


def audit(ctx, tag, e, ds, n, dt, t, b0, vector=True):
    m = e.mps
    ctx.check(e.iteration == n, tag + ": iteration counter %r after %d steps" % (e.iteration, n))
    want = n * abs(np.imag(dt))
    ctx.check(abs(t - want) <= 1e-9 * (1 + want) and abs(e.time - want) <= 1e-9 * (1 + want), tag + ": time %r / %r, evolved %r" % (t, e.time, want))
    b = gen.bdims(m)
    ctx.check(b == b0, tag + ": bond dimensions %s became %s" % (b0, b))
    ctx.check(m.pos == 0, tag + ": centre at %r" % m.pos)
    err = gen.canonical_errors(m)
    ctx.check(err < 1e-7, tag + ": state not canonical (%.1e)" % err)
    if not vector:
        return None
    v = dense.vec(m)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm", tol=1e-8)
    if np.iscomplexobj(v) and np.max(np.abs(v.imag)) > 1e-12:
        ctx.check(np.issubdtype(m.dtype, np.complexfloating), tag + ": complex state with dtype %s" % m.dtype)
    ops = [ctx.herm(d) for d in ds]
    ctx.close(np.asarray(e.measureLocal(ops)), [np.real(dense.expect(dense.embed(o, k, ds), v)) for k, o in enumerate(ops)],
              tag + ": local expectation values", tol=1e-7, scale=1.0)
    return v


def full(ctx):
    """full bond dimension: exact evolution for every solver and kind of step"""
    kind, mpo, ds, Hd, m = setup(ctx, True)
    N = len(ds)
    st = ctx.pick("imag", "imag", "real", "complex")
    kw, tol = solver(ctx)
    dt = step(ctx, Hd, st)
    if st == "real" and ctx.flag(0.7):
        dt = float(np.real(dt))
    n = ctx.integer(1, 8)
    v0 = dense.vec(m)
    b0, keep, pos0 = gen.bdims(m), [np.array(mpo[k]) for k in range(N)], m.pos
    e = ctx.pick(en.TimeEvolutionEngine, en.TimeEvolutionEngine.TDVP)(m, mpo, "x")
    tag = "TDVP %s at full bond dimension (%s, N=%d, dt=%s x%d)" % (kw, kind, N, dt, n)
    t, parts = evolve(ctx, e, dt, n, **kw)
    v = audit(ctx, tag, e, ds, n, dt, t, b0)
    U = dense.expm_herm(Hd, n * dt)
    w = normed(v0 @ U)
    cond = np.linalg.norm(U, 2) / np.linalg.norm(v0 @ U)
    d = phase_distance(v, w)
    ctx.check(d <= tol * n ** 0.5 * cond, tag + " (calls %s): deviates by %.2e from the exact evolution" % (parts, d))
    ctx.check(np.array_equal(dense.vec(m), v0) and m.pos == pos0, tag + ": the caller's MPS was altered")
    ctx.check(all(np.array_equal(a, np.asarray(mpo[k])) for k, a in enumerate(keep)), tag + ": the caller's MPO was altered")
    ctx.count("steps", n)
    ctx.sig(kind, N, str(kw), st, n, np.dtype(m.dtype).name, str(parts))


def restricted(ctx):
    """any bond dimension: energy and norm conserved, reversible, solvers agree, runs compose"""
    kind, mpo, ds, Hd, m = setup(ctx, False, nmin=3)
    N = len(ds)
    kw, tol = solver(ctx)
    dt = step(ctx, Hd)
    n = ctx.integer(1, 8)
    v0 = dense.vec(m)
    b0 = gen.bdims(m)
    size = max(np.linalg.norm(Hd, 2), 1e-9)
    e0 = np.real(dense.expect(Hd, v0))
    e = en.TimeEvolutionEngine(m, mpo, "x")
    tag = "TDVP %s with bonds %s (%s, N=%d, dt=%s x%d)" % (kw, b0, kind, N, dt, n)
    t, parts = evolve(ctx, e, dt, n, **kw)
    v = audit(ctx, tag, e, ds, n, dt, t, b0)
    # ill-conditioned bonds amplify nothing in energy and norm
    e1 = np.real(dense.expect(Hd, v))
    ctx.check(abs(e1 - e0) <= 4 * tol * N * size, tag + " (calls %s): energy %.10f -> %.10f" % (parts, e0, e1))
    ref = en.TimeEvolutionEngine(m, mpo, "y")
    ref.doTDVP(dt, n, solver="LAN", krylov_dim=20, verbose=0)
    vr = dense.vec(ref.mps)
    smin = min([min(np.asarray(m.getSchmidt(k))) for k in range(1, N)])
    smin = min([smin] + [min(np.asarray(ref.mps.copy().getSchmidt(k))) for k in range(1, N)])
    if smin > 1e-3:
        # smaller Schmidt values make the projector change quickly
        d = phase_distance(v, vr)
        ctx.check(d <= 30 * tol * n * N + 1e-7, tag + " (calls %s): differs by %.2e from the uninterrupted Lanczos run" % (parts, d))
        e.doTDVP(-dt, n, verbose=0, **kw)
        d = phase_distance(dense.vec(e.mps), v0)
        ctx.check(d <= 60 * tol * n * N + 1e-7, tag + ": evolving back misses the initial state by %.2e" % d)
        ctx.check(abs(e.time - 2 * n * abs(dt)) < 1e-9 * (1 + n * abs(dt)) and e.iteration == 2 * n, tag + ": counters after the way back")
        ctx.count("reversals")
    e.reset()
    ctx.check(e.time == 0 and e.iteration == 0, tag + ": reset")
    ctx.count("steps", n)
    ctx.sig(kind, N, str(b0), str(kw), n, "%.4f" % abs(dt))


def convergent(ctx):
    """restricted bond dimension: the projected equation of motion at small steps"""
    kind, mpo, ds, Hd, m = setup(ctx, False, nmin=3, maxdim=130)
    N = len(ds)
    m.position(0)
    v0 = dense.vec(m)
    smin = min([min(np.asarray(m.getSchmidt(k))) for k in range(1, N)])
    if smin < 0.05:
        raise Skip("ill-conditioned start")
    m.position(0)
    P = tangent(m, ds)
    ph = ctx.pick(-1j, 1j, -1.0, 1.0, -0.6 - 0.8j)
    rhs = P @ (v0 @ Hd) - 0
    size = np.linalg.norm(Hd, 2)
    dt = 1e-3 / size * ph
    e = en.TimeEvolutionEngine(m, mpo, "x")
    s = ctx.pick("LAN", "SEXPMV", "RK45")
    e.doTDVP(dt, 1, solver=s, krylov_dim=10, rtol=1e-10, atol=1e-12, verbose=0)
    v = dense.vec(e.mps)
    # remove norm and phase: project out v0
    q = lambda x: x - v0 * np.vdot(v0, x)
    o = np.vdot(v0, v)
    vel = q(v / o) / dt
    want = q(rhs)
    tag = "TDVP velocity (%s, %s, N=%d, bonds %s, direction %s)" % (s, kind, N, gen.bdims(m), ph)
    ctx.close(vel, want, tag + ": not the projection of H|psi> onto the tangent space", tol=1e-3 * 20 / smin, scale=size)
    ctx.check(np.linalg.norm(vel - want) <= 0.02 / smin * size, tag)
    ctx.sig(kind, N, str(gen.bdims(m)), s, str(ph))


def tangent(m, ds):
    """projector onto the tangent space of the MPS manifold, from single-site variations"""
    full = dense.full_tensors(m)
    cols = []
    for n, t in enumerate(full):
        left = dense.chain(full[:n]) if n else np.ones((1, 1, 1))
        right = dense.chain(full[n + 1:]) if n + 1 < len(full) else np.ones((1, 1, 1))
        Dl, Dr, d = t.shape
        blk = np.einsum("aPi,jQb,xy->PxQiyj", left, right, np.eye(d), optimize=True)
        cols.append(blk.reshape(int(np.prod(ds)), -1))
    M = np.concatenate(cols, axis=1)
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    u = u[:, s > 1e-9 * s[0]]
    return u @ u.conj().T


def cooling(ctx):
    """real steps lower the energy monotonically"""
    kind, mpo, ds, Hd, m = setup(ctx, ctx.flag(0.4), nmin=2, maxdim=130)
    N = len(ds)
    ev = np.linalg.eigvalsh(Hd)
    size = max(abs(ev[0]), abs(ev[-1]), 1e-9)
    width = max(ev[-1] - ev[0], 1e-9)
    dt = -ctx.rng.uniform(0.02, 0.1) / width * ctx.pick(1.0, 1.0, 2.0)
    kw, tol = solver(ctx)
    b0 = gen.bdims(m)
    e = en.TimeEvolutionEngine(m, mpo, "x")
    last = np.real(dense.expect(Hd, dense.vec(m)))
    first = last
    tag = "imaginary-time TDVP %s with bonds %s (%s, N=%d, dt=%.4f)" % (kw, b0, kind, N, dt)
    done = 0
    for _ in range(ctx.integer(2, 5)):
        k = ctx.integer(1, 10)
        t = e.doTDVP(dt, k, verbose=0, **kw)
        done += k
        v = audit(ctx, tag, e, ds, done, dt, t, b0)
        E = np.real(dense.expect(Hd, v))
        ctx.check(E >= ev[0] - 1e-8 * size, tag + ": energy below the ground state")
        ctx.check(E <= last + 1e-7 * size + tol * 1e-2 * width, tag + ": energy rose from %.10f to %.10f" % (last, E))
        last = E
    ctx.count("imaginary-time steps", done)
    ctx.sig(kind, N, str(b0), str(kw), done)


def boundaries(ctx):
    """chains between given environments"""
    ds = [ctx.pick(2, 2, 3)] * ctx.integer(1, 4)
    N = len(ds)
    Dl, Dr = ctx.integer(1, 3), ctx.integer(1, 3)
    if Dl * Dr * np.prod(ds) > 250:
        raise Skip("too large")
    dt_ = gen.dtype(ctx)
    M = [ctx.integer(1, 3) for _ in range(N + 1)]
    W = []
    for n, d in enumerate(ds):
        w = np.zeros((M[n], M[n + 1], d, d), dtype=dt_)
        for i in range(M[n]):
            for j in range(M[n + 1]):
                w[i, j] = ctx.herm(d, dt_)
        W.append(w)
    lb = np.stack([ctx.herm(Dl, dt_) for _ in range(M[0])], axis=2)
    rb = np.stack([ctx.herm(Dr, dt_) for _ in range(M[-1])], axis=2)
    Hd = np.einsum("abm,mPQn,cdn->aPcbQd", lb, dense.mpo_dense_full(W), rb, optimize=True)
    dim = Dl * int(np.prod(ds)) * Dr
    Hd = Hd.reshape(dim, dim)
    Hd = (Hd + Hd.conj().T) / 2
    full_ = ctx.flag(0.6)
    ex = [Dl] + [int(min(Dl * np.prod(ds[:n]), Dr * np.prod(ds[n:]))) for n in range(1, N)] + [Dr]
    b = list(ex) if full_ else [Dl] + [ctx.integer(1, x) for x in ex[1:-1]] + [Dr]
    if not full_:
        b = [Dl] + [min(b[n], b[n - 1] * ds[n - 1] if n else 1) for n in range(1, N)] + [Dr]
    if any(b[n] > b[n + 1] * d or b[n + 1] > b[n] * d for n, d in enumerate(ds)):
        raise Skip("a sweep would reduce the bonds")
    m = mpslib.MPS([ctx.array((b[n], b[n + 1], d), dt_) for n, d in enumerate(ds)])
    m._Z = 1.0
    m.position(0)
    m.position(N)
    b0 = [t.shape[0] for t in m.tensors]
    v0 = dense.chain(dense.full_tensors(m)).reshape(-1)
    v0 = normed(v0)
    n = ctx.integer(1, 5)
    st = ctx.pick("imag", "imag", "real")
    dt = step(ctx, Hd, st)
    kw, tol = solver(ctx)
    e = en.TimeEvolutionEngine(m, W, "x", lb=lb, rb=rb)
    e.doTDVP(dt, n, verbose=0, **kw)
    v = dense.chain(dense.full_tensors(e.mps)).reshape(-1)
    tag = "TDVP between boundary blocks %s (N=%d, bonds %s of %s, dt=%s x%d)" % (kw, N, b, ex, dt, n)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm", tol=1e-7)
    size = np.linalg.norm(Hd, 2)
    if st == "imag":
        a, c = np.real(dense.expect(Hd, v0)), np.real(dense.expect(Hd, v))
        ctx.check(abs(a - c) <= 4 * tol * max(N, 2) * size, tag + ": energy %.10f -> %.10f" % (a, c))
    if full_:
        U = dense.expm_herm(Hd, n * dt)
        cond = np.linalg.norm(U, 2) / np.linalg.norm(v0 @ U)
        ctx.check(phase_distance(v, normed(v0 @ U)) <= 2 * tol * n * cond, tag + ": deviates by %.2e from the exact evolution" % phase_distance(v, normed(v0 @ U)))
    ctx.check([t.shape[0] for t in e.mps.tensors] == b0, tag + ": bond dimensions changed")
    ctx.sig(N, str(ds), str(b), st, str(kw), n)


def mixed(ctx):
    """TEBD and TDVP steps on one engine"""
    kind, mpo, ds, Hd, m = setup(ctx, True, nmin=2, maxdim=130)
    if kind == "one site":
        raise Skip("TEBD needs two sites")
    from props import c19
    N = len(ds)
    hs = [c14.bond(mpo, k, ds) for k in range(N - 1)]
    A = sum([dense.embed2(hs[k], k, ds) for k in range(0, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    B = sum([dense.embed2(hs[k], k, ds) for k in range(1, N - 1, 2)], np.zeros_like(Hd, dtype=complex))
    dt = 1j * c19.steps(ctx, A, B, frac=ctx.rng.uniform(0.01, 0.05))
    v0 = dense.vec(m)
    e = en.TimeEvolutionEngine(m, mpo, "x")
    n1, n2, n3 = ctx.integer(1, 4), ctx.integer(1, 4), ctx.integer(0, 3)
    order = ctx.pick("TDVP first", "TEBD first")
    k1 = k2 = 0
    for what, k in (("TEBD", n1), ("TDVP", n2), ("TEBD", n3)) if order == "TEBD first" else (("TDVP", n1), ("TEBD", n2), ("TDVP", n3)):
        if what == "TEBD":
            e.doTEBD(dt=dt, numsteps=k, Dmax=10 ** 4, tr_thresh=1e-16, verbose=0)
            k1 += k
        else:
            e.doTDVP(dt, k, solver=ctx.pick("LAN", "RK45"), krylov_dim=12, rtol=1e-9, atol=1e-11, verbose=0)
            k2 += k
    v = dense.vec(e.mps)
    w = v0 @ dense.expm_herm(Hd, (k1 + k2) * dt)
    tag = "mixed TEBD/TDVP run (%s, %s, N=%d, %d+%d+%d steps of %s)" % (order, kind, N, n1, n2, n3, dt)
    lim = 1.01 * c19.strang(A, B, dt, k1) + 1e-5
    ctx.check(phase_distance(v, w) <= lim, tag + ": deviates by %.2e, allowed %.2e" % (phase_distance(v, w), lim))
    ctx.check(e.iteration == k1 + k2 and abs(e.time - (k1 + k2) * abs(dt)) < 1e-9 * (1 + (k1 + k2) * abs(dt)), tag + ": counters")
    ctx.sig(kind, N, order, n1, n2, n3)


CASES = [("full", full, 160, 5000), ("restricted", restricted, 90, 3000), ("convergent", convergent, 190, 3000), ("cooling", cooling, 28, 1000),
         ("boundaries", boundaries, 130, 3000), ("mixed", mixed, 80, 2000),
         ("long-tdvp", long.tdvp, 8, 100)]
