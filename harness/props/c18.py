"""C18: finite DMRG against exact diagonalisation."""
import numpy as np
import dense, long, gen
from common import Skip
from monitors import watch
from props import c14
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H

RULE = ("all hermitian open-boundary models and random nearest-neighbour MPOs on 2-7 sites, random and product initial states (real and complex, any "
        "centre position, bond dimensions from 1 to exact), solvers AR/LAN/LOBPCG, random solver parameters, single- and two-site sweeps, mixed "
        "sequences of both; distinct per model, length, solver, mode and bond dimensions; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["ARPACK needs local problems of at least three dimensions, smaller ones are refused by the solver and not generated",
               "the engine optimises the MPS object it is given in place (dmrg.mps is that object); the MPO is read only",
               "the energy of a truncating two-site step is that before its truncation"]


def exact_bonds(ds):
    N = len(ds)
    return [1] + [int(min(np.prod(ds[:n]), np.prod(ds[n:]))) for n in range(1, N)] + [1]


def start(ctx, ds, full, dt):
    N = len(ds)
    ex = exact_bonds(ds)
    if full:
        b = ex
    else:
        D = ctx.integer(1, 6)
        b = [1] + [min(D, x) if ctx.flag(0.8) else ctx.integer(1, min(D, x)) for x in ex[1:-1]] + [1]
    ts = gen.tensors(ctx, ds, b, dt, style="plain")
    m = mpslib.MPS(ts)
    m._Z = 1.0
    m.position(0)
    m.position(N)
    m.resetZ()
    m.position(ctx.integer(0, N))
    return m


def generic(ctx, N):
    """models without vanishing couplings (which would cut the chain into separately conserved parts)"""
    u = lambda n: ctx.rng.uniform(0.3, 1.5, n) * ctx.rng.choice([-1, 1], n)
    k = ctx.pick("TFI", "XXZ", "FERMI", "Hubbard")
    if k == "TFI":
        return k, H.TFI(u(N - 1), u(N), True), [2] * N, True
    if k == "XXZ":
        return k, H.XXZ(u(N - 1), u(N - 1), u(N), True), [2] * N, True
    if k == "FERMI":
        return k, H.SpinlessFermions(u(N - 1), u(N - 1), u(N), True), [2] * N, True
    N = min(N, 4)
    return k, H.HubbardChain(u(N), u(N - 1), u(N - 1), u(N), u(N), True), [4] * N, True


def setup(ctx, full, minsize=4):
    kind, mpo, ds, herm = generic(ctx, ctx.integer(2, 7)) if full else c14.model(ctx, ctx.integer(2, 7))
    if not herm or np.prod(ds) > 260:
        raise Skip("model")
    Hd = dense.mpo_dense(mpo)
    ev = np.linalg.eigvalsh(Hd)
    dt = complex if any(np.iscomplexobj(np.asarray(mpo[n])) for n in range(len(ds))) and np.max(np.abs(Hd.imag)) > 0 else gen.dtype(ctx)
    m = start(ctx, ds, full, dt)
    sizes = [t.size for t in m.tensors]
    if min(sizes) < minsize:
        raise Skip("local problem too small for the iterative solvers")
    return kind, mpo, ds, Hd, ev, m


def params(ctx, solver):
    p = dict(tol=ctx.pick(1e-8, 1e-10), ncv=ctx.pick(10, 20, 40), verbose=0, solver=solver, cp=None)
    if solver == "LAN":
        p.update(Ndiag=ctx.integer(1, 10), nmaxlan=ctx.pick(100, 200), landelta=1e-8, landeltaEta=ctx.pick(1e-10, 1e-12))
    return p


def inspect(ctx, tag, m, ds, Hd, ev, e, exact_e=True, tole=1e-7):
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    ctx.check(np.ndim(e) == 0 and abs(np.imag(e)) <= 1e-9 * size, tag + ": energy %r is not a real number" % (e,))
    e = float(np.real(e))
    v = dense.vec(m)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm of the final state", tol=1e-7)
    ex = np.real(dense.expect(Hd, v)) / np.real(np.vdot(v, v))
    ctx.check(e >= ev[0] - 1e-8 * size, tag + ": energy %.12g below the ground-state energy %.12g" % (e, ev[0]))
    if exact_e:
        ctx.close(e, ex, tag + ": returned energy and <H> of the final state", tol=tole, scale=size)
    return v, ex


def usable(ctx, tag, m, ds, v):
    """what a user reads off the final state through the public interface"""
    N = len(ds)
    ops = [ctx.herm(d) for d in ds]
    got = np.asarray(m.measureList(ops))
    ctx.close(got, [np.real(dense.expect(dense.embed(o, n, ds), v)) for n, o in enumerate(ops)], tag + ": local expectation values", tol=1e-7, scale=1.0)
    n = ctx.integer(1, N - 1)
    s = np.sort(np.real(np.asarray(m.getSchmidt(n))))[::-1]
    w = dense.schmidt(v, ds, n)
    k = max(len(s), len(w))
    pad = lambda x: np.concatenate([x, np.zeros(k - len(x))])
    ctx.close(pad(s), pad(w), tag + ": Schmidt coefficients at bond %d" % n, tol=1e-7, scale=1.0)
    ctx.check(gen.canonical_errors(m) < 1e-7, tag + ": the final state is not canonical (%.1e)" % gen.canonical_errors(m))
    ctx.close(dense.vec(m), v, tag + ": state after measuring", tol=1e-7, scale=1.0)
    p = ctx.integer(0, N)
    m.position(p)
    ctx.close(dense.vec(m), v, tag + ": state after position(%d)" % p, tol=1e-7, scale=1.0)
    ctx.check(gen.canonical_errors(m) < 1e-7, tag + ": not canonical after position(%d) (%.1e)" % (p, gen.canonical_errors(m)))


def single(ctx):
    """single-site DMRG sweep by sweep"""
    kind, mpo, ds, Hd, ev, m = setup(ctx, False)
    N = len(ds)
    solver = ctx.pick("AR", "LAN", "LOBPCG")
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    keep = [np.array(mpo[n]) for n in range(N)]
    bounds = {} if ctx.flag(0.7) else dict(lb=np.ones((1, 1, 1)), rb=np.ones((1, 1, 1)))
    v0 = dense.vec(m)
    last = np.real(dense.expect(Hd, v0)) / np.linalg.norm(v0) ** 2
    b0 = gen.bdims(m)
    eng = en.DMRGengine(m, mpo, "x", **bounds)
    tag = "single-site %s (%s, N=%d, bonds %s)" % (solver, kind, N, b0)
    p = params(ctx, solver)
    for k in range(ctx.integer(1, 4)):
        nm = ctx.pick(1, 1, 2)
        e = eng.simulate(Nmax=nm, Econv=1e-14, **p)
        v, ex = inspect(ctx, tag, eng.mps, ds, Hd, ev, e, tole=1e-7)
        ctx.check(ex <= last + 1e-8 * size, tag + ": energy rose from %.12g to %.12g in sweep %d" % (last, ex, k))
        last = ex
        if ctx.flag(0.3):
            usable(ctx, tag, eng.mps, ds, v)
            eng.update() if ctx.flag(0.5) else eng.position(eng.mps.pos)
            eng.update()
        ctx.count("sweeps", nm)
    b1 = [t.shape[0] for t in eng.mps.tensors] + [1]
    ctx.check(all(y <= x for x, y in zip(b0, b1)), tag + ": single-site sweeps enlarged the bonds to %s" % b1)
    usable(ctx, tag, eng.mps, ds, v)
    ctx.check(all(np.array_equal(a, np.asarray(mpo[n])) for n, a in enumerate(keep)), tag + ": MPO modified")
    ctx.sig(kind, N, str(b0), solver, np.dtype(m.dtype).name)


def exact(ctx):
    """full bond dimension: the exact ground state, for every solver and both algorithms"""
    kind, mpo, ds, Hd, ev, m = setup(ctx, True)
    N = len(ds)
    two = ctx.flag(0.4)
    solver = ctx.pick("AR", "LAN", "LOBPCG")
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    width = ev[-1] - ev[0]
    eng = en.DMRGengine(m, mpo, "x")
    p = params(ctx, solver)
    nmax = ctx.integer(6, 12)
    econv = ctx.pick(1e-9, 1e-12)
    tag = "%s %s at full bond dimension (%s, N=%d)" % ("two-site" if two else "single-site", solver, kind, N)
    if two:
        e = eng.simulateTwoSite(Nmax=nmax, Econv=econv, truncation=1e-12, **p)
    else:
        e = eng.simulate(Nmax=nmax, Econv=econv, **p)
    v, ex = inspect(ctx, tag, eng.mps, ds, Hd, ev, e)
    # LOBPCG performs 20 iterations per step; two-site truncation may then lock it into a symmetry sector
    ctx.check(e - ev[0] <= 1e-5 * max(size, width) or (two and solver == "LOBPCG"), tag + ": energy %.12g, ground-state energy %.12g" % (e, ev[0]))
    usable(ctx, tag, eng.mps, ds, v)
    ctx.count("converged runs")
    ctx.sig(kind, N, solver, two, nmax)


def two_site(ctx):
    """two-site DMRG: truncation limits, growth of bonds, mixed sequences"""
    kind, mpo, ds, Hd, ev, m = setup(ctx, False, minsize=1)
    N = len(ds)
    if N < 2 or min(a.shape[0] * b.shape[1] * a.shape[2] * b.shape[2] for a, b in zip(m.tensors[:-1], m.tensors[1:])) < 4:
        raise Skip("too small")
    solver = ctx.pick("AR", "LAN")
    size = max(abs(ev[0]), abs(ev[-1]), 1e-12)
    D = ctx.integer(2, 8)
    m.Dmax = D
    thr = ctx.pick(1e-14, 1e-10, 1e-6, 1e-3)
    keep = [np.array(mpo[n]) for n in range(N)]
    b0 = gen.bdims(m)
    eng = en.DMRGengine(m, mpo, "x")
    lim = [max(D, b) for b in b0]
    tag = "two-site %s (%s, N=%d, bonds %s, Dmax=%d, truncation=%.0e)" % (solver, kind, N, b0, D, thr)
    p = params(ctx, solver)
    ex_b = exact_bonds(ds)
    for k in range(ctx.integer(1, 3)):
        e = eng.simulateTwoSite(Nmax=ctx.pick(1, 2), Econv=1e-14, truncation=thr, **p)
        v, ex = inspect(ctx, tag, eng.mps, ds, Hd, ev, e, exact_e=False)
        b = gen.bdims(eng.mps)
        ctx.check(all(x <= D for x in b[1:-1]), tag + ": bond dimensions %s" % b)
        # the last step (bond 1) is the one whose energy is returned; without truncation it is the energy of the state
        ctx.check(ex >= ev[0] - 1e-8 * size, tag + ": energy of the state below the ground state")
        if b[1] >= min(ex_b[1], ds[0] * b[2]) and thr <= 1e-10:
            ctx.close(e, ex, tag + ": returned energy and <H>", tol=1e-6, scale=size)
            ctx.count("untruncated energies")
        if all(x <= D for x in ex_b) and thr <= 1e-10 and k >= 1:
            ctx.check(ex - ev[0] <= 0.5 * (ev[-1] - ev[0]), tag + ": no progress")
        if ctx.flag(0.3):
            if min(t.size for t in eng.mps.tensors) >= 4:
                before = ex
                e = eng.simulate(Nmax=1, Econv=1e-14, **p)
                v, ex = inspect(ctx, tag + " + single-site sweep", eng.mps, ds, Hd, ev, e)
                ctx.check(ex <= before + 1e-8 * size, tag + ": single-site sweep after two-site raised the energy %.12g -> %.12g" % (before, ex))
    usable(ctx, tag, eng.mps, ds, v)
    ctx.check(all(np.array_equal(a, np.asarray(mpo[n])) for n, a in enumerate(keep)), tag + ": MPO modified")
    ctx.sig(kind, N, str(b0), D, thr, solver)


def boundaries(ctx):
    """the engine embedded between given environments optimises the enclosed block"""
    ds = [ctx.pick(2, 2, 3)] * ctx.integer(2, 4)
    N = len(ds)
    Dl, Dr = ctx.integer(1, 3), ctx.integer(1, 3)
    if Dl * Dr * np.prod(ds) > 300:
        raise Skip("too large")
    dt = gen.dtype(ctx)
    M = [ctx.integer(2, 3) for _ in range(N + 1)]           # (a single channel makes H a product, with conserved factors)
    W = []
    for n, d in enumerate(ds):
        w = np.zeros((M[n], M[n + 1], d, d), dtype=dt)
        for i in range(M[n]):
            for j in range(M[n + 1]):
                w[i, j] = ctx.herm(d, dt)
        W.append(w)
    lb = np.stack([ctx.herm(Dl, dt) for _ in range(M[0])], axis=2)
    rb = np.stack([ctx.herm(Dr, dt) for _ in range(M[-1])], axis=2)
    full = dense.mpo_dense_full(W)
    # operator on (l, s, r)
    Hd = np.einsum("abm,mPQn,cdn->aPcbQd", lb, full, rb, optimize=True)
    dim = Dl * int(np.prod(ds)) * Dr
    Hd = Hd.reshape(dim, dim)
    Hd = (Hd + Hd.conj().T) / 2
    ev = np.linalg.eigvalsh(Hd)
    size = max(abs(ev[0]), abs(ev[-1]))
    b = [Dl] + [int(min(Dl * np.prod(ds[:n]), Dr * np.prod(ds[n:]))) for n in range(1, N)] + [Dr]
    ts = [ctx.array((b[n], b[n + 1], d), dt) for n, d in enumerate(ds)]
    if min(t.size for t in ts) < 4:
        raise Skip("local problem too small")
    m = mpslib.MPS(ts)
    m._Z = 1.0
    m.position(0)
    m.position(N)
    solver = ctx.pick("AR", "LAN")
    keep = [lb.copy(), rb.copy()]
    eng = en.DMRGengine(m, W, "x", lb=lb, rb=rb)
    e = eng.simulate(Nmax=ctx.integer(4, 8), Econv=1e-12, **params(ctx, solver))
    tag = "DMRG between boundary blocks (%s, N=%d, D %d,%d)" % (solver, N, Dl, Dr)
    ctx.check(e >= ev[0] - 1e-8 * size, tag + ": energy %.12g below the lowest eigenvalue %.12g" % (np.real(e), ev[0]))
    v = dense.chain(dense.full_tensors(eng.mps)).reshape(-1)
    ctx.close(np.real(dense.expect(Hd, v)) / np.linalg.norm(v) ** 2, np.real(e), tag + ": returned energy and <H>", tol=1e-7, scale=size)
    ctx.check(e - ev[0] <= 1e-5 * size, tag + ": energy %.12g, lowest eigenvalue %.12g" % (np.real(e), ev[0]))
    ctx.check(np.array_equal(lb, keep[0]) and np.array_equal(rb, keep[1]), tag + ": boundary blocks modified")
    ctx.sig(N, str(ds), Dl, Dr, solver, np.dtype(dt).name)


CASES = [("single", single, 350, 8000), ("exact", exact, 300, 6000), ("two-site", two_site, 380, 8000), ("boundaries", boundaries, 180, 4000),
         ("long-dmrg", long.dmrg, 12, 150)]
