"""Realistic runs of the library used as background activity for the online monitors."""
import numpy as np
import gen
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en


def model(ctx, N=None, kind=None):
    """random nearest-neighbour model: (mpo, d)"""
    N = N or ctx.integer(3, 6)
    kind = kind or ctx.pick("TFI", "XXZ", "FERMI")
    r = ctx.rng
    if kind == "TFI":
        return H.TFI(r.uniform(-1.5, 1.5, N - 1), r.uniform(-1.5, 1.5, N), True), 2
    if kind == "XXZ":
        return H.XXZ(r.uniform(-1.5, 1.5, N - 1), r.uniform(-1.5, 1.5, N - 1), r.uniform(-1, 1, N), True), 2
    return H.SpinlessFermions(r.uniform(-1, 1, N - 1), r.uniform(-1, 1, N - 1), r.uniform(-1, 1, N), True), 2


def run(ctx, what):
    ctx.sig(what, ctx.idx % 50)
    ctx.count("workload " + what)
    N = ctx.integer(3, 6)
    if what == "sweeps":
        m, ds, v = gen.state(ctx)
        for _ in range(6):
            m.position(ctx.integer(0, len(ds)))
        m.getSchmidt(ctx.integer(1, len(ds) - 1))
        m.truncate(schmidt_thresh=ctx.pick(1e-16, 1e-8, 1e-2) * 1.0, D=ctx.pick(None, 2, 3))
        m.measureList([ctx.herm(d) for d in ds])
    elif what == "arith":
        a, ds, va = gen.state(ctx)
        b, _, vb = gen.state(ctx, ds)
        c = a + 2.0 * b
        c.position(0)
        c.position(len(ds))
        c.dot(a)
        a.dot(b)
    elif what == "gates":
        m, ds, v = gen.state(ctx)
        for _ in range(6):
            s = ctx.integer(0, len(ds) - 2)
            g = np.linalg.qr(ctx.array((ds[s] * ds[s + 1],) * 2, m.dtype))[0]
            m.applyTwoSiteGate(g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s, Dmax=ctx.pick(2, 4, 50))
            m.applyOneSiteGate(np.linalg.qr(ctx.array((ds[s], ds[s]), m.dtype))[0], s)
    else:
        mpo, d = model(ctx, N)
        D = ctx.integer(2, 5)
        m = mpslib.MPS.random(N, D, d, True, dtype=gen.dtype(ctx) if what == "dmrg" else complex)
        m.position(0)
        m.position(N)
        m.position(0)
        if what == "dmrg":
            e = en.DMRGengine(m, mpo, "w")
            e.simulate(Nmax=2, Econv=1e-10, tol=1e-8, ncv=10, verbose=0, solver=ctx.pick("AR", "LAN"))
        elif what == "tebd":
            m.Dmax = 8
            e = en.TimeEvolutionEngine(m, mpo, "w")
            e.doTEBD(dt=ctx.pick(-0.05, -0.05j), numsteps=3, Dmax=ctx.pick(3, 8), tr_thresh=1e-12, verbose=0)
        elif what == "tdvp":
            e = en.TimeEvolutionEngine(m, mpo, "w")
            e.doTDVP(dt=ctx.pick(-0.05 + 0j, -0.05j), numsteps=2, krylov_dim=10, verbose=0, solver="LAN")
