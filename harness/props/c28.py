"""C28: calls outside the documented domain are refused and leave everything as it was."""
import os
import numpy as np
import dense, gen
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H
import lib.Lanczos.LanczosEngine as lz
import lib.utils.utilities as utils

RULE = ("for random finite states at every centre position: calls with sites, bonds, gates, operators, operator lists, MPOs, files and partner states "
        "outside the documented domain; list-level functions, solvers, propagators and engines with inadmissible sizes, directions, gauges, solver "
        "names and time steps; every call must raise, and the dense vector, the canonical form and the inputs must be as before; distinct by kind of "
        "call, state configuration and centre")
ASSUMPTIONS = ["any exception (assertions, ValueError, TypeError, SystemExit) counts as a refusal",
               "moving the centre is not a change of the state"]


def quiet(f):
    """(refused, outcome)"""
    try:
        r = f()
    except (Exception, SystemExit) as e:
        return True, type(e).__name__
    return False, r


def refused(ctx, what, f):
    ok, r = quiet(f)
    ctx.check(ok, "%s was accepted and returned %.200r" % (what, r))
    ctx.count("refusals")


def state_calls(ctx):
    """methods of MPS"""
    ds = gen.dims(ctx, maxdim=200)
    m, _, v = gen.state(ctx, ds)
    N = len(ds)
    dt = gen.dtype(ctx)

    def g1(d, e=None):
        return ctx.array((d, d if e is None else e), dt)

    def g2(a, b):
        return ctx.array((a, b, a, b), dt)

    s, b = ctx.integer(0, N - 1), ctx.integer(0, N - 2)
    out, neg, k = N + ctx.integer(0, 2), -ctx.integer(1, 3), ctx.integer(1, 2)
    p = ctx.integer(0, N)
    far = [x for x in range(N) if x not in (p, p - 1)]
    other = mpslib.MPS.random(N=N + (1 if N == 2 else ctx.pick(1, -1)), D=2, d=2, obc=True)
    wide = mpslib.MPS.random(N=N, D=2, d=[d + k for d in ds], obc=True)

    def at(q, f):
        def g(x):
            x.position(q)
            return f(x)
        return g

    def mpo(dims):
        return [ctx.array((1, 1, d, d), dt) for d in dims]

    long_ds = [d + k if n == s else d for n, d in enumerate(ds)]
    unsorted = sorted(ctx.rng.choice(N, 2, replace=False).tolist(), reverse=True)
    junk = ctx.rng.bytes(ctx.integer(0, 40))
    name = os.path.join(ctx.scratch, "junk")
    with open(name + ".pickle", "wb") as f:
        f.write(junk)
    full = os.path.join(ctx.scratch, "full")
    m.save(full)
    raw = open(full + ".pickle", "rb").read()
    with open(os.path.join(ctx.scratch, "cut.pickle"), "wb") as f:
        f.write(raw[:ctx.integer(0, len(raw) - 2)])
    sp = sorted(ctx.rng.choice(N, 2, replace=False).tolist())
    ops2 = [g1(ds[sp[0]]), g1(ds[sp[1]])]
    calls = {
        "position(%d)" % (N + k): lambda x: x.position(N + k),
        "position(%d)" % neg: lambda x: x.position(neg),
        "position(%d,D=..)" % (N + k): lambda x: x.position(N + k, D=3),
        "getSchmidt(%d)" % (N + k): lambda x: x.getSchmidt(N + k),
        "getSchmidt(%d)" % neg: lambda x: x.getSchmidt(neg),
        "tensor(-1) at centre 0": at(0, lambda x: x.tensor(-1)),
        "tensor(N) at centre N": at(N, lambda x: x.tensor(N)),
        "measureLocal(op,%d)" % out: lambda x: x.measureLocal(g1(ds[-1]), out),
        "measureLocal(op,%d)" % neg: lambda x: x.measureLocal(g1(ds[neg % N]), neg),
        "measureLocal with an operator of the wrong dimension": lambda x: x.measureLocal(g1(ds[s] + k), s),
        "applyOneSiteGate(gate,%d)" % out: lambda x: x.applyOneSiteGate(g1(ds[-1]), out),
        "applyOneSiteGate(gate,%d)" % neg: lambda x: x.applyOneSiteGate(g1(ds[neg % N]), neg),
        "one-site gate of the wrong dimension": lambda x: x.applyOneSiteGate(g1(ds[s] + k), s),
        "one-site gate of the wrong rank": lambda x: x.applyOneSiteGate(ctx.array((ds[s], ds[s], 1), dt), s),
        "one-site gate of the wrong dimension, preserve_position=False": at(ctx.integer(0, N), lambda x: x.applyOneSiteGate(g1(ds[s] + k), s, False)),
        "applyTwoSiteGate(gate,%d)" % (out - 1): lambda x: x.applyTwoSiteGate(g2(ds[-1], ds[-1]), out - 1),
        "applyTwoSiteGate(gate,%d)" % neg: lambda x: x.applyTwoSiteGate(g2(ds[neg % N], ds[(neg + 1) % N]), neg),
        "two-site gate of the wrong left dimension": lambda x: x.applyTwoSiteGate(g2(ds[b] + k, ds[b + 1]), b, *ctx.pick((), (2,))),
        "two-site gate of the wrong right dimension": lambda x: x.applyTwoSiteGate(g2(ds[b], ds[b + 1] + k), b, *ctx.pick((), (2,))),
        "two-site gate as a matrix": lambda x: x.applyTwoSiteGate(g1(ds[b] * ds[b + 1]), b),
        "measure at sites %s" % unsorted: lambda x: x.measure([g1(ds[n]) for n in unsorted], unsorted),
        "measure at sites [%d,0]" % neg: lambda x: x.measure([g1(ds[neg % N]), g1(ds[0])], [neg, 0]),
        "measure at site %d" % neg: lambda x: x.measure([g1(ds[neg % N])], [neg]),
        "measure at sites [0,%d]" % out: lambda x: x.measure([g1(ds[0]), g1(ds[-1])], [0, out]),
        "measure with too few operators": lambda x: x.measure(ops2[:1], sp),
        "measure with too many operators": lambda x: x.measure(ops2 + [g1(ds[sp[1]])], sp),
        "measure with too few Jordan-Wigner operators": lambda x: x.measure(ops2, sp, P=[np.eye(d) for d in ds[:-1]]),
        "measure with too many Jordan-Wigner operators": lambda x: x.measure(ops2, sp, P=[np.eye(d) for d in ds + [2]]),
        "measureList with too few operators": lambda x: x.measureList([g1(d) for d in ds[:-1]]),
        "measureList with too many operators": lambda x: x.measureList([g1(d) for d in ds] + [g1(2)]),
        "measureList with operators of the wrong dimension": lambda x: x.measureList([g1(d) for d in long_ds]),
        "measureMatrixElementList with a state of another length": lambda x: x.measureMatrixElementList(other, [g1(d) for d in ds]),
        "measureMatrixElementList with too few operators": lambda x: x.measureMatrixElementList(m.copy(), [g1(d) for d in ds[:-1]]),
        "applyMPO with a shorter MPO": lambda x: x.applyMPO(mpo(ds[:-1])),
        "applyMPO with a longer MPO": lambda x: x.applyMPO(mpo(ds + [2])),
        "applyMPO with the wrong dimension at one site": lambda x: x.applyMPO(mpo(long_ds)),
        "m[%d]" % out: lambda x: x[out],
        "m[%d]" % (-N - k): lambda x: x[-N - k],
        "m[%d]=.." % out: lambda x: x.__setitem__(out, ctx.array((1, 1, 2), dt)),
        "m[%d]=.." % (-N - k): lambda x: x.__setitem__(-N - k, ctx.array((1, 1, 2), dt)),
        "ortho(%d,1)" % out: lambda x: x.ortho(out, 1),
        "dot with a state of another length": lambda x: x.dot(other),
        "dot of a state of another length": lambda x: other.dot(x),
        "sum of a state of another length": lambda x: other + x,
        "dot with a state of other local dimensions": lambda x: x.dot(wide),
        "sum with a state of another length": lambda x: x + other,
        "difference with a state of other local dimensions": lambda x: x - wide,
        "+= of a state of another length": lambda x: x.__iadd__(other),
        "+= of a state of other local dimensions": lambda x: x.__iadd__(wide),
        "product with a string": lambda x: x * "x",
        "quotient by a list": lambda x: x / [1.0],
        "*= None": lambda x: x.__imul__(None),
        "/= of an array": lambda x: x.__idiv__(np.ones(2)),
        "loading a file that does not exist": lambda x: x.load(os.path.join(ctx.scratch, "no", "such")),
        "loading a corrupt file": lambda x: x.load(name),
        "loading a truncated file": lambda x: x.load(os.path.join(ctx.scratch, "cut")),
        "saving into a directory that does not exist": lambda x: x.save(os.path.join(ctx.scratch, "no", "such")),
    }
    if far:
        q = ctx.pick(*far)
        calls["tensor(%d) at centre %d" % (q, p)] = at(p, lambda x: x.tensor(q))
    for what in sorted(calls):
        x = m.copy()
        x.position(ctx.integer(0, N))
        refused(ctx, "%s (%d sites, local dimensions %s)" % (what, N, ds), lambda: calls[what](x))
        # the object is still the same state, and still usable
        ctx.close(dense.vec(x), v, "state after the refused call: " + what, tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
        ctx.check(gen.canonical_errors(x) < 1e-8, "canonical form lost by the refused call: " + what)
        x.position(ctx.integer(0, N))
        ctx.close(dense.vec(x), v, "centre move after the refused call: " + what, tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
        ctx.sig(what.split("(")[0], N, x.pos)
    ctx.count("states probed")


def functions(ctx):
    """list-level functions, propagators, transfer operators"""
    N, D, d, k = ctx.integer(2, 5), ctx.integer(2, 4), ctx.integer(2, 3), ctx.integer(1, 2)
    dt = gen.dtype(ctx)
    Mw = ctx.integer(1, 3)
    A, B = ctx.array((D, D, d), dt), ctx.array((D, D, d), dt)
    W = ctx.array((Mw, Mw, d, d), dt)
    L, R = ctx.array((D, D, Mw), dt), ctx.array((D, D, Mw), dt)
    mat = ctx.array((D, D), dt)
    op = ctx.array((d, d), dt)
    cell = mpslib.MPS.random(N=ctx.integer(2, 3), D=D, d=d, obc=False, dtype=dt)
    ts = [ctx.array((1 if n == 0 else D, 1 if n == N - 1 else D, d), dt) for n in range(N)]
    wide = [ctx.array(t.shape[:2] + (d + k,), dt) for t in ts]
    one = np.ones((1, 1, 1))
    uneven = ctx.array((D, D + k, d), dt)
    drn = ctx.pick(1, -1)
    s2 = ctx.integer(0, N - 2)
    s1 = ctx.integer(s2 + 1, N - 1)
    calls = {
        "overlap of lists of different length": lambda: mf.overlap(ts, ts[:-1]),
        "overlap of lists of different length (second longer)": lambda: mf.overlap(ts[:-1] + [ts[-1]], ts[:-1] + [A] + ts[-1:]),
        "overlap of lists of different length (first longer)": lambda: mf.overlap(ts[:-1] + [A] + ts[-1:], ts),
        "overlap with an open left bond (first)": lambda: mf.overlap([A] + ts[1:], ts),
        "overlap with an open left bond (second)": lambda: mf.overlap(ts, [A] + ts[1:]),
        "overlap with an open right bond (first)": lambda: mf.overlap(ts[:-1] + [A], ts),
        "overlap with an open right bond (second)": lambda: mf.overlap(ts, ts[:-1] + [A]),
        "overlap of different local dimensions": lambda: mf.overlap(ts, wide),
        "addMPS of different lengths": lambda: mf.addMPS(ts, 1.0, ts[:-1], 1.0, obc=ctx.flag()),
        "addMPS with a longer second state": lambda: mf.addMPS(ts[:-1], 1.0, ts, 1.0, obc=ctx.flag()),
        "addMPS of different local dimensions": lambda: mf.addMPS(ts, 1.0, wide, 1.0, obc=ctx.flag()),
        "measureLocal with too few operators": lambda: mf.measureLocal(ts, [op] * (N - 1), one, one, "left"),
        "measureLocal with too many operators": lambda: mf.measureLocal(ts, [op] * (N + k), one, one, ctx.pick("left", "right")),
        "measureLocal with an operator of the wrong dimension": lambda: mf.measureLocal(ts, [op] * (N - 1) + [np.ones((d + k, d + k))], one, one, ctx.pick("left", "right")),
        "measureLocal with an unknown gauge": lambda: mf.measureLocal(ts, [op] * N, one, one, "up"),
        "matrixElementLocal of different lengths": lambda: mf.matrixElementLocal(ts, ts[:-1], [op] * N, one, one),
        "matrixElementLocal with too few operators": lambda: mf.matrixElementLocal(ts, ts, [op] * (N - 1), one, one),
        "matrixElementLocal with too many operators": lambda: mf.matrixElementLocal(ts, ts, [op] * (N + k), one, one),
        "matrixElementLocal with a longer second state": lambda: mf.matrixElementLocal(ts[:-2] + [ts[-1]], ts, [op] * (N - 1), one, one),
        "applyMPO with a longer MPO": lambda: mf.applyMPO(ts, [ctx.array((1, 1, d, d), dt) for _ in range(N + k)]),
        "applyMPO with another length": lambda: mf.applyMPO(ts, [W] * (N - 1)),
        "in-place applyMPO with another length": lambda: mf.applyMPO(ts, [W] * (N + 1), inplace=True),
        "in-place applyMPO with the wrong dimension at one site":
            lambda: mf.applyMPO(ts, [ctx.array((1, 1, d + (k if n == s1 else 0), d), dt) for n in range(N)], inplace=True),
        "orthonormalizeSVD before the start": lambda: mf.orthonormalizeSVD(ts, drn, -1, N - 1),
        "contractMPO(site2<site1)": lambda: mf.contractMPO([A] * N, [B] * N, [W] * N, L, s1, s2, drn),
        "contractE(site2<site1)": lambda: mf.contractE([A] * N, [B] * N, mat, s1, s2, drn),
        "measure4pointCorrelation with three operators": lambda: mf.measure4pointCorrelation(cell, [op] * 3),
        "prepareTensor(direction=0)": lambda: mf.prepareTensor(A, 0),
        "prepareTensorSVD(direction=0)": lambda: mf.prepareTensorSVD(A, 0),
        "prepareTruncate(direction=0)": lambda: mf.prepareTruncate(A, 0, D=2),

        "orthonormalizeQR(direction=0)": lambda: mf.orthonormalizeQR(ts, 0, 0, N - 1),
        "orthonormalizeSVD(direction=0)": lambda: mf.orthonormalizeSVD(ts, 0, 0, N - 1),
        "orthonormalizeQR past the end": lambda: mf.orthonormalizeQR(ts, drn, 0, N),
        "orthonormalizeSVD past the end": lambda: mf.orthonormalizeSVD(ts, drn, 0, N),
        "orthonormalizeQR before the start": lambda: mf.orthonormalizeQR(ts, drn, -1, N - 1),
        "MPSinitializer for one open site": lambda: mf.MPSinitializer(np.ones, 1, D, d, True),
        "productState with a zero local state": lambda: mpslib.MPS.productState([np.zeros(d)] + [np.ones(d)] * (N - 1), True),
        "FinegrainDolfi with d=3": lambda: mf.FinegrainDolfi([ctx.array((D, D, 3), dt)]),
        "TransferOperator of a string": lambda: mf.TransferOperator(drn, "x", np.ones(D * D)),
        "TransferOperator of a unit cell": lambda: mf.TransferOperator(drn, cell, np.ones(D * D)),
        "MixedTransferOperator of strings": lambda: mf.MixedTransferOperator(drn, "x", A, np.ones(D * D)),
        "MixedTransferOperator of unit cells": lambda: mf.MixedTransferOperator(drn, A, cell, np.ones(D * D)),
        "MixedTransferOperator of unit cells (first)": lambda: mf.MixedTransferOperator(drn, cell, A, np.ones(D * D)),
        "TransferOperator on a vector of the wrong size": lambda: mf.TransferOperator(drn, A, np.ones(D * D + k)),
        "MixedUnitcellTransferOperator of different lengths": lambda: mf.MixedUnitcellTransferOperator(drn, [A, A], [B], np.ones(D * D)),
        "TMeigs of a unit cell": lambda: mf.TMeigs(cell, drn, 1),
        "TMeigs of a non-square tensor": lambda: mf.TMeigs(uneven, drn, 1),
        "UnitcellTMeigs of a non-square cell": lambda: mf.UnitcellTMeigs([A, uneven], drn, 1),
        "MixedUnitcellTMeigs of different lengths": lambda: mf.MixedUnitcellTMeigs([A, A], [B], drn, 1),
        "computeDensity of a string": lambda: mf.computeDensity(mat, "x", drn),
        "canonizeMPS of a string": lambda: mf.canonizeMPS("x"),
        "canonizeMPS with inconsistent boundaries": lambda: mf.canonizeMPS([uneven, ctx.array((D + k, D + 1, d), dt)]),
        "evolveTensorSexpmv with tau='x'": lambda: mf.evolveTensorSexpmv(L, W, R, A, "x"),
        "evolveMatrixSexpmv with tau='x'": lambda: mf.evolveMatrixSexpmv(L, R, mat, "x"),
        "evolveTensorsolve_ivp with tau='x'": lambda: mf.evolveTensorsolve_ivp(L, W, R, A, "x"),
        "evolveMatrixsolve_ivp with tau='x'": lambda: mf.evolveMatrixsolve_ivp(L, R, mat, "x"),
        "evolveTensorsolve_ivp with an unknown method": lambda: mf.evolveTensorsolve_ivp(L, W, R, A, -0.1j, method="foo"),
        "SFwick with unequal numbers of operators": lambda: utils.SFwick(ctx.herm(4), [0, 1], [2]),
        "SBwick with unequal numbers of operators": lambda: utils.SBwick(ctx.herm(4), [0], [2, 3]),
        "Lanczos with Ndiag=0": lambda: lz.LanczosEngine(lambda x: x, lambda x, y: np.dot(x, y), np.zeros, 0, 3, 1, 1e-8, 1e-8),
        "bisection without a change of sign": lambda: utils.bisection(lambda x: x * x + 1.0, -1.0, 1.0),
        "bisection on a reversed interval": lambda: utils.bisection(lambda x: x, 1.0, -1.0),
        "Lanczos for more vectors than Krylov dimension": lambda: lz.LanczosEngine(lambda x: x, lambda x, y: np.dot(x, y), np.zeros, 10, 2, 3, 1e-8, 1e-8),
    }
    keep = [np.array(t) for t in ts]
    for what in sorted(calls):
        refused(ctx, what, calls[what])
        ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, keep)) and len(ts) == N, "tensors changed by the refused call: " + what)
        ctx.sig(what, N, D)
    ctx.count("argument sets probed")


def engines(ctx):
    """constructors and runs of the finite engines"""
    N = ctx.integer(3, 5)
    mpo = H.TFI(ctx.array((N - 1,), float), ctx.array((N,), float), True)
    longer = H.TFI(ctx.array((N,), float), ctx.array((N + 1,), float), True)
    shorter = H.TFI(ctx.array((N - 2,), float), ctx.array((N - 1,), float), True)
    periodic = H.TFI(ctx.array((N,), float), ctx.array((N,), float), False)
    m, _, v = gen.state(ctx, [2] * N)
    m3, _, v3 = gen.state(ctx, [3] * N)
    cell = mpslib.MPS.random(N=N, D=3, d=2, obc=False)
    name = os.path.join(ctx.scratch, "x")
    T = en.TimeEvolutionEngine
    kinds = {"DMRG": lambda x, w: en.DMRGengine(x, w, name), "TDVP": lambda x, w: T.TDVP(x, w, name), "TEBD": lambda x, w: T.TEBD(x, w, name)}
    bad = ctx.pick(-1, N + 1, N + 2)
    ops = [ctx.herm(2) for _ in range(N)]
    for kind in sorted(kinds):
        mk = kinds[kind]
        calls = {
            "an MPO of more sites": lambda x: mk(x, longer),
            "an MPO of fewer sites": lambda x: mk(x, shorter),
            "a periodic MPO": lambda x: mk(x, periodic),
            "position(%d)" % bad: lambda x: mk(x, mpo).position(bad),
            "measureLocal with too few operators": lambda x: mk(x, mpo).measureLocal(ops[:-1]),
            "measureLocal with too many operators": lambda x: mk(x, mpo).measureLocal(ops + ops[:1]),
            "boundaries of the wrong dimension": lambda x: (en.DMRGengine if kind == "DMRG" else T)(x, mpo, name, np.ones((2, 2, 1)), np.ones((1, 1, 1))),
            "boundaries of the wrong MPO dimension": lambda x: (en.DMRGengine if kind == "DMRG" else T)(x, mpo, name, np.ones((1, 1, 1)), np.ones((1, 1, 3))),
        }
        if kind == "DMRG":
            calls["an unknown solver"] = lambda x: mk(x, mpo).simulate(solver="foo", cp=None)
            calls["an unknown two-site solver"] = lambda x: mk(x, mpo).simulateTwoSite(solver="foo", cp=None)
            calls["an unknown local solver"] = lambda x: mk(x, mpo).optimize(0, solver="foo")
        elif kind == "TDVP":
            calls["an unknown solver"] = lambda x: mk(x, mpo).doTDVP(0.1, 2, solver="foo", verbose=0)
            calls["a step that is not a number"] = lambda x: mk(x, mpo).doTDVP("a", 2, solver="SEXPMV", verbose=0)
        else:
            calls["a step that is not a number"] = lambda x: mk(x, mpo).doTEBD("a", 2, 10, 1e-10, verbose=0)
        for what in sorted(calls):
            x = m.copy()
            refused(ctx, "%s engine with %s (%d sites)" % (kind, what, N), lambda: calls[what](x))
            ctx.close(dense.vec(x), v, "state after %s engine refused %s" % (kind, what), tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
            ctx.check(gen.canonical_errors(x) < 1e-8, "canonical form lost: %s engine refused %s" % (kind, what))
            ctx.sig(kind, what, N)
        x = m3.copy()
        refused(ctx, "%s engine with other local dimensions" % kind, lambda: mk(x, mpo))
        ctx.close(dense.vec(x), v3, "state after %s engine refused its local dimensions" % kind, tol=1e-9, scale=np.linalg.norm(v3) * 1e-3)
        refused(ctx, "%s engine with an infinite state" % kind, lambda: mk(cell, mpo))
    # a refused run leaves the engine usable
    x = m.copy()
    e = ctx.pick(*(sorted(kinds)))
    eng = kinds[e](x, mpo)
    w0 = dense.vec(eng.mps)
    if e == "DMRG":
        refused(ctx, "unknown solver", lambda: ctx.pick(eng.simulate, eng.simulateTwoSite)(solver="foo", cp=None))
    elif e == "TDVP":
        refused(ctx, "unknown solver", lambda: eng.doTDVP(0.1, 2, solver="foo", verbose=0))
        ctx.check(eng.iteration == 0 and eng.time == 0, "refused TDVP run advanced the clock")
    else:
        refused(ctx, "bad step", lambda: eng.doTEBD("a", 2, 10, 1e-10, verbose=0))
    ctx.close(dense.vec(eng.mps), w0, "state of the %s engine after a refused run" % e, tol=1e-9, scale=np.linalg.norm(w0) * 1e-3)
    got = np.asarray(eng.measureLocal(ops))
    ctx.check(got.shape == (N,), "measureLocal after a refused run")
    ctx.count("engines probed")


CASES = [("state-calls", state_calls, 60, 1000), ("functions", functions, 60, 1000), ("engines", engines, 40, 600)]
