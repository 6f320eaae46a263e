"""C09: MPO application against dense matrices."""
import numpy as np
import dtypes
import dense, long, gen
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import workloads

RULE = ("random finite MPS (mixed local dimensions, norms, centres, dtypes) and random MPOs (random bond dimensions, real/complex, also with "
        "different input and output dimensions at list level) as well as the model Hamiltonians; long chains of 9-40 sites against contraction references of the harness; MPOs in every number type")
ASSUMPTIONS = ["MPO boundary legs have dimension one (finite systems)"]


def random_mpo(ctx, ds, dout=None, dt=None):
    dt = dt or gen.dtype(ctx)
    dout = dout or ds
    N = len(ds)
    M = [1] + [ctx.integer(1, 4) for _ in range(N - 1)] + [1]
    return [ctx.array((M[n], M[n + 1], ds[n], dout[n]), dt) for n in range(N)]


def method(ctx):
    m, ds, v = gen.state(ctx, maxdim=250, Dmax=4)
    N = len(ds)
    nm = [ctx.pick("random", "model") if all(d == 2 for d in ds) and N > 2 else "random" for _ in range(2)]
    for rep in range(2):
        o = random_mpo(ctx, ds) if nm[rep] == "random" else workloads.model(ctx, N)[0]
        ts0 = [np.copy(o[n]) for n in range(N)]
        O = dense.mpo_dense(ts0)
        D0, p0 = m.D, m.pos
        m.applyMPO(o)
        v = dense.apply(O, v)
        if np.linalg.norm(v) < 1e-8:
            return
        ctx.close(dense.vec(m), v, "applyMPO (centre %d)" % p0, tol=1e-8)
        ctx.check(all(np.array_equal(a, o[n]) for n, a in enumerate(ts0)), "applyMPO changed the MPO")
        sh = [t.shape for t in m.tensors]
        ctx.check(sh[0][0] == 1 and sh[-1][1] == 1 and all(sh[n][1] == sh[n + 1][0] for n in range(N - 1)), "bonds do not match: %s" % sh)
        m1 = m.copy()
        p = ctx.integer(0, N)
        m1.position(0)
        m1.position(N)
        m1.position(p)
        ctx.close(dense.vec(m1), v, "applyMPO followed by sweeps", tol=1e-8)
        ctx.check(gen.canonical_errors(m1) < 1e-7, "state not canonical after sweeping")
        ctx.close(m1.dot(m1), np.linalg.norm(v) ** 2, "norm after applyMPO", tol=1e-7)
        if rep == 0 and ctx.flag():
            m = m1
        ctx.count("MPO applications")
    ctx.sig(nm, N, str(ds))


def bond_products(ctx):
    m, ds, v = gen.state(ctx, maxdim=250, Dmax=4)
    N = len(ds)
    m.position(0)
    sh = [t.shape for t in m.tensors]
    o = random_mpo(ctx, ds)
    m.applyMPO(o)
    want = [(a[0] * w.shape[0], a[1] * w.shape[1], a[2]) for a, w in zip(sh, o)]
    ctx.check([t.shape for t in m.tensors] == want, "tensor shapes %s, expected %s" % ([t.shape for t in m.tensors], want))
    ctx.sig(str(want))


def lists(ctx):
    ds = gen.dims(ctx, maxdim=250)
    N = len(ds)
    dt = gen.dtype(ctx)
    ts = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 4), dt)
    dout = [ctx.integer(1, 3) for _ in ds] if ctx.flag(0.4) else ds
    if np.prod(dout) > 300:
        dout = ds
    o = random_mpo(ctx, ds, dout)
    v = dense.apply(dense.mpo_dense(o), dense.lvec(ts))
    t0, o0 = [t.copy() for t in ts], [w.copy() for w in o]
    out = mf.applyMPO(ts, o) if ctx.flag() else mf.applyMPO(ts, o, inplace=False)
    ctx.close(dense.lvec(out), v, "mpsfunctions.applyMPO", tol=1e-9)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "applyMPO changed its input")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(o, o0)), "applyMPO changed the MPO")
    want = [(a.shape[0] * w.shape[0], a.shape[1] * w.shape[1], w.shape[3]) for a, w in zip(t0, o)]
    ctx.check([t.shape for t in out] == want, "tensor shapes")
    for t in out:
        t *= 2.0 if np.ndim(t) else 1.0
    ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "the result shares memory with the input")
    # in place, twice
    r = mf.applyMPO(ts, o, inplace=True)
    ctx.close(dense.lvec(ts), v, "applyMPO in place", tol=1e-9)
    ctx.check(r is ts or all(np.array_equal(a, b) for a, b in zip(r, ts)), "in-place result is not the input list")
    o2 = random_mpo(ctx, dout)
    mf.applyMPO(ts, o2, inplace=True)
    ctx.close(dense.lvec(ts), dense.apply(dense.mpo_dense(o2), v), "second applyMPO", tol=1e-8)
    ctx.sig(str(ds), str(dout), np.dtype(dt).name)


def expectation(ctx):
    """<psi|H|psi> computed by applying the MPO agrees with the network contraction and the dense value"""
    N = ctx.integer(3, 7)
    o, d = workloads.model(ctx, N)
    m, ds, v = gen.state(ctx, ds=[d] * N)
    O = dense.mpo_dense([o[n] for n in range(N)])
    x = m.copy()
    x.applyMPO(o)
    x.position(0)
    x.position(N)
    e = dense.expect(O, v)
    sc = np.linalg.norm(v) ** 2 * np.linalg.norm(O, 2)
    ctx.close(x.dot(m), e, "<psi|H|psi> through applyMPO", tol=1e-9, scale=sc)
    ctx.close(x.dot(x), np.linalg.norm(dense.apply(O, v)) ** 2, "<psi|H^2|psi> through applyMPO", tol=1e-9, scale=sc * np.linalg.norm(O, 2))
    ctx.close(dense.vec(m), v, "source state", tol=1e-9)
    ctx.sig(N, str(type(o)))


CASES = [("method", method, 250, 4000), ("bonds", bond_products, 80, 1000), ("number-types", dtypes.mpo, 100, 2000), ("lists", lists, 300, 5000), ("expectation", expectation, 120, 2000),
         ("long-mpo", long.mpo, 40, 800)]
