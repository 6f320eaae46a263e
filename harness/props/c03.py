"""C03: centre moves never change the state."""
import numpy as np
import dtypes
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("random finite states (length 2-6, mixed local dimensions, flat/irregular/size-1/maximal bonds, plain, rank-deficient, decaying and "
        "sparse tensors, real/complex, several norms and phases) driven through random histories of position/getSchmidt/tensor/tolist "
        "with the dense vector recomputed after every step; distinct by state configuration and history; long chains of 9-40 sites against contraction references of the harness; tensors in every number type")
ASSUMPTIONS = ["dense vector recomputed from the tensors, the centre matrix and the scalar factor by the harness"]


def same(ctx, m, v, what, tol=1e-9):
    ctx.close(dense.vec(m), v, what + ": represented vector", tol=tol, scale=np.linalg.norm(v) * 1e-3)


def history(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    same(ctx, m, v, "initial sweep")
    for step in range(ctx.integer(3, 9)):
        op = ctx.pick("pos", "pos", "pos", "schmidt", "tensor", "tolist", "props")
        b = ctx.integer(0, N)
        if op == "pos":
            m.position(b)
            ctx.check(m.pos == b, "position(%d) left the centre at %d" % (b, m.pos))
        elif op == "schmidt":
            s = m.getSchmidt(b)
            ref = dense.schmidt(v, ds, b)
            k = min(len(s), len(ref))
            ctx.close(np.asarray(s)[:k], ref[:k], "getSchmidt(%d)" % b, tol=1e-8, scale=1.0)
            ctx.check(np.all(np.abs(np.asarray(s)[k:]) < 1e-8) and np.all(np.abs(ref[k:]) < 1e-8),
                      "getSchmidt(%d): wrong number of non-zero coefficients: %s vs %s" % (b, s, ref))
            ctx.count("Schmidt spectra compared")
        elif op == "tensor":
            p = m.pos
            sites = [x for x in (p - 1, p) if 0 <= x < N]
            site = ctx.pick(*sites)
            t = m.tensor(site)
            ts = [np.array(x) for x in m.tensors]
            ts[site] = np.asarray(t)
            ctx.close(dense.lvec(ts) * m._Z, v, "tensor(%d) at centre %d" % (site, p), tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
        elif op == "tolist":
            ctx.close(dense.lvec(m.tolist()) * m._Z, v, "tolist() at centre %d" % m.pos, tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
        else:
            ctx.check(list(m.d) == list(ds), "d: %s vs %s" % (m.d, ds))
            ctx.check(list(m.D) == [t.shape[0] for t in m.tensors] + [m.tensors[-1].shape[1]], "D property")
            ctx.check(len(m) == N and len(list(m)) == N and m.obc is True, "len/iter/obc")
            n, dr = ctx.integer(0, N - 1), ctx.pick(1, -1)
            t = m.tensors[n]
            g = np.einsum("abs,acs->bc", t, np.conj(t)) if dr > 0 else np.einsum("abs,cbs->ac", t, np.conj(t))
            dev = np.linalg.norm(g - np.eye(len(g)))
            ctx.close(float(m.ortho(n, dr)), dev, "ortho(%d,%d)" % (n, dr), tol=1e-8, scale=max(1.0, dev))
            t = np.asarray(m[n])
            ctx.check(np.array_equal(t, m.tensors[n]), "m[%d] is not the tensor of that site" % n)
        same(ctx, m, v, "after %s(%s)" % (op, b))
        ctx.count("history steps")
        e = gen.canonical_errors(m)
        ctx.check(e < 1e-9, "canonical form violated after %s(%d): %.1e" % (op, b, e))
        ctx.close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix after %s(%d)" % (op, b), tol=1e-10)
        ctx.close(abs(m._Z), np.linalg.norm(v), "norm stored after %s" % op, tol=1e-8)


def unswept(ctx):
    """the first sweep over an arbitrary unnormalised MPS, from any centre and with a given centre matrix"""
    ds = gen.dims(ctx)
    N = len(ds)
    b = gen.bonds(ctx, ds)
    dt = gen.dtype(ctx)
    ts = gen.tensors(ctx, ds, b, dt, scale=ctx.pick(1.0, 0.01, 30.0))
    m = mpslib.MPS(ts)
    m._Z = 1.0
    v = dense.lvec(ts)
    order = [0, N] if ctx.flag() else [ctx.integer(0, N) for _ in range(3)] + [0, N]
    for p in order:
        m.position(p)
        same(ctx, m, v, "sweep %s at %d" % (order, p))
    ctx.check(gen.canonical_errors(m) < 1e-9, "not canonical after %s" % order)
    m.position(ctx.integer(0, N))
    same(ctx, m, v, "sweep %s" % order)
    ctx.check(gen.canonical_errors(m) < 1e-9, "not canonical after %s" % order)
    ctx.sig(str(ds), str(b), np.dtype(dt).name, str(order))


def constructors(ctx):
    ds = gen.dims(ctx)
    N = len(ds)
    dt = gen.dtype(ctx)
    which = ctx.pick("random", "ones", "product", "fromList", "fromListMat", "init")
    D = ctx.integer(1, 6)
    d_arg = ds if (len(set(ds)) > 1 or ctx.flag()) else int(ds[0])
    if which in ("random", "ones"):
        f = mpslib.MPS.random if which == "random" else mpslib.MPS.ones
        m = f(N, D, d_arg, True, dtype=dt)
        v = dense.vec(m)
        ctx.close(np.linalg.norm(v), 1.0, which + ": norm", tol=1e-9)
        if which == "ones" and dt is float:
            w = np.ones(int(np.prod(ds)))
            ctx.close(v, w / np.linalg.norm(w) * np.sign(v[0]), "ones: state", tol=1e-9)
        ctx.check(max(m.D) <= D, "%s: bond dimension %s exceeds %d" % (which, m.D, D))
        if which == "random" and N > 2 and D <= min(ds):
            # generic random tensors have full rank: all requested bonds are used
            ctx.check(max(m.D) == D, "random: bond dimensions %s, requested %d" % (m.D, D))
    elif which == "product":
        loc = [ctx.array(d, dt) for d in ds]
        if ctx.flag():
            loc = [np.asarray(x / np.linalg.norm(x)) for x in loc]
        loc0 = [x.copy() for x in loc]
        m = mpslib.MPS.productState(loc, True, dtype=dt) if ctx.flag() else mpslib.MPS.productState(loc, True)
        w = np.ones(1)
        for x in loc:
            w = np.kron(w, x)
        ctx.close(dense.vec(m), w, "productState", tol=1e-10)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(loc, loc0)), "productState changed its input")
        m.position(0)
        ctx.close(dense.vec(m), w, "productState after a sweep", tol=1e-9)
        m.position(N)
    elif which in ("fromList", "fromListMat"):
        b = gen.bonds(ctx, ds)
        ts = gen.tensors(ctx, ds, b, dt)
        v = dense.lvec(ts)
        ts0 = [t.copy() for t in ts]
        if which == "fromList":
            m = mpslib.MPS.fromList(ts)
        else:
            mat = np.array([[ctx.pick(1.0, -2.0, 0.5)]])
            v = v * mat[0, 0]
            m = mpslib.MPS.fromList(ts, mat)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, ts0)), "fromList changed its input")
        w = dense.vec(m)
        ctx.close(w, v / np.linalg.norm(v), which + ": normalised state", tol=1e-9)
    else:
        b = gen.bonds(ctx, ds)
        ts = gen.tensors(ctx, ds, b, dt)
        m = mpslib.MPS(ts)
        m.resetZ()
        ctx.close(dense.vec(m), dense.lvec(ts), "MPS(tensors)", tol=1e-10)
        m.position(0)
        m.position(N)
    ctx.check(list(m.d) == list(ds) and len(m) == N, "%s: dimensions %s" % (which, m.d))
    ctx.check(np.dtype(m.dtype) == np.dtype(dt), "%s: dtype %s, requested %s" % (which, m.dtype, dt))
    if dt is complex and which == "random":
        ctx.check(max(np.max(np.abs(np.imag(t))) for t in m.tensors) > 1e-3, "random complex state has no imaginary part")
    ctx.check(m.obc is True, "obc flag")
    ctx.check(gen.canonical_errors(m) < 1e-9 or which == "init", which + ": not canonical")
    ctx.sig(which, str(ds), D, np.dtype(dt).name)


def tensor_clear(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    p = m.pos
    site = ctx.pick(*[x for x in (p - 1, p) if 0 <= x < N])
    t = m.tensor(site, clear=True)
    ctx.close(np.linalg.norm(m._mat), 1.0, "clear=True leaves a normalised centre matrix", tol=1e-10)
    k = np.shape(t)[0 if site == p else 1]
    ctx.check(m._mat.shape == (k, k), "clear=True at site %d, centre %d: centre matrix %s on a bond of dimension %d" % (site, p, m._mat.shape, k))
    ctx.check(m._mat.shape == (k, k) and np.allclose(m._mat, np.eye(k) / np.sqrt(k)), "clear=True: centre matrix is not the normalised identity")
    ts = [np.array(x) for x in m.tensors]
    ts[site] = np.asarray(t)
    ctx.close(dense.lvec(ts) * m._Z, v, "tensor(clear=True)", tol=1e-9, scale=np.linalg.norm(v) * 1e-3)
    if np.shape(t) != m.tensors[site].shape:
        # rectangular centre matrix: the object is a state once the tensor is put back, as the engines do
        m[site] = t
    # the cleared object is still a state
    w = dense.vec(m)
    q = ctx.integer(0, N)
    m.position(q)
    ctx.close(dense.vec(m), w, "position(%d) after tensor(%d, clear=True) with the centre at %d" % (q, site, p), tol=1e-9)


def schmidt_all(ctx):
    """complete entanglement spectrum along the chain, against the dense SVD; also entanglement of copies"""
    m, ds, v = gen.state(ctx, style=ctx.pick("plain", "rank", "decay"))
    for n in ctx.rng.permutation(len(ds) + 1):
        n = int(n)
        s = np.asarray(m.getSchmidt(n))
        ref = dense.schmidt(v, ds, n)
        ref = np.concatenate([ref, np.zeros(max(0, len(s) - len(ref)))])
        ctx.check(np.all(np.diff(s) <= 1e-12), "getSchmidt(%d) is not descending: %s" % (n, s))
        ctx.close(s, ref[:len(s)], "getSchmidt(%d)" % n, tol=1e-8, scale=1.0)
        ctx.close(np.sum(s ** 2), 1.0, "getSchmidt(%d): normalisation" % n, tol=1e-9)
        ctx.count("Schmidt spectra compared")
    same(ctx, m, v, "after all getSchmidt")


CASES = [("history", history, 500, 12000), ("first-sweep", unswept, 300, 5000), ("constructors", constructors, 300, 5000),
         ("number-types", dtypes.tensors, 80, 1500), ("tensor-clear", tensor_clear, 100, 1500), ("schmidt", schmidt_all, 150, 3000),
         ("long-moves", long.moves, 40, 800)]
