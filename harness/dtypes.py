"""operators, gates, MPOs and tensors given in the number types users write down: integers, booleans, single precision, mixed lists."""
import numpy as np
import dense, gen
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H

TYPES = [np.int64, np.int32, np.int8, bool, np.float32, np.complex64, float, complex]


def numbers(ctx, shape, kind=None):
    """(array in its own number type, the same numbers in double precision)"""
    t = kind or ctx.pick(*TYPES)
    if t is bool:
        x = ctx.rng.randint(0, 2, shape).astype(bool)
        if not x.any():
            x.flat[ctx.integer(0, x.size - 1)] = True
    elif np.issubdtype(t, np.integer):
        x = ctx.rng.randint(-3, 4, shape).astype(t)
        if not x.any():
            x.flat[ctx.integer(0, x.size - 1)] = 2
    else:
        x = ctx.array(shape, complex if np.issubdtype(t, np.complexfloating) else float).astype(t)
    ctx.sig("type", np.dtype(t).name)
    ctx.count("operands in " + np.dtype(t).name)
    return x, x.astype(complex) if np.iscomplexobj(x) else x.astype(float)


def local(ctx):
    m, ds, v = gen.state(ctx)
    nv = np.linalg.norm(v) ** 2
    pairs = [numbers(ctx, (d, d)) for d in ds]
    want = [dense.expect(dense.embed(b, s, ds), v) for s, (_, b) in enumerate(pairs)]
    sc = nv * max(np.linalg.norm(b) for _, b in pairs) + 1e-12
    for s in range(len(ds)):
        ctx.close(m.measureLocal(pairs[s][0], s), want[s], "measureLocal of a %s operator" % pairs[s][0].dtype, tol=1e-5 if pairs[s][0].dtype.itemsize < 8 else 1e-9, scale=sc)
    # one number type per list keeps the precision of the list well defined; mixed lists are judged to single precision
    ctx.close(np.asarray(m.measureList([a for a, _ in pairs])), want, "measureList of mixed number types", tol=1e-5, scale=sc)
    t = ctx.pick(np.int64, np.int8, bool)
    pairs = [numbers(ctx, (d, d), t) for d in ds]
    want = [dense.expect(dense.embed(b, s, ds), v) for s, (_, b) in enumerate(pairs)]
    sc = nv * max(np.linalg.norm(b) for _, b in pairs) + 1e-12
    ctx.close(np.asarray(m.measureList([a for a, _ in pairs])), want, "measureList of %s operators" % np.dtype(t).name, tol=1e-9, scale=sc)
    o, ds2, w = gen.state(ctx, ds)
    got = np.asarray(m.measureMatrixElementList(o, [a for a, _ in pairs]))
    ctx.close(got, [(v @ dense.embed(b, s, ds)) @ np.conj(w) for s, (_, b) in enumerate(pairs)], "measureMatrixElementList of %s operators" % np.dtype(t).name,
              tol=1e-9, scale=np.sqrt(nv) * np.linalg.norm(w) * max(np.linalg.norm(b) for _, b in pairs) + 1e-12)
    ctx.close(dense.vec(m), v, "state after measuring", tol=1e-9, scale=np.sqrt(nv))


def correlators(ctx):
    m, ds, v = gen.state(ctx)
    nv = np.linalg.norm(v) ** 2
    for _ in range(3):
        k = ctx.integer(1, min(3, len(ds)))
        sites = sorted(int(x) for x in ctx.rng.permutation(len(ds))[:k])
        pairs = [numbers(ctx, (ds[s], ds[s])) for s in sites]
        full = [np.eye(d) for d in ds]
        for s, (_, b) in zip(sites, pairs):
            full[s] = b
        single = any(a.dtype in (np.float32, np.complex64) for a, _ in pairs)
        ctx.close(m.measure([a for a, _ in pairs], sites), dense.expect(dense.string(full, ds), v), "measure(%s) of %s operators" % (sites, [str(a.dtype) for a, _ in pairs]),
                  tol=1e-5 if single else 1e-9, scale=nv * np.prod([np.linalg.norm(b) for _, b in pairs]) + 1e-12)


def gates(ctx):
    m, ds, v = gen.state(ctx)
    for _ in range(3):
        nv = np.linalg.norm(v)
        two = ctx.flag()
        s = ctx.integer(0, len(ds) - (2 if two else 1))
        n = ds[s] * ds[s + 1] if two else ds[s]
        t = ctx.pick(*TYPES)
        if t is bool or ctx.flag(0.4):
            # permutations: what users write as integer gates
            a = np.eye(n)[ctx.rng.permutation(n)].astype(t)
            b = a.astype(float) if t not in (complex, np.complex64) else a.astype(complex)
        else:
            a, b = numbers(ctx, (n, n), t)
            if np.linalg.cond(b) > 1e3:
                continue
        x = v.reshape(int(np.prod(ds[:s], dtype=int)), n, -1)
        w = np.einsum("aib,io->aob", x, b).reshape(-1)
        if np.linalg.norm(w) < 1e-2 * nv:
            continue
        single = a.dtype in (np.float32, np.complex64)
        if two:
            m.applyTwoSiteGate(a.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s)
            # the norm is kept unless the gate changes it: judge direction here, norms are judged by the other cases
            u = dense.vec(m)
            f = np.vdot(w, u) / np.linalg.norm(w) / np.linalg.norm(u)
            ctx.close(u / np.linalg.norm(u), f / abs(f) * w / np.linalg.norm(w), "two-site %s gate at %d" % (a.dtype, s), tol=1e-4 if single else 1e-8, scale=1.0)
            ctx.check(abs(f - 1) < 1e-4, "two-site %s gate at %d: phase %s" % (a.dtype, s, f))
            w = u
        else:
            m.applyOneSiteGate(a, s)
            ctx.close(dense.vec(m), w, "one-site %s gate at %d" % (a.dtype, s), tol=1e-5 if single else 1e-9, scale=np.linalg.norm(w))
            w = dense.vec(m)
        v = w
        ctx.count("gates applied")


def mpo(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    M = [1] + [ctx.integer(1, 3) for _ in range(N - 1)] + [1]
    t = ctx.pick(np.int64, np.int8, np.int32, bool, "mixed")
    pairs = [numbers(ctx, (M[n], M[n + 1], ds[n], ds[n]), ctx.pick(np.int64, float, complex) if t == "mixed" else t) for n in range(N)]
    A, B = [a for a, _ in pairs], [b for _, b in pairs]
    Hd = dense.mpo_dense(B)
    w = v @ Hd
    sc = np.linalg.norm(v) * np.prod([np.linalg.norm(b) for b in B]) + 1e-12
    c = m.copy()
    c.applyMPO(H.MPO(A) if ctx.flag() else A)
    ctx.close(dense.vec(c), w, "applyMPO of a %s MPO" % t, tol=1e-10, scale=sc)
    l = mf.applyMPO(dense.full_tensors(m), A)
    ctx.close(dense.lvec(l) * m._Z, w, "applyMPO of a %s MPO to a list" % t, tol=1e-10, scale=sc)
    m.position(0)
    one = np.ones((1, 1, 1))
    full = dense.full_tensors(m)
    E = mf.contractMPO(full, full, A, one, 0, N - 1, ctx.pick(1, -1))[0, 0, 0]
    ctx.close(E, (w @ np.conj(v)) / abs(m._Z) ** 2, "contractMPO of a %s MPO" % t, tol=1e-10, scale=sc * np.linalg.norm(v) / abs(m._Z) ** 2)


def tensors(ctx):
    ds = gen.dims(ctx)
    b = gen.bonds(ctx, ds, 4)
    t = ctx.pick(np.int64, np.int32, np.float32, np.complex64, "mixed")
    pairs = [numbers(ctx, (b[n], b[n + 1], ds[n]), ctx.pick(np.int64, float, complex) if t == "mixed" else t) for n in range(len(ds))]
    B = [y for _, y in pairs]
    v = dense.lvec(B)
    if np.linalg.norm(v) < 1e-3 * np.prod([np.linalg.norm(y) for y in B]):
        return
    m = mpslib.MPS([x.copy() for x, _ in pairs])
    m._Z = 1.0
    tol = 1e-4 if t in (np.float32, np.complex64) else 1e-9
    for p in [0, len(ds)] + [ctx.integer(0, len(ds)) for _ in range(3)]:
        m.position(p)
        ctx.close(dense.vec(m), v, "state from %s tensors after position(%d)" % (t, p), tol=tol, scale=np.linalg.norm(v))
    if t in (np.float32, np.complex64):
        return
    s = ctx.integer(0, len(ds) - 1)
    x, y = numbers(ctx, m[s].shape, np.int64)
    m[s] = x
    w = dense.vec(m)
    if np.linalg.norm(w) > 1e-3:
        m.position(0)
        m.position(len(ds))
        ctx.close(dense.vec(m), w, "position after assigning an integer tensor", tol=1e-9, scale=np.linalg.norm(w))
