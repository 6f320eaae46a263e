"""C06: overlaps and local expectation values against dense vectors."""
import numpy as np
import dtypes
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("pairs of random swept finite states (independent bonds, centres, norms, phases, dtypes; mixed local dimensions) and random operators "
        "(hermitian, non-hermitian, complex); every quantity from every centre position; list-level routines also with boundary environments; long chains of 9-40 sites against contraction references of the harness; operators in every number type")
ASSUMPTIONS = ["MPS-level measurements are claimed for canonical (once swept) states, as produced by the constructors and by position()",
               "first operator index acts on the ket (unconjugated) layer, as in the MPO convention of the code base"]


def op(ctx, d, dt=None):
    k = ctx.pick("herm", "real", "complex", "unit", "raise")
    if k == "herm":
        return ctx.herm(d, dt or complex)
    if k == "real":
        return ctx.array((d, d))
    if k == "unit":
        return np.eye(d)
    if k == "raise":
        o = np.zeros((d, d))
        o[ctx.integer(0, d - 1), ctx.integer(0, d - 1)] = 1.0
        return o
    return ctx.array((d, d), dt or complex)


def unchanged(ctx, m, v, pos, what):
    ctx.close(dense.vec(m), v, what + " changed the state", tol=1e-9)
    ctx.check(m.pos == pos, "%s moved the centre from %d to %d" % (what, pos, m.pos))


def overlaps(ctx):
    a, ds, va = gen.state(ctx, maxdim=400)
    b, _, vb = gen.state(ctx, ds)
    pa, pb = a.pos, b.pos
    ref = np.linalg.norm(va) * np.linalg.norm(vb)
    r = a.dot(b)
    ctx.close(r, np.sum(va * np.conj(vb)), "a.dot(b), centres %d,%d" % (pa, pb), tol=1e-9, scale=ref)
    ctx.close(mf.overlap(a, b), r, "overlap(a,b) vs a.dot(b)", tol=1e-10, scale=ref)
    ctx.close(b.dot(a), np.conj(r), "conjugate symmetry", tol=1e-9, scale=ref)
    ctx.close(a.dot(a), np.linalg.norm(va) ** 2, "norm", tol=1e-9)
    c = a.copy()
    c.position(ctx.integer(0, len(ds)))
    ctx.close(c.dot(b), r, "overlap of a moved copy", tol=1e-9, scale=ref)
    unchanged(ctx, a, va, pa, "dot")
    unchanged(ctx, b, vb, pb, "dot")
    z = 0.3 - 1.1j
    ctx.close((z * a).dot(b), z * r, "linearity in the first argument", tol=1e-9, scale=ref)
    ctx.close(a.dot(z * b), np.conj(z) * r, "antilinearity in the second argument", tol=1e-9, scale=ref)
    if np.linalg.norm(va + vb) > 1e-3:
        s = a + b
        ctx.close(s.dot(b), r + np.linalg.norm(vb) ** 2, "overlap with a sum", tol=1e-8, scale=ref + np.linalg.norm(vb) ** 2)


def local(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    p = m.pos
    ops = [op(ctx, d) for d in ds]
    sc = np.linalg.norm(v) ** 2
    want = np.array([dense.expect(dense.embed(o, n, ds), v) for n, o in enumerate(ops)])
    for n in ctx.rng.permutation(N):
        n = int(n)
        m.position(ctx.integer(0, N))
        p = m.pos
        r = m.measureLocal(ops[n], n)
        ctx.close(r, want[n], "measureLocal(site %d of %d, centre %d)" % (n, N, p), tol=1e-9, scale=sc)
        unchanged(ctx, m, v, p, "measureLocal")
        ctx.count("local expectation values")
    p = m.pos
    r = np.asarray(m.measureList(ops))
    ctx.close(r, want, "measureList (centre %d)" % p, tol=1e-9, scale=sc * max(1.0, max(np.max(np.abs(o)) for o in ops)))
    unchanged(ctx, m, v, p, "measureList")
    ctx.sig(p, N)


def matrix_elements(ctx):
    a, ds, va = gen.state(ctx, maxdim=400)
    b, _, vb = gen.state(ctx, ds)
    N = len(ds)
    ops = [op(ctx, d) for d in ds]
    pa, pb = a.pos, b.pos
    want = np.array([np.sum(dense.apply(dense.embed(o, n, ds), va) * np.conj(vb)) for n, o in enumerate(ops)])
    r = a.measureMatrixElementList(b, ops)
    sc = np.linalg.norm(va) * np.linalg.norm(vb)
    ctx.check(r is not None, "measureMatrixElementList returned nothing")
    ctx.close(np.asarray(r), want, "measureMatrixElementList (centres %d,%d)" % (pa, pb), tol=1e-9, scale=sc)
    unchanged(ctx, a, va, pa, "measureMatrixElementList")
    unchanged(ctx, b, vb, pb, "measureMatrixElementList")


def lists(ctx):
    """list-level routines; arbitrary (not normalised) tensors and boundary environments"""
    ds = gen.dims(ctx, maxdim=400)
    N = len(ds)
    dta, dtb = gen.dtype(ctx), gen.dtype(ctx)
    ta = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 4), dta)
    tb = gen.tensors(ctx, ds, gen.bonds(ctx, ds, 4), dtb)
    va, vb = dense.lvec(ta), dense.lvec(tb)
    one = np.ones((1, 1, 1))
    ops = [op(ctx, d) for d in ds]
    want = np.array([np.sum(dense.apply(dense.embed(o, n, ds), va) * np.conj(vb)) for n, o in enumerate(ops)])
    r = mf.matrixElementLocal(ta, tb, ops, one, one)
    sc = np.linalg.norm(va) * np.linalg.norm(vb)
    ctx.close(np.asarray(r), want, "mpsfunctions.matrixElementLocal", tol=1e-8, scale=sc)
    n = ctx.integer(0, N - 1)
    want1 = dense.expect(dense.embed(ops[n], n, ds), va) / np.linalg.norm(va) ** 2
    r = mf.measure(ops[n].reshape(1, 1, ds[n], ds[n]), one, one, ta, n)
    ctx.close(r, want1, "mpsfunctions.measure", tol=1e-8, scale=1.0)
    # normalised expectation values with the complementary part canonical
    wa = np.array([dense.expect(dense.embed(o, k, ds), va) for k, o in enumerate(ops)]) / np.linalg.norm(va) ** 2
    for ortho in ("right", "left"):
        w = [t.copy() for t in ta]
        mf.orthonormalizeQR(w, -1 if ortho == "right" else 1, 0, N - 1)
        for use in ("list", "mps"):
            if use == "mps":
                x = mpslib.MPS(w)
                x.resetZ()
            else:
                x = w
            r = np.asarray(mf.measureLocal(x, ops, one, one, ortho))
            ctx.close(r, wa, "mpsfunctions.measureLocal(%s, ortho=%s)" % (use, ortho), tol=1e-8,
                      scale=max(1.0, max(np.max(np.abs(o)) for o in ops)))
    # cross-check of overlap on lists is covered through MPS objects; single elements of the environments:
    L = mf.contractE(ta, tb, one, 0, N - 1, 1)
    ctx.close(L[0, 0, 0], np.sum(va * np.conj(vb)), "contractE over the chain", tol=1e-8, scale=sc)
    R = mf.contractE(ta, tb, one, 0, N - 1, -1)
    ctx.close(R[0, 0, 0], np.sum(va * np.conj(vb)), "contractE over the chain (right)", tol=1e-8, scale=sc)
    ctx.sig(str(ds), np.dtype(dta).name, np.dtype(dtb).name)


CASES = [("overlap", overlaps, 300, 5000), ("local", local, 250, 5000), ("matrix-elements", matrix_elements, 200, 3000),
         ("number-types", dtypes.local, 100, 2000), ("lists", lists, 200, 3000),
         ("long-measurements", long.measurements, 40, 800)]
