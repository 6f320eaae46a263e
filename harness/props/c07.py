"""C07: n-point functions and Jordan-Wigner strings against dense operator products."""
import numpy as np
import dtypes
import dense, long, gen
import lib.mpslib.mps as mpslib
import lib.mpslib.Hamiltonians as H

RULE = ("random normalised swept finite MPS (mixed local dimensions), 1 to 5 random operators at random weakly increasing sites, with and without "
        "random Jordan-Wigner operators (involutions); fermionic two- and four-point functions against Fock-space operators; long chains of 9-40 sites against contraction references of the harness; operators in every number type")
ASSUMPTIONS = ["Jordan-Wigner operators square to one (local parities)",
               "operator products are read in the index order of the code base: matrices are [in,out], the first operator in the list is "
               "contracted with the ket first; no assumption for hermitian products"]


def rand_op(ctx, d):
    k = ctx.pick("real", "complex", "raise", "herm", "diag")
    if k == "raise":
        o = np.zeros((d, d))
        o[ctx.integer(0, d - 1), ctx.integer(0, d - 1)] = 1.0
        return o
    if k == "herm":
        return ctx.herm(d, complex)
    if k == "diag":
        return np.diag(ctx.array(d))
    return ctx.array((d, d), float if k == "real" else complex)


def parity(ctx, d):
    k = ctx.pick("diag", "diag", "rot", "id")
    s = np.diag([ctx.pick(1.0, -1.0) for _ in range(d)])
    if k == "rot":
        q = np.linalg.qr(ctx.array((d, d), ctx.pick(float, complex)))[0]
        return q @ s @ q.conj().T
    return np.eye(d) if k == "id" else s


def normalised(ctx, **kw):
    m, ds, v = gen.state(ctx, norm="unit", **kw)
    return m, ds, v


def npoint(ctx, jw):
    m, ds, v = normalised(ctx, maxdim=400)
    N = len(ds)
    Ps = [parity(ctx, d) for d in ds] if jw else None
    for _ in range(4):
        k = ctx.pick(1, 2, 2, 2, 3, 4, 5)
        kind = ctx.pick("free", "same", "ends", "adjacent")
        if kind == "free":
            sites = sorted(ctx.integer(0, N - 1) for _ in range(k))
        elif kind == "same":
            sites = [ctx.integer(0, N - 1)] * k
        elif kind == "ends":
            sites = sorted(ctx.pick(0, N - 1) for _ in range(k))
        else:
            a = ctx.integer(0, N - 2)
            sites = sorted(ctx.pick(a, a + 1) for _ in range(k))
        ops = [rand_op(ctx, ds[s]) for s in sites]
        M = np.eye(len(v), dtype=complex)
        for o, s in zip(ops, sites):
            if jw:
                D = dense.string(Ps[:s] + [o] + [np.eye(d) for d in ds[s + 1:]], ds)
            else:
                D = dense.embed(o, s, ds)
            M = M @ D
        want = dense.expect(M, v)
        sc = max(1.0, np.prod([np.linalg.norm(o, 2) for o in ops]))
        o0 = [o.copy() for o in ops]
        s0 = list(sites)
        m.position(ctx.integer(0, N))
        got = m.measure(ops, sites) if not jw else m.measure(ops, sites, Ps)
        ctx.close(got, want, "measure(%s%s)" % (sites, ", P" if jw else ""), tol=1e-9, scale=sc)
        ctx.close(dense.vec(m), v, "state after measure", tol=1e-9)
        ctx.check(gen.canonical_errors(m) < 1e-8, "measure left the state uncanonical")
        ctx.check(sites == s0 and all(np.array_equal(a, b) for a, b in zip(ops, o0)), "measure modified its arguments")
        ctx.count("correlators of %d operators" % k)
        ctx.sig(jw, N, sites)


def plain(ctx):
    npoint(ctx, False)


def strings(ctx):
    npoint(ctx, True)


def consistency(ctx):
    """physical relations the correlators must obey; single operators may be given without lists"""
    m, ds, v = normalised(ctx, mixed=False)
    N = len(ds)
    i = ctx.integer(0, N - 1)
    o = rand_op(ctx, ds[i])
    p = m.pos
    a = m.measure(o, i)
    b = m.measureLocal(o, i)
    ctx.close(a, b, "measure(op,site) vs measureLocal", tol=1e-9, scale=max(1.0, np.linalg.norm(o, 2)))
    j = ctx.integer(i, N - 1)
    q = rand_op(ctx, ds[j])
    ctx.close(m.measure([o, np.eye(ds[j])], [i, j]), b, "correlator with the identity", tol=1e-9, scale=max(1.0, np.linalg.norm(o, 2)))
    if j > i:
        r1 = m.measure([o, q], [i, j])
        r2 = m.measure([o.conj().T, q.conj().T], [i, j])
        ctx.close(r1, np.conj(r2), "hermitian conjugation", tol=1e-9, scale=max(1.0, np.linalg.norm(o, 2) * np.linalg.norm(q, 2)))
    ctx.sig(str(ds), i, j)


def fermions(ctx):
    """c^dagger_i c_j and density correlators of spinless and spinful fermions"""
    spin = ctx.flag(0.3)
    N = ctx.integer(2, 4) if spin else ctx.integer(2, 7)
    d = 4 if spin else 2
    m, ds, v = normalised(ctx, ds=[d] * N)
    c = np.array([[0, 1.0], [0, 0]])
    z = np.diag([1.0, -1.0])
    if spin:
        locs = [np.kron(c, np.eye(2)), np.kron(z, c)]
        P = np.kron(z, z)
    else:
        locs, P = [c], z
    def F(o, s):
        return dense.string([P] * s + [o] + [np.eye(d)] * (N - 1 - s), ds)
    for _ in range(3):
        i = ctx.integer(0, N - 1)
        j = ctx.integer(i, N - 1)
        a, b = ctx.pick(*locs), ctx.pick(*locs)
        a = a.T if ctx.flag() else a
        b = b.T if ctx.flag() else b
        # anticommutation of the dressed operators guards the oracle itself
        A, B = F(a, i), F(b, j)
        if i != j:
            assert np.max(np.abs(A @ B + B @ A)) < 1e-12
        ctx.close(m.measure([a, b], [i, j], [P] * N), dense.expect(A @ B, v), "fermionic two-point function (%d,%d)" % (i, j), tol=1e-9, scale=1.0)
        ks = sorted(ctx.integer(0, N - 1) for _ in range(4))
        os_ = [x.T if ctx.flag() else x for x in [ctx.pick(*locs) for _ in range(4)]]
        M = np.eye(d ** N)
        for o, s in zip(os_, ks):
            M = M @ F(o, s)
        ctx.close(m.measure(os_, ks, [P] * N), dense.expect(M, v), "fermionic four-point function %s" % ks, tol=1e-9, scale=1.0)
    ctx.sig(spin, N, m.pos)


CASES = [("n-point", plain, 400, 6000), ("jordan-wigner", strings, 400, 6000), ("relations", consistency, 200, 3000),
         ("number-types", dtypes.correlators, 100, 2000), ("fermions", fermions, 150, 3000),
         ("long-correlators", long.correlators, 40, 800)]
