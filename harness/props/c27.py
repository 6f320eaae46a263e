"""C27: auxiliary network routines (fine-graining, cutting and patching, initialisers, periodic chains)."""
import numpy as np
import dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en

RULE = ("random tensors, states, MPOs and cut positions for the auxiliary routines: fine-graining, MPO patching, random "
        "initialisers, phase fixing, normalisation checks, gauge with identity first matrix, and the environments of a periodic chain; distinct by "
        "routine, sizes and type")
ASSUMPTIONS = ["dense references by the harness"]


def finegrain(ctx):
    N = ctx.integer(1, 4)
    dt = gen.dtype(ctx)
    ds = [2] * N
    pbc = N == 1 or ctx.flag(0.3)
    if pbc:
        D = ctx.integer(1, 4)
        ts = [ctx.array((D, D, 2), dt) for _ in ds]
    else:
        ts = gen.tensors(ctx, ds, gen.bonds(ctx, ds), dt)
    t0 = [t.copy() for t in ts]
    fine = mf.FinegrainDolfi(ts)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "FinegrainDolfi changed its input")
    ctx.check(len(fine) == 2 * N and all(t.shape[2] == 2 for t in fine), "FinegrainDolfi: %d sites from %d" % (len(fine), N))
    # |0> -> |00>,  |1> -> (|01> + |10>)/sqrt 2
    T = np.zeros((2, 4))
    T[0, 0] = 1.0
    T[1, 1] = T[1, 2] = 1 / np.sqrt(2.0)
    M = np.ones((1, 1))
    for _ in ds:
        M = np.kron(M, T)
    want = np.einsum("aPb,PQ->aQb", dense.chain(ts), M)
    ctx.close(dense.chain(fine), want, "fine-grained state", tol=1e-9)
    ctx.count("fine-grained states compared")
    for n in range(N):
        ctx.check(fine[2 * n].shape[0] == ts[n].shape[0] and fine[2 * n + 1].shape[1] == ts[n].shape[1], "outer bonds changed")
    ctx.sig(N, pbc, np.dtype(dt).name, ctx.idx % 50)


def patch(ctx):
    N = ctx.integer(1, 6)
    kind = ctx.pick("list", "mpo")
    ts = [ctx.array((ctx.integer(1, 3), ctx.integer(1, 3), 2, 2), gen.dtype(ctx)) for _ in range(N)]
    k = ctx.integer(0, N)
    m = H.MPO(ts) if kind == "mpo" else [t.copy() for t in ts]
    mf.patchmpo(m, k)
    ctx.check(len(m) == N, "patchmpo changed the length")
    for n in range(N):
        ctx.check(np.array_equal(m[n], ts[(n + k) % N]), "patchmpo(%d): site %d of %d" % (k, n, N))
    if 0 < k < N:
        mf.patchmpo(m, N - k)
        ctx.check(all(np.array_equal(m[n], ts[n]) for n in range(N)), "patching back")
    ctx.sig(kind, N, k)


def initialise(ctx):
    N, D = ctx.integer(2, 5), ctx.integer(1, 5)
    ds = [ctx.integer(2, 4) for _ in range(N)] if ctx.flag() else ctx.integer(2, 4)
    dl = ds if isinstance(ds, list) else [ds] * N
    dt = ctx.pick(float, complex)
    obc = ctx.flag()
    scale, shift = ctx.pick(1.0, 0.1, 2.0), ctx.pick(0.5, 0.2, 0.0)
    which = ctx.pick("MPSinit", "MPSinitializer")
    dta = ctx.pick(dt, np.dtype(dt))
    if which == "MPSinit":
        ts = mf.MPSinit(N, D, ds, obc=obc, dtype=dta, scale=scale, shift=shift)
    else:
        ts = mf.MPSinitializer(np.random.random_sample, N, D, ds, obc=obc, dtype=dta, scale=scale, shift=shift)
    ctx.check(len(ts) == N, which + ": length")
    for n, t in enumerate(ts):
        sh = (1 if (obc and n == 0) else D, 1 if (obc and n == N - 1) else D, dl[n])
        ctx.check(t.shape == sh, "%s: tensor %d has shape %s, expected %s" % (which, n, t.shape, sh))
        ctx.check(t.dtype == np.dtype(dt), "%s: dtype %s, requested %s" % (which, t.dtype, dt))
        parts = [t.real, t.imag] if dt is complex else [t]
        for x in parts:
            ctx.check(np.min(x) >= -shift * scale - 1e-12 and np.max(x) <= (1 - shift) * scale + 1e-12, "%s: entries outside the range" % which)
            ctx.check(x.size < 4 or np.std(x) > 1e-3 * scale, which + ": entries are not random")
    ctx.sig(which, N, D, str(ds), obc, np.dtype(dt).name)


def small(ctx):
    D, d = ctx.integer(1, 6), ctx.integer(2, 4)
    dt = gen.dtype(ctx)
    which = ctx.pick("fixPhase", "check", "fixA0", "contractionE")
    if which == "fixPhase":
        a = ctx.array((D, D), dt)
        a = a.dot(a.conj().T) + 1e-3 * np.eye(D)
        c = ctx.pick(1.0, -2.0, 0.3) if dt is float else ctx.pick(1j, 0.3 - 0.4j, -1)
        x = c * a
        x0 = x.copy()
        y = mf.fixPhase(x)
        ctx.check(np.array_equal(x, x0), "fixPhase changed its input")
        ctx.close(y, a / np.linalg.norm(a), "fixPhase of a rotated density matrix", tol=1e-9)
    elif which == "check":
        a = ctx.array((D, D, d), dt)
        side = ctx.pick("l", "r")
        if ctx.flag():
            a = np.linalg.qr(a.transpose(0, 2, 1).reshape(D * d, D))[0].reshape(D, d, D).transpose(0, 2, 1)
            if side == "r":
                a = np.transpose(a, (1, 0, 2))
        z = mf.check_normalization(a, side)
        g = np.einsum("abs,acs->bc", a.conj(), a) if side == "l" else np.einsum("abs,cbs->ac", a, a.conj())
        ctx.close(np.asarray(z).item(), np.linalg.norm(g - np.eye(D)), "check_normalization", tol=1e-8, scale=1.0)
    elif which == "fixA0":
        a = ctx.array((D, D, 2), dt) + 0.5 * np.eye(D)[:, :, None]
        if np.linalg.cond(a[:, :, 0]) > 1e4:
            raise Skip("singular first matrix")
        direction = ctx.pick(1, -1)
        t, m = mf.prepareTensorfixA0(a, direction)
        rec = np.einsum("abs,bc->acs", t, m) if direction > 0 else np.einsum("ab,bcs->acs", m, t)
        ctx.check((dense.left_iso(t) if direction > 0 else dense.right_iso(t)) < 1e-9, "prepareTensorfixA0: not isometric")
        f = np.vdot(a, rec) / np.vdot(a, a)
        ctx.close(rec, f * a, "prepareTensorfixA0: product is not proportional to the tensor", tol=1e-7)
        ctx.check(abs(f) > 1e-12 and abs(np.imag(f)) < 1e-9 * abs(f) and np.real(f) > 0, "prepareTensorfixA0: factor %r" % f)
    else:
        L, R, t = ctx.array((D, D, 1), dt), ctx.array((D, D, 1), dt), ctx.array((D, D, d), dt)
        got = mf.contractionE(L, t, R)
        ctx.close(got, np.einsum("axm,abs,bym->xys", L, t, R), "contractionE", tol=1e-10)
    ctx.count(which)
    ctx.sig(which, D, d, np.dtype(dt).name, ctx.idx % 10)


def periodic(ctx):
    """environments of a homogeneous periodic chain"""
    N = ctx.integer(4, 6)
    D = ctx.integer(2, 3)
    dt = gen.dtype(ctx)
    g = ctx.rng.uniform(-1, 1, 3)
    kind = ctx.pick("TFI", "XXZ")
    mpo = H.TFI(np.array([g[0]]), np.array([g[1]]), False) if kind == "TFI" else \
        H.XXZ(np.array([g[0]]), np.array([g[1]]), np.array([g[2]]), False)
    full = H.TFI(g[0] * np.ones(2), g[1] * np.ones(2), True) if kind == "TFI" else \
        H.XXZ(g[0] * np.ones(2), g[1] * np.ones(2), g[2] * np.ones(2), True)
    W0 = mpo[0]
    if W0.shape[2] != 2:
        raise Skip("model")
    t = ctx.array((D, D, 2), dt) * 0.7
    m = mpslib.MPS([t])
    e = en.PeriodicMPSengine(m, mpo, N, "p")
    A = np.asarray(e._mps[0])
    # dense periodic state and Hamiltonian
    c = dense.chain([A] * N)
    v = np.einsum("aPa->P", c)
    b = np.einsum("mst,muv->sutv", W0[-1], W0[:, 0]).reshape(4, 4)
    # two-site operator with half of the on-site term on either side
    on = W0[-1, 0]
    bond = np.einsum("mst,muv->sutv", W0[-1, 1:-1], W0[1:-1, 0]).reshape(4, 4)
    Hd = np.zeros((2 ** N, 2 ** N), complex)
    for n in range(N):
        Hd = Hd + dense.embed(on, n, [2] * N)
        Hd = Hd + embed_bond(bond, n, N)
    want = dense.expect(Hd, v)
    Hs, Ns, Hes, Hb, Nb, Heb = e.getHeffNeff()
    x = A.reshape(-1)
    got = np.vdot(x, en.matvec(Hs, Hes, e._mpo[1], x))
    ctx.close(got, want, "energy from the single-site environment of the periodic chain", tol=1e-8, scale=np.linalg.norm(v) ** 2)
    ctx.close(np.trace(Nb.reshape(D * D, D * D)), np.vdot(v, v),
              "norm from the bond environment of the periodic chain", tol=1e-9)
    # the norm with any tensor in the last place, bilinear
    B = ctx.array((D, D, 2), dt)
    w = np.einsum("aPb,bas->Ps", dense.chain([A] * (N - 1)), B).reshape(-1)
    en1 = np.vdot(B.reshape(-1), en.gram(Ns, np.eye(2).reshape(1, 1, 2, 2), B.reshape(-1)))
    ctx.close(en1, np.vdot(w, w), "norm form of the periodic chain", tol=1e-9)
    got = np.vdot(B.reshape(-1), en.matvec(Hs, Hes, e._mpo[1], B.reshape(-1)))
    ctx.close(got, dense.expect(Hd, w), "energy form of the periodic chain", tol=1e-8, scale=np.linalg.norm(w) ** 2)
    one = np.eye(D).reshape(-1)
    got = np.vdot(one, en.matvecbond(Hb + Heb, one))
    ctx.close(got, want, "energy from the bond environment of the periodic chain", tol=1e-8, scale=np.linalg.norm(v) ** 2)
    ctx.count("periodic environments compared")
    ctx.sig(kind, N, D, np.dtype(dt).name)


def embed_bond(b, n, N):
    if n < N - 1:
        return dense.embed2(b, n, [2] * N)
    # site N-1 and site 0
    b4 = b.reshape(2, 2, 2, 2)
    M = np.einsum("sutv,PQ->uPsvQt", b4, np.eye(2 ** (N - 2)))
    return M.reshape(2 ** N, 2 ** N)


CASES = [("finegrain", finegrain, 200, 3000), ("patch", patch, 100, 1500), ("initialise", initialise, 200, 3000),
         ("small", small, 400, 6000), ("periodic", periodic, 120, 1500)]
