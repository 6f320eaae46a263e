"""C26: time-dependent variational principle for homogeneous infinite states."""
import numpy as np
import dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H

RULE = ("left-orthogonal homogeneous tensors (D 3-6, local dimension 2-3, real/complex, decaying and offset spectra) with nearest-neighbour "
        "Hamiltonians of every model and random hermitian two-site operators: TDVPupdate compared with an exact gradient obtained by dense linear "
        "algebra and with energy differences; histories of imaginary- and real-time steps; distinct by model, size and type")
ASSUMPTIONS = ["two-site energy from reduced density matrices computed densely by the harness",
               "the tangent basis of the routine is accurate to 1e-7 (it is completed with small random vectors)"]


def twosite(ctx, dt):
    """(mpo list of length two, dense two-site operator [in,out], d, name)"""
    kind = ctx.pick("TFI", "XXZ", "random", "random", "fermi")
    r = ctx.rng
    if kind == "TFI":
        return H.TFI(r.uniform(-1.5, 1.5, 1), r.uniform(-1.5, 1.5, 2), True), 2, kind
    if kind == "XXZ":
        return H.XXZ(r.uniform(-1.5, 1.5, 1), r.uniform(-1.5, 1.5, 1), r.uniform(-1, 1, 2), True), 2, kind
    if kind == "fermi":
        return H.SpinlessFermions(r.uniform(-1, 1, 1), r.uniform(-1, 1, 1), r.uniform(-1, 1, 2), True), 2, kind
    d = ctx.pick(2, 3)
    h = ctx.herm(d * d, dt)
    # h[(s1 s2),(t1 t2)] = sum_m W0[0,m,s1,t1] W1[m,0,s2,t2]
    M = h.reshape(d, d, d, d).transpose(0, 2, 1, 3).reshape(d * d, d * d)
    u, s, v = np.linalg.svd(M)
    W0 = (u * s).reshape(d, d, d * d).transpose(2, 0, 1)[None]
    W1 = v.reshape(d * d, d, d)[:, None]
    return H.MPO([np.ascontiguousarray(W0), np.ascontiguousarray(W1)]), d, kind


def energy(A, h):
    rho = dense.rdm_inf([A], 0, 2)
    return np.real(np.sum(rho * h))


def setup(ctx):
    dt = gen.dtype(ctx)
    mpo, d, kind = twosite(ctx, dt)
    h = dense.mpo_dense(mpo)
    D = ctx.integer(3, 6)
    ts, _ = gen.cell(ctx, 1, D=D, d=d, dt=dt, decay=ctx.pick(1.0, 0.8), maxgap=0.8)
    A = leftorth(ts[0])
    if A is None:
        raise Skip("ill-conditioned tensor")
    r = fixed(A)
    if np.min(np.linalg.eigvalsh(r)) < 1e-5:
        raise Skip("ill-conditioned density matrix")
    ctx.sig(kind, D, d, np.dtype(dt).name, ctx.idx % 100)
    return A, r, mpo, h, d, D, dt


def leftorth(A):
    """left-orthogonal gauge by dense linear algebra"""
    lam, l, r, gap = dense.fixed_points([A])
    A = A / np.sqrt(np.real(lam))
    l = l * np.exp(-1j * np.angle(np.trace(l)))
    l = (l + l.conj().T) / 2          # l[ket,bra]
    e, u = np.linalg.eigh(l)
    if e[0] < 1e-6 * e[-1]:
        return None
    # l = x^T conj(x): gauge A -> x A x^-1
    x = np.sqrt(e)[:, None] * u.T
    xi = u.conj() / np.sqrt(e)[None, :]
    B = np.einsum("ab,bcs,cd->ads", x, A, xi)
    if not np.iscomplexobj(A):
        B = np.real(B)
    return np.ascontiguousarray(B) if dense.left_iso(B) < 1e-9 else None


def fixed(A):
    _, _, r, _ = dense.fixed_points([A])
    r = r / np.trace(r)
    r = (r + r.conj().T) / 2
    return np.ascontiguousarray(r) if np.iscomplexobj(A) else np.real(r)


def reference(A, r, h):
    """the tangent vector by dense algebra: derivative of the energy with respect to conj(A), left tangent gauge, metric removed"""
    D, _, d = A.shape
    T = dense.transfer_matrix([A], [A])                      # (a a') -> (b b')
    rv, lv = r.reshape(-1), np.eye(D).reshape(-1)
    hh = h.reshape(d, d, d, d)
    # derivative with respect to the bra tensor at the first and at the second site of h, and left of h
    C = np.einsum("abs,bct->acst", A, A)
    HC = np.einsum("acst,stuv->acuv", C, hh)                 # ket with h applied
    g = np.einsum("xcuv,wdv,cd->xwu", HC, A.conj(), r)       # bra removed at the first site (left environment: identity)
    g2 = np.einsum("awu,acuv,cd->wdv", A.conj(), HC, r)      # removed at the second site
    e = np.real(np.einsum("xwu,xwu", g, A.conj()))
    lh = np.einsum("acuv,awu,wdv->cd", HC, A.conj(), A.conj())
    P = np.outer(rv, lv)
    K = np.linalg.solve((np.eye(D * D) - T + P).T, (lh - e * np.eye(D)).reshape(-1)).reshape(D, D)
    g3 = np.einsum("ab,acs,cd->bds", K, A, r)
    G = g + g2 + g3
    # bra tangent conj(B): energy change Re sum conj(B) G; norm of B: sum conj(B) B r
    m = np.transpose(A, (2, 0, 1)).reshape(d * D, D)
    pr = np.eye(d * D) - m.dot(m.conj().T)
    # B r = (projected) G on the last index: B_{a c s} r_{c b}
    Gm = np.transpose(G, (2, 0, 1)).reshape(d * D, D)
    B = np.linalg.solve(r.T, pr.dot(Gm).T).T
    return np.transpose(B.reshape(d, D, D), (1, 2, 0)), e


def update(ctx):
    A, r, mpo, h, d, D, dt = setup(ctx)
    r0, A0 = r.copy(), A.copy()
    ref, e = reference(A, r, h)
    kold = None
    for rep in range(2):
        Ad, hh, nx, k = mf.TDVPupdate(r, A, mpo, kold, tol=1e-12)
        ctx.check(np.array_equal(A, A0) and np.array_equal(r, r0), "TDVPupdate changed its input")
        ctx.check(np.asarray(Ad).shape == A.shape, "shape of the tangent vector")
        sc = np.max(np.abs(h))
        ctx.close(np.asarray(hh).item(), e, "energy density", tol=1e-8, scale=sc)
        ctx.close(energy(A, h), e, "harness energy", tol=1e-8, scale=sc)
        n2 = np.sqrt(np.real(np.einsum("acs,ads,cd", ref, ref.conj(), r)))
        ctx.close(np.einsum("abs,acs->bc", A.conj(), Ad), np.zeros((D, D)), "left tangent gauge", tol=1e-6, scale=max(1.0, np.max(np.abs(Ad))))
        ctx.close(np.asarray(nx).item(), n2, "norm of the tangent vector", tol=1e-6, scale=sc)
        # compare in the metric of the state (components along small weights are amplified in the tensor itself)
        ctx.close(np.einsum("abs,bc->acs", Ad, r), np.einsum("abs,bc->acs", ref, r), "tangent vector (weighted with the density matrix)",
                  tol=2e-6, scale=sc)
        kold = np.asarray(k).reshape(-1) if ctx.flag() else np.random.standard_normal(D * D)
        ctx.count("tangent vectors compared")
    # energy differences
    if n2 > 1e-3:
        eps = 1e-4 / max(1.0, np.max(np.abs(Ad)))
        de = (energy(A + eps * Ad, h) - energy(A - eps * Ad, h)) / (2 * eps)
        ctx.close(de, 2 * n2 ** 2, "energy change along the tangent vector", tol=1e-4, scale=max(n2 ** 2, 1e-2 * sc))
        if dt is complex:
            de = (energy(A + 1j * eps * Ad, h) - energy(A - 1j * eps * Ad, h)) / (2 * eps)
            ctx.close(de, 0.0, "energy change in real time", tol=1e-5, scale=max(n2 ** 2, sc))
        ctx.count("energy derivatives compared")


def evolve(ctx):
    """histories as in the example scripts: imaginary time lowers the energy, real time conserves energy"""
    A, r, mpo, h, d, D, dt = setup(ctx)
    real = dt is complex and ctx.flag()
    step = 0.01 / np.max(np.abs(np.linalg.eigvalsh(h)))
    kold = None
    E = [energy(A, h)]
    for n in range(6):
        Ad, hh, nx, kold = mf.TDVPupdate(r, A, mpo, kold, tol=1e-12)
        kold = np.asarray(kold).reshape(-1)
        nrm = np.sqrt(np.real(np.einsum("acs,ads,cd", Ad, np.conj(Ad), r)))
        ctx.close(np.asarray(hh).item(), E[-1], "energy density after %d steps" % n, tol=1e-8, scale=np.max(np.abs(h)))
        ctx.close(np.asarray(nx).item(), nrm, "norm of the tangent vector after %d steps" % n, tol=1e-6, scale=np.max(np.abs(h)))
        dtau = min(step, 0.02 / max(1e-12, np.max(np.abs(Ad))))
        B = A - (1j if real else 1.0) * dtau * Ad
        A, _ = mf.regauge(B, gauge="left", tol=1e-12)
        ctx.close(dense.fidelity_inf([A], [B]), 1.0, "regauged state", tol=1e-8)
        A = np.asarray(A)
        r = fixed(A)
        if np.min(np.linalg.eigvalsh(r)) < 1e-6:
            raise Skip("ill-conditioned density matrix")
        E.append(energy(A, h))
        de = E[-1] - E[-2]
        want = 0.0 if real else -2 * dtau * np.real(nx) ** 2
        # second-order remainder
        bound = 50 * dtau ** 2 * max(np.max(np.abs(Ad)) ** 2, 1.0) * np.max(np.abs(np.linalg.eigvalsh(h))) + 1e-9
        ctx.check(abs(de - want) < bound, "%s time step %d changed the energy by %.3e, expected %.3e (bound %.1e)" % (
            "real" if real else "imaginary", n, de, want, bound))
        ctx.count("evolution steps")
    ctx.sig("real" if real else "imaginary")


CASES = [("update", update, 300, 5000), ("evolve", evolve, 60, 1000)]
