"""C21: infinite-system optimisers against exactly known and independently measured energy densities."""
import re, sys
import numpy as np
import dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H

RULE = ("transverse-field Ising cells of period 1-4 (free-fermion energy known exactly), dimerised XX chains, random hermitian nearest-neighbour "
        "interactions on d=2,3, each optionally rotated by a random (complex) local unitary; D, dtype, start state and gauge, solvers AR/LAN, "
        "svd/polar, number of vectors, regauging steps, single- and two-site IDMRG; distinct per model, parameters and engine options")
ASSUMPTIONS = ["D >= 3: the transfer-matrix eigensolver refuses the three eigenvectors the engines ask for on a 4-dimensional space",
               "gapped models: the engines promise nothing about the speed of convergence at a critical point",
               "IDMRG cells have an even number of sites (the cell is shifted by half its length)",
               "Anderson's bound E_open(n)/(n-1) is the lower bound for interactions that are not exactly solvable",
               "the energy printed by the gradient engine is read from its progress line"]


def exact_tfi(J, h):
    """energy per cell of sum J_n sx sx + h_n sz with periods len(J)"""
    J, h = np.asarray(J, float), np.asarray(h, float)
    N, K = len(J), 4096
    out = 0.0
    for k in (np.arange(K) + 0.5) / K * 2 * np.pi:
        M = np.diag(h).astype(complex)
        for n in range(N):
            M[n, (n + 1) % N] += J[n] * (np.exp(1j * k) if n == N - 1 else 1.0)
        out += np.sum(np.linalg.svd(M, compute_uv=False))
    return -out / K


def exact_dimer(J):
    k = (np.arange(200000) + 0.5) / 200000 * 2 * np.pi
    return -np.mean(np.abs(J[0] / 2 + J[1] / 2 * np.exp(1j * k)))


class Tensors(H.MPO):
    pass


def rotate(mpo, U):
    """the same Hamiltonian in another local basis; indices [in,out], <out|h|in>"""
    return Tensors([np.einsum("abij,ik,jl->abkl", np.asarray(mpo[n]), np.conj(U), U) for n in range(len(mpo))])


def energy(ts, mpo):
    """energy per cell from the reduced density matrices of the cell tensors"""
    N = len(ts)
    e = 0.0
    for n in range(N):
        W = [np.asarray(mpo[n]), np.asarray(mpo[(n + 1) % N])]
        two = dense.mpo_dense(W, lrow=-1, rcol=0)
        e += np.einsum("pq,pq->", dense.rdm_inf(ts, n, 2), two)
        e -= np.einsum("pq,pq->", dense.rdm_inf(ts, (n + 1) % N, 1), W[1][-1, 0])
    return e


def unitary(ctx, d, dt):
    return np.linalg.qr(ctx.array((d, d), dt))[0]


def field(ctx, N=1, gapped=True):
    J = ctx.rng.uniform(0.3, 1.0, N) * ctx.rng.choice([-1, 1], N)
    h = np.max(np.abs(J)) * ctx.rng.uniform(1.35, 2.2, N) * ctx.rng.choice([-1, 1], N)
    return J, h


def ising(ctx, N):
    """(mpo, exact cell energy, dtype, size)"""
    J, h = field(ctx, N)
    mpo = H.TFI(J, h, False)
    dt = gen.dtype(ctx)
    rot = ctx.pick("plain", "rotated")
    if rot == "rotated":
        mpo = rotate(mpo, unitary(ctx, 2, dt))
    return mpo, exact_tfi(J, h), dt, np.max(np.abs(J)) + np.max(np.abs(h)), rot


def start(ctx, D, d, dt):
    m = mpslib.MPS.random(N=1, D=D, d=d, obc=False, dtype=dt)
    how = ctx.pick("raw", "right", "left", "symmetric")
    if how != "raw":
        m.regauge(gauge=how)
    return m, how


def run_vumps(ctx, m, mpo, solver, eps=1e-8, Nmax=400, **kw):
    e = en.VUMPSengine(m, mpo, "vumps")
    E = e.simulate(Nmax=Nmax, epsilon=eps, tol=1e-12, lgmrestol=1e-12, ncv=30, numeig=3, artol=1e-12, arncv=20, solver=solver,
                   landelta=1e-10, checkpoint=0, **kw)
    return e, E


def audit_vumps(ctx, tag, e, E, mpo, size, eps):
    """a converged run: energy, isometry, consistency, stationarity"""
    A, B, C = np.asarray(e._A), np.asarray(e._B), np.asarray(e._mat)
    ctx.check(np.ndim(E) == 0 and abs(np.imag(E)) < 1e-8 * size, tag + ": energy density %r is not real" % (E,))
    ctx.check(dense.left_iso(A) < 1e-9, tag + ": A is not left isometric (%.1e)" % dense.left_iso(A))
    ctx.check(dense.right_iso(B) < 1e-9, tag + ": B is not right isometric (%.1e)" % dense.right_iso(B))
    for name, t in (("A", A), ("B", B)):
        ctx.close(np.real(E), np.real(energy([t], mpo)), tag + ": reported energy density against the energy of " + name, tol=1e-7, scale=size)
    ctx.close(np.linalg.norm(C), 1.0, tag + ": norm of the bond matrix", tol=1e-8)
    al = np.tensordot(A, C, ([1], [0])).transpose(0, 2, 1)
    ar = np.tensordot(C, B, ([1], [0]))
    ph = np.vdot(al, ar)
    ctx.close(al * ph, ar, tag + ": A_L C against C A_R", tol=1e-5)
    ctx.close(np.abs(ph), 1.0, tag + ": A_L C against C A_R", tol=1e-9)
    ts = dense.full_tensors_inf(e.mps)
    ctx.close(np.real(energy(ts, mpo)), np.real(E), tag + ": energy of the state in engine.mps", tol=1e-7, scale=size)
    ctx.close(dense.fidelity_inf(ts, [A]), 1.0, tag + ": engine.mps and A describe different states (fidelity per site)", tol=1e-9)
    f = dense.fidelity_inf([A], [B])
    ctx.close(f, 1.0, tag + ": A and B describe different states (fidelity per site)", tol=1e-9)
    # stationarity of the energy of the uniform state
    x = ctx.array(A.shape, A.dtype)
    x = x / np.linalg.norm(x)
    st = 1e-4
    g = (np.real(energy([A + st * x], mpo)) - np.real(energy([A - st * x], mpo))) / (2 * st)
    ctx.check(abs(g) <= 2e-5 * size, tag + ": energy is not stationary at the converged state (slope %.2e)" % g)
    ctx.count("converged VUMPS runs")


def c_vumps_ising(ctx):
    mpo, ex, dt, size, rot = ising(ctx, 1)
    dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
    D = ctx.integer(3, 9)
    solver, svd = ctx.pick("AR", "LAN"), ctx.flag()
    nv = ctx.pick(1, 1, 2, 3) if solver == "AR" else 1
    m, how = start(ctx, D, 2, dt)
    keep = [t.copy() for t in m.tensors]
    ctx.sig("TFI", rot, np.dtype(dt).name, "D=%d" % D, solver, "svd=%s" % svd, "nv=%d" % nv, how)
    e, E = run_vumps(ctx, m, mpo, solver, svd=svd, arnumvecs=nv)
    tag = "VUMPS %s D=%d" % (solver, D)
    for a, b in zip(keep, m.tensors):
        ctx.check(np.array_equal(a, b), tag + ": the user's start state was changed")
    for t in (e._A, e._B):
        ctx.check(np.real(energy([np.asarray(t)], mpo)) >= ex - 1e-9 * size, tag + ": energy density below the exact ground state")
    if not e._gradnorm < 1e-6:
        ctx.check(False, tag + ": gapped Ising chain did not converge in 400 steps (gradient %.1e)" % e._gradnorm)
    audit_vumps(ctx, tag, e, E, mpo, size, 1e-8)
    dev = (np.real(E) - ex) / size
    ctx.check(-1e-9 <= dev, tag + ": reported energy density %.3e below the exact one" % -dev)
    lim = {2: 2e-2, 3: 1e-2, 4: 2e-3, 5: 1e-3}.get(D, 2e-4)
    ctx.check(dev <= lim, tag + ": energy density %.2e above the exact ground state" % dev)
    if nv > 1:
        ctx.check(np.real(e._gap) > 0, tag + ": gap %r is not positive" % (e._gap,))


def c_vumps_growth(ctx):
    """E(D) decreases towards the exact value"""
    mpo, ex, dt, size, rot = ising(ctx, 1)
    dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
    solver = ctx.pick("AR", "LAN")
    last = None
    Ds = [3, 5, 8, 12]
    ctx.sig("growth", rot, np.dtype(dt).name, solver)
    for D in Ds:
        m, how = start(ctx, D, 2, dt)
        e, E = run_vumps(ctx, m, mpo, solver, eps=1e-7, svd=ctx.flag())
        if not e._gradnorm < 1e-7:
            raise Skip("not converged")
        E = np.real(E)
        ctx.check(E >= ex - 1e-9 * size, "VUMPS D=%d below the exact energy density" % D)
        if last is not None:
            ctx.check(E <= last + 1e-8 * size, "VUMPS: energy density rises from %.12f to %.12f with D=%d" % (last, E, D))
        last = E
    ctx.close(last, ex, "VUMPS D=12 against the exact energy density", tol=1e-6, scale=size)


def random_nn(ctx, d, dt):
    """generic translation invariant two-site interaction plus field: (mpo, two-site term incl. split field)"""
    r = ctx.integer(1, 3)
    ops = [ctx.herm(d, dt) for _ in range(r)]
    ops2 = [ctx.herm(d, dt) for _ in range(r)]
    on = ctx.herm(d, dt)
    on = on * ctx.pick(0.5, 1.5, 3.0)
    W = np.zeros((r + 2, r + 2, d, d), dtype=dt)
    W[0, 0] = np.eye(d)
    W[-1, -1] = np.eye(d)
    W[-1, 0] = on.T
    for k in range(r):
        W[-1, k + 1] = ops[k].T
        W[k + 1, 0] = ops2[k].T
    W = W * 0.5
    W[0, 0] = np.eye(d)
    W[-1, -1] = np.eye(d)
    for k in range(r):
        W[-1, k + 1] = W[-1, k + 1] * 2
    h2 = dense.mpo_dense([W, W], lrow=-1, rcol=0)
    I = np.eye(d)
    o = W[-1, 0].T
    # mpo_dense acts as v_out = M v; keep its own convention by subtracting half of each field
    h2 = h2 - 0.5 * (np.kron(dense.mpo_dense([W], lrow=-1, rcol=0), I) + np.kron(I, dense.mpo_dense([W], lrow=-1, rcol=0)))
    return Tensors([W]), h2


def anderson(h2, d, n):
    M = np.zeros((d ** n, d ** n), dtype=h2.dtype)
    for k in range(n - 1):
        M += np.kron(np.kron(np.eye(d ** k), h2), np.eye(d ** (n - k - 2)))
    return np.linalg.eigvalsh(M)[0] / (n - 1)


def c_vumps_random(ctx):
    d = ctx.pick(2, 2, 3)
    dt = gen.dtype(ctx)
    mpo, h2 = random_nn(ctx, d, dt)
    size = np.max(np.abs(np.linalg.eigvalsh(h2)))
    D = ctx.integer(3, 6)
    solver = ctx.pick("AR", "LAN")
    m, how = start(ctx, D, d, dt)
    ctx.sig("random", "d=%d" % d, np.dtype(dt).name, "D=%d" % D, solver, np.asarray(mpo[0]).shape[0], how)
    e, E = run_vumps(ctx, m, mpo, solver, eps=1e-8, Nmax=150, svd=ctx.flag())
    tag = "VUMPS %s random interaction d=%d D=%d" % (solver, d, D)
    if max(dense.fixed_points([np.asarray(t)])[3] for t in (e._A, e._B)) > 0.999:
        raise Skip("symmetry broken state with several dominant eigenvectors: no unique energy density")
    low = anderson(h2, d, 8 if d == 2 else 5)
    ctx.check(np.isfinite(E) and np.real(E) >= low - 1e-8 * size, tag + ": energy density %r below the lower bound %.6f" % (E, low))
    for t in (e._A, e._B):
        t = np.asarray(t)
        ctx.check(np.real(energy([t], mpo)) >= low - 1e-8 * size, tag + ": state energy below the lower bound")
    ctx.check(dense.left_iso(np.asarray(e._A)) < 1e-9 and dense.right_iso(np.asarray(e._B)) < 1e-9, tag + ": tensors not isometric")
    if e._gradnorm < 1e-8:
        audit_vumps(ctx, tag, e, E, mpo, size, 1e-8)
    else:
        ctx.count("unconverged VUMPS runs")


def printed(pattern):
    """last value matching pattern on the (captured) progress output of the engine"""
    out = getattr(en, "stdout", sys.stdout)
    try:
        txt = out.getvalue()
    except AttributeError:
        return None
    v = re.findall(pattern, txt)
    return float(v[-1]) if v else None


def c_gradient(ctx):
    mpo, ex, dt, size, rot = ising(ctx, 1)
    dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
    D = ctx.integer(3, 6)
    eps = 1e-10
    boson = ctx.flag(0.25)
    cut = not boson and ctx.flag(0.4)
    if cut:
        D = ctx.integer(5, 7)
    ctx.sig("gradient", rot, np.dtype(dt).name, "D=%d" % D, "boson" if boson else "", "cut" if cut else "")
    # steepest descent is not preconditioned: small D, moderately sized start states
    t0 = (ctx.rng.random_sample((D, D, 2)) - 0.5).astype(dt)
    if dt is complex or np.issubdtype(dt, np.complexfloating):
        t0 = t0 + 1j * (ctx.rng.random_sample((D, D, 2)) - 0.5)
    keep = t0.copy()
    kw = dict(alpha=0.1 / size * 2, alphas=[0.1 / size * 2], normgrads=[0.1], dtype=dt, factor=2.0, normtol=0.1, epsilon=eps, tol=1e-12, lgmrestol=1e-12,
              ncv=20, numeig=3, Nmaxlgmres=100)
    if boson:
        e = en.HomogeneousDiscretizedBosonEngine(Nmax=1500, mps=t0, mpo=e_mpo(mpo), dx=1.0, filename="g", **kw)
        e.simulate(1.0, 0.0, checkpoint=10 ** 9)
    else:
        if cut:
            # Schmidt coefficients below the threshold are dropped on the way
            kw["trunc"] = 10.0 ** ctx.rng.uniform(-3.5, -2)
        e = en.HomogeneousIMPSengine(Nmax=1500, mps=t0, mpo=e_mpo(mpo), filename="g", **kw)
        try:
            e.simulate(checkpoint=10 ** 9)
        except TypeError as x:
            if cut and "eig" in str(x):
                raise Skip("truncated below the smallest dimension ARPACK accepts")
            raise
        ctx.check(e._D == len(e._A) <= D, "gradient engine: bond dimension %d started from %d" % (e._D, D))
        ctx.count("gradient runs truncated" if e._D < D else "gradient runs at full dimension")
    tag = "gradient engine D=%d" % D
    ctx.check(np.array_equal(keep, t0), tag + ": the user's start tensor was changed")
    A, B = np.asarray(e._A), np.asarray(e._B)
    EA, EB = np.real(energy([A], mpo)), np.real(energy([B], mpo))
    ctx.check(min(EA, EB) >= ex - 1e-9 * size, tag + ": energy density below the exact ground state")
    ctx.check(dense.left_iso(A) < 1e-5, tag + ": A is not left isometric (%.1e)" % dense.left_iso(A))
    ctx.check(dense.right_iso(B) < 1e-5, tag + ": B is not right isometric (%.1e)" % dense.right_iso(B))
    ctx.close(EA, EB, tag + ": energies of A and B", tol=1e-6, scale=size)
    conv = e._normgrad < eps
    ctx.count("gradient engine converged" if conv else "gradient engine unconverged")
    v = printed(r"local E=(-?[0-9.]+)")
    if v is not None and conv:
        ctx.close(v, EA, tag + ": printed local energy", tol=1e-6, scale=size)
        ctx.count("printed energies compared")
    if conv:
        lim = {2: 2e-2, 3: 1e-2, 4: 2e-3}.get(len(A), 1e-3)
        ctx.check((EA - ex) / size <= lim, tag + ": converged %.2e above the exact energy density" % ((EA - ex) / size))
        x = ctx.array(A.shape, A.dtype)
        x = x / np.linalg.norm(x)
        g = (np.real(energy([A + 1e-4 * x], mpo)) - np.real(energy([A - 1e-4 * x], mpo))) / 2e-4
        ctx.check(abs(g) <= 1e-3 * size, tag + ": energy is not stationary at the converged state (slope %.2e)" % g)


def e_mpo(mpo):
    return np.asarray(mpo[0]).copy()


def c_idmrg(ctx):
    two = ctx.flag()
    N = ctx.pick(2, 4, 2, 6)
    if ctx.flag(0.25):
        J = ctx.rng.permutation([ctx.rng.uniform(0.8, 1.2), ctx.rng.uniform(0.2, 0.5)])
        N = 2
        mpo = H.XXZ(np.zeros(2), J, np.zeros(2), False)
        ex, size, dt, rot = exact_dimer(J), np.max(J), gen.dtype(ctx), "dimer"
        if ctx.flag():
            mpo = rotate(mpo, unitary(ctx, 2, dt))
    else:
        mpo, ex, dt, size, rot = ising(ctx, N)
    dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
    D = ctx.integer(2, 8)
    if rot == "dimer":
        D = max(D, 4)
    solver = ctx.pick("AR", "LAN")
    m = mpslib.MPS.random(N=N, D=D, d=2, obc=False, dtype=dt)
    how = ctx.pick("raw", "right", "left", "symmetric")
    if how != "raw":
        m.regauge(gauge=how)
    rg = ctx.pick(0, 0, 3)
    cap = D
    if two:
        cap = ctx.integer(D, 12)
        m._D = cap
    keep = [np.array(mpo[n]) for n in range(N)]
    ctx.sig("idmrg", "two" if two else "one", rot, "N=%d" % N, "D=%d" % D, "cap=%d" % cap, np.dtype(dt).name, solver, how, "regauge=%d" % rg)
    e = en.IDMRGengine(m, mpo, "idmrg")
    kw = dict(Nmax=40, NUC=ctx.pick(1, 2), Econv=1e-10, tol=1e-10, ncv=12, cp=None, solver=solver, regaugestep=rg, landelta=1e-10, landeltaEta=1e-12)
    if two:
        e.simulateTwoSite(truncation=1e-10, verbose=1, **kw)
    else:
        e.simulate(**kw)
    out = e._mps
    W = e._mpo
    tag = "IDMRG %s N=%d %s" % ("two-site" if two else "single-site", N, solver)
    ts = dense.full_tensors_inf(out)
    _, _, _, gap = dense.fixed_points(ts)
    E = energy(ts, W)
    ctx.check(abs(np.imag(E)) < 1e-8 * size * N, tag + ": complex energy")
    dev = (np.real(E) - ex) / N / size
    ctx.check(dev >= -1e-8, tag + ": energy per site %.2e below the exact ground state" % -dev)
    v = printed(r"energy per unit-cell E/N=(-?[0-9.]+)")
    if v is not None:
        ctx.close(v * N, np.real(E), tag + ": printed energy per site", tol=5e-3, scale=size * N)
        ctx.count("printed IDMRG energies compared")
    Deff = min(max(gen.bdims(out)), 12)
    lim = {2: 2e-2, 3: 1e-2, 4: 3e-3, 5: 1e-3}.get(Deff, 3e-4)
    if rot == "dimer":
        lim = 3e-2
    ctx.check(dev <= lim, tag + ": energy per site %.2e above the exact ground state at D=%d" % (dev, Deff))
    ctx.check(max(gen.bdims(out)) <= cap, tag + ": bond dimensions %s exceed %d" % (gen.bdims(out), cap))
    err = gen.canonical_errors(out)
    ctx.check(err < 1e-8, tag + ": final state is not canonical (%.1e)" % err)
    # reported by the regauging step: the cell energy of the regauged state
    if rg:
        ctx.check((np.real(e._hl) - ex) / N / size >= -1e-4, tag + ": cell energy of the environments below the exact one")
        ctx.close(np.real(e._hl), np.real(E), tag + ": cell energy of the environments against the state", tol=5e-3, scale=size * N)
    # shifting the cell by half its length an odd number of times permutes the operators
    half = N // 2
    got = [np.asarray(W[n]) for n in range(N)]
    ok = all(np.array_equal(a, b) for a, b in zip(got, keep)) or all(np.array_equal(a, b) for a, b in zip(got, keep[half:] + keep[:half]))
    ctx.check(ok, tag + ": the Hamiltonian of the engine is not the original one up to a shift of half a cell")


def c_refuse(ctx):
    """what the engines do not support is refused"""
    N = ctx.integer(2, 4)
    J, h = field(ctx, N)
    mpo = H.TFI(J, h, False)
    m = mpslib.MPS.random(N=N, D=3, d=2, obc=False, dtype=float)
    ctx.sig("refuse", N)
    for a, b in ((m, mpo), (mpslib.MPS.random(N=1, D=3, d=2, obc=False, dtype=float), mpo), (m, H.TFI(J[:1], h[:1], False))):
        try:
            en.VUMPSengine(a, b, "x")
        except ValueError:
            pass
        else:
            ctx.check(False, "VUMPSengine accepts a unit cell of %d sites" % N)
        ctx.count("oracle verdicts")
    e = en.VUMPSengine(mpslib.MPS.random(N=1, D=3, d=2, obc=False, dtype=float), H.TFI(J[:1], h[:1], False), "x")
    try:
        e.simulate(Nmax=5, solver="nonsense")
    except ValueError:
        pass
    else:
        ctx.check(False, "VUMPSengine accepts an unknown solver")
    if N % 2 == 0:
        d = en.IDMRGengine(m, mpo, "x")
        for f in (d.simulate, d.simulateTwoSite):
            try:
                f(Nmax=3, regaugestep=1)
            except ValueError:
                continue
            ctx.check(False, "IDMRG accepts regaugestep=1")


CASES = [("vumps_ising", c_vumps_ising, 26, 700), ("vumps_growth", c_vumps_growth, 3, 60), ("vumps_random", c_vumps_random, 24, 400),
         ("gradient", c_gradient, 6, 120), ("idmrg", c_idmrg, 28, 500), ("refuse", c_refuse, 3, 10)]
