"""Long-chain workloads (up to 40 sites, bond dimension up to 32): the guarantees of the finite-MPS properties far beyond dense reach,
judged with chain.py, whose cost is linear in the length."""
import copy
import os
import numpy as np
import chain, dense, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en


def dims(ctx, lo=9, hi=40):
    N = ctx.integer(lo, hi)
    return [ctx.integer(2, 4) for _ in range(N)] if ctx.flag(0.4) else [ctx.pick(2, 2, 3)] * N


def tensors(ctx, ds, Dmax=24, dt=None, style=None):
    dt = dt or gen.dtype(ctx)
    N = len(ds)
    if ctx.flag():
        D = ctx.integer(2, Dmax)
        b = [1] + [D] * (N - 1) + [1]
    else:
        b = [1] + [ctx.integer(1, Dmax) for _ in range(N - 1)] + [1]
    style = style or ctx.pick("plain", "plain", "decay", "offset")
    ts = []
    for n in range(N):
        t = ctx.array((b[n], b[n + 1], ds[n]), dt) / np.sqrt(b[n + 1] * ds[n])
        if style == "decay":
            t = t * (0.6 ** np.arange(b[n + 1]))[None, :, None]
        elif style == "offset":
            t = t + 0.3
        ts.append(t)
    # norm of order one, distributed over the chain
    for n in range(N):
        ts[n] = ts[n] / np.linalg.norm(ts[n]) * np.sqrt(b[n + 1])
    s = chain.norm(ts) ** (-1.0 / N)
    ts = [t * s for t in ts]
    ctx.sig("long", N, "b=%s" % ("flat%d" % b[1] if len(set(b[1:-1])) == 1 else "random"), "d=%s" % sorted(set(ds)), np.dtype(dt).name, style)
    return ts


def state(ctx, ds=None, unit=True, Dmax=24, dt=None, style=None):
    """(swept MPS object, its dimensions, reference chain)"""
    ds = ds or dims(ctx)
    ts = tensors(ctx, ds, Dmax, dt, style)
    m = mpslib.MPS([t.copy() for t in ts])
    m._Z = 1.0
    m.position(0)
    m.position(len(ds))
    if unit:
        c = 1.0 / abs(m._Z)
    else:
        c = ctx.pick(0.3, -2.0, 1.7)
    m._Z = m._Z * c
    ts[0] = ts[0] * c
    m.position(ctx.integer(0, len(ds)))
    return m, ds, ts


def same(ctx, m, ts, what, tol=1e-9):
    ctx.close(chain.diff(chain.full(m), ts), 0.0, what + ": represented state", tol=tol, scale=1.0)


def canonical(ctx, m, what):
    e = gen.canonical_errors(m)
    ctx.check(e < 1e-9, "%s: canonical form violated by %.1e" % (what, e))


# ---- C03 ------------------------------------------------------------------------------------------------
def moves(ctx):
    m, ds, ts = state(ctx, unit=False)
    N = len(ds)
    ref = chain.schmidts(ts)
    for _ in range(4):
        b = ctx.integer(0, N)
        if ctx.flag():
            m.position(b)
        else:
            s = np.asarray(m.getSchmidt(b))
            k = min(len(s), len(ref[b]))
            ctx.close(s[:k], ref[b][:k], "getSchmidt(%d) of %d sites" % (b, N), tol=1e-8, scale=1.0)
        ctx.check(m.pos == b, "centre at %d instead of %d" % (m.pos, b))
        canonical(ctx, m, "long chain, centre %d" % b)
    same(ctx, m, ts, "long chain after moves")
    l = m.tolist()
    l[0] = l[0] * m._Z
    ctx.close(chain.diff(l, ts), 0.0, "tolist() of a long chain", tol=1e-9, scale=1.0)


# ---- C04 ------------------------------------------------------------------------------------------------
def truncation(ctx):
    m, ds, ts = state(ctx, unit=False, Dmax=32, style=ctx.pick("plain", "decay", "decay", "offset"))
    N = len(ds)
    nrm = chain.norm(ts)
    ref = chain.schmidts(ts)
    start = m.pos
    D = ctx.pick(None, ctx.integer(2, 24))
    th = None if D is not None and ctx.flag() else 10.0 ** ctx.rng.uniform(-8, -2)
    th = None if th is None else min([th] + [0.2 * s[0] for s in ref])
    end = N if start < N / 2 else 0
    D0 = m.D
    kw = {}
    if D is not None:
        kw["D"] = D
    if th is not None:
        kw["schmidt_thresh"] = th
    whole = ctx.flag(0.3)
    if whole:
        m.truncate(schmidt_thresh=th if th is not None else 1e-16, D=D)
        swept = range(1, N)
    else:
        m.position(end, **kw)
        swept = range(start + 1, N) if end else range(1, start)
    tag = "truncation (D=%s, threshold %s, %s) of %d sites" % (D, th, "all" if whole else "from %d to %d" % (start, end), N)
    w = chain.full(m)
    bd = chain.bdims(w)
    ctx.check(D is None or all(bd[n] <= D for n in swept), tag + ": bond dimensions %s" % bd)
    ctx.check(all(a <= b for a, b in zip(bd, D0)), tag + ": bonds grew from %s to %s" % (D0, bd))
    ctx.close(chain.norm(w), nrm, tag + ": norm", tol=1e-8)
    canonical(ctx, m, tag)
    lost = sum(float(np.sum(ref[n][bd[n]:] ** 2)) for n in swept)
    best = max([0.0] + [float(np.sum(ref[n][bd[n]:] ** 2)) for n in range(1, N)])
    f = chain.ov(w, ts) / nrm ** 2
    ctx.check(abs(np.imag(f)) < 1e-8 and (lost >= 1 or (np.real(f) > 0 and np.real(f) ** 2 >= 1 - lost - 1e-9)),
              tag + ": squared overlap %r below 1-%.3e" % (np.real(f) ** 2, lost))
    ctx.check(np.real(f) ** 2 <= 1 - best + 1e-8, tag + ": better than the optimum")
    if th is not None and D is None:
        # nothing above the threshold may be dropped (up to what the sweep itself changed)
        slack = np.sqrt(max(lost, 0.0)) + 1e-12
        for n in swept:
            need = int(np.sum(ref[n] > th + slack))
            ctx.check(bd[n] >= need, tag + ": %d states kept on bond %d, %d coefficients are above the threshold" % (bd[n], n, need))
    ctx.count("long truncations that discarded weight", int(lost > 1e-12))


# ---- C05 ------------------------------------------------------------------------------------------------
def arithmetic(ctx):
    ds = dims(ctx, 9, 30)
    a, _, ta = state(ctx, ds, unit=False, Dmax=12)
    b, _, tb = state(ctx, ds, unit=False, Dmax=12)
    x = ctx.pick(2.0, -0.5, 0.7)
    op = ctx.pick("+", "-", "+=", "chain")
    if op == "+":
        r, w = a + b, chain.plus(ta, tb)
    elif op == "-":
        r, w = a - b, chain.plus(ta, tb, 1.0, -1.0)
    elif op == "+=":
        r = a.copy()
        r += b
        w = chain.plus(ta, tb)
    else:
        r, w = (a * x - b) + a, chain.plus(ta, tb, 1.0 + x, -1.0)
    same(ctx, r, w, "a%sb on %d sites" % (op, len(ds)))
    c = r.conjugate()
    same(ctx, c, [np.conj(t) for t in w], "conjugate on %d sites" % len(ds))
    r.position(ctx.integer(0, len(ds)))
    same(ctx, r, w, "a%sb after a move" % op)
    same(ctx, a, ta, "first operand")
    same(ctx, b, tb, "second operand")


# ---- C06 ------------------------------------------------------------------------------------------------
def measurements(ctx):
    ds = dims(ctx)
    N = len(ds)
    a, _, ta = state(ctx, ds, Dmax=16)
    b, _, tb = state(ctx, ds, Dmax=16)
    ctx.close(a.dot(b), chain.ov(ta, tb), "dot on %d sites" % N, tol=1e-9, scale=1.0)
    ops = [ctx.array((d, d), gen.dtype(ctx)) for d in ds]
    scale = [np.linalg.norm(o, 2) for o in ops]
    s = ctx.integer(0, N - 1)
    ctx.close(a.measureLocal(ops[s], s), chain.expect(ta, {s: ops[s]}), "measureLocal(%d) of %d sites" % (s, N), tol=1e-9, scale=scale[s])
    got = np.asarray(a.measureList(ops))
    ctx.check(got.shape == (N,), "measureList: shape %s" % (got.shape,))
    for n in sorted(set([0, N - 1, ctx.integer(0, N - 1), ctx.integer(0, N - 1)])):
        ctx.close(got[n], chain.expect(ta, {n: ops[n]}), "measureList: site %d of %d" % (n, N), tol=1e-9, scale=scale[n])
    same(ctx, a, ta, "state after measurements")


# ---- C07 ------------------------------------------------------------------------------------------------
def correlators(ctx):
    m, ds, ts = state(ctx, Dmax=16)
    N = len(ds)
    jw = ctx.flag()
    Ps = [np.diag([ctx.pick(1.0, -1.0) for _ in range(d)]) for d in ds]
    for _ in range(2):
        k = ctx.integer(2, 4)
        sites = sorted(ctx.integer(0, N - 1) for _ in range(k))
        ops = [ctx.array((ds[s], ds[s]), gen.dtype(ctx)) for s in sites]
        loc = {}
        for o, s in zip(ops, sites):
            if jw:
                for n in range(s):
                    loc[n] = (loc[n] if n in loc else np.eye(ds[n])) @ Ps[n]
            loc[s] = (loc[s] if s in loc else np.eye(ds[s])) @ o
        want = chain.expect(ts, loc)
        got = m.measure(ops, sites, Ps) if jw else m.measure(ops, sites)
        ctx.close(got, want, "measure(%s%s) of %d sites" % (sites, ", P" if jw else "", N), tol=1e-9, scale=max(1.0, np.prod([np.linalg.norm(o, 2) for o in ops])))
    same(ctx, m, ts, "state after measure")


# ---- C08 ------------------------------------------------------------------------------------------------
def circuit(ctx):
    m, ds, ts = state(ctx, dims(ctx, 9, 30), Dmax=10)
    N = len(ds)
    m.position(0)
    for _ in range(5):
        if ctx.flag(0.3):
            s = ctx.integer(0, N - 1)
            g = np.linalg.qr(ctx.array((ds[s], ds[s]), gen.dtype(ctx)))[0]
            m.applyOneSiteGate(g, s)
            ts = chain.apply1(ts, s, g)
            same(ctx, m, ts, "one-site gate at %d of %d sites" % (s, N))
            continue
        s = ctx.integer(0, N - 2)
        n = ds[s] * ds[s + 1]
        g = np.linalg.qr(ctx.array((n, n), gen.dtype(ctx)))[0].reshape(ds[s], ds[s + 1], ds[s], ds[s + 1])
        new = chain.apply2(ts, s, g)
        cut = ctx.flag(0.4)
        if cut:
            D = ctx.integer(2, 12)
            ref = chain.schmidts(new)[s + 1]
            tw, Dn = m.applyTwoSiteGate(g, s, Dmax=D)[:2]
            w = chain.full(m)
            tag = "two-site gate at %d of %d sites, Dmax=%d" % (s, N, D)
            drop = float(np.sum(ref[Dn:] ** 2))
            ctx.check(Dn <= D and chain.bdims(w)[s + 1] == Dn, tag + ": bond dimension %d" % Dn)
            ctx.close(tw, drop, tag + ": truncated weight", tol=1e-8, scale=1.0)
            f = chain.ov(w, new) / (chain.norm(w) * chain.norm(new))
            ctx.close(np.real(f) ** 2, 1.0 - drop, tag + ": fidelity", tol=1e-8, scale=1.0)
            ts = w
        else:
            out = m.applyTwoSiteGate(g, s)
            ts = new
            same(ctx, m, ts, "two-site gate at %d of %d sites" % (s, N), tol=1e-8)
    canonical(ctx, m, "long circuit")


# ---- C09 ------------------------------------------------------------------------------------------------
def mpo(ctx):
    m, ds, ts = state(ctx, dims(ctx, 9, 30), Dmax=8, unit=False)
    N = len(ds)
    M = [1] + [ctx.integer(1, 4) for _ in range(N - 1)] + [1]
    dt = gen.dtype(ctx)
    w = [ctx.array((M[n], M[n + 1], ds[n], ds[n]), dt) / np.sqrt(M[n + 1] * ds[n]) for n in range(N)]
    want = chain.applympo(ts, w)
    if ctx.flag():
        keep = [t.copy() for t in m.tensors]
        l = mf.applyMPO(m.tolist(), w)
        l[0] = l[0] * m._Z
        ctx.close(chain.diff(l, want), 0.0, "mpsfunctions.applyMPO on %d sites" % N, tol=1e-9, scale=1.0)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, m.tensors)), "applyMPO changed its input")
    else:
        m.applyMPO(w)
        same(ctx, m, want, "applyMPO on %d sites" % N, tol=1e-8)


# ---- C10 ------------------------------------------------------------------------------------------------
def gammalambda(ctx):
    from props import c10
    m, ds, ts = state(ctx, dims(ctx, 9, 30), Dmax=16, style=ctx.pick("plain", "offset"))
    N = len(ds)
    ref = chain.schmidts(ts)
    m.canonize()
    G, L = m._gamma, m._lambda
    c10.form(ctx, G, L, N, "canonize of %d sites" % N)
    for n in range(N + 1):
        k = min(len(L[n]), len(ref[n]))
        ctx.close(np.asarray(L[n])[:k], ref[n][:k], "Lambda[%d] of %d sites" % (n, N), tol=1e-8, scale=1.0)
    u = c10.products(G, L)
    f = chain.ov(u, ts) / (chain.norm(u) * chain.norm(ts))
    ctx.close(abs(f), 1.0, "overlap of the Gamma-Lambda product with the state (%d sites)" % N, tol=1e-8)
    c10.isometries(ctx, G, L, "canonize of %d sites" % N)
    same(ctx, m, ts, "state after canonize")


# ---- C13 / C14 ------------------------------------------------------------------------------------------
SX = np.array([[0., 1.], [1., 0.]])
SY = np.array([[0., -1j], [1j, 0.]])
SZ = np.diag([-1., 1.])


def hamiltonian(ctx, N=None):
    """(name, MPO, reference chain of the operator, local dimension, function giving the couplings)"""
    N = N or ctx.integer(9, 40)
    k = ctx.pick("TFI", "XXZ", "Fermi", "Hubbard", "TFI_2", "XXZflipped", "Jess")
    r = lambda n: ctx.rng.uniform(-2, 2, n)
    dt = gen.dtype(ctx)
    c = np.array([[0., 1.], [0., 0.]])
    num = np.diag([0., 1.])
    if k in ("TFI", "TFI_2"):
        J, B = r(N - 1), r(N)
        a, z = (SX, SZ) if k == "TFI" else (SZ, SX)
        return k, getattr(H, k)(J, B, True, dt), chain.hsum([2] * N, lambda j: B[j] * z, lambda j: [(J[j] * a, a)])
    if k == "XXZ":
        Jz, Jxy, B = r(N - 1), r(N - 1), r(N)
        return k, H.XXZ(Jz, Jxy, B, True, dt), chain.hsum([2] * N, lambda j: B[j] * 0.5 * SZ, lambda j: [
            (Jz[j] * 0.25 * SZ, SZ), (Jxy[j] * 0.25 * SX, SX), (Jxy[j] * 0.25 * SY, SY)], complex)
    if k == "XXZflipped":
        De, J = r(N - 1), r(N - 1)
        return k, H.XXZflipped(De, J, True), chain.hsum([2] * N, None, lambda j: [(J[j] * SX, SX), (-J[j] * SY, SY), (-De[j] * J[j] * SZ, SZ)], complex)
    if k == "Jess":
        J, w, chi = r(N - 1), r(N), r(N)
        z = np.diag([1., -1.])
        E = np.eye(2)
        S = [np.kron(x, E) for x in (SX, SY, z)] + [np.kron(E, x) for x in (SX, SY, z)]
        return k, H.JessHamiltonian(J, w, chi, True), chain.hsum([4] * N, lambda j: w[j] * (S[0] + S[3]) + chi[j] * np.kron(SX, SX),
                                                                 lambda j: [(J[j] * x, x) for x in S], complex)
    P = np.diag([1., -1.])
    if k == "Fermi":
        V, t, mu = r(N - 1), r(N - 1), r(N)
        # read as O[in,out] the operator is transposed; every term is given together with its adjoint
        return k, H.SpinlessFermions(V, t, mu, True, dt), chain.hsum([2] * N, lambda j: mu[j] * num, lambda j: [
            (V[j] * num, num), (-t[j] * c.T @ P, c), (-t[j] * P @ c, c.T)])
    Z, E = np.diag([1., -1.]), np.eye(2)
    dn, up, P = np.kron(c, E), np.kron(Z, c), np.kron(Z, Z)
    nu, nd = up.T @ up, dn.T @ dn
    U, tu, td, mu, md = r(N), r(N - 1), r(N - 1), r(N), r(N)
    return k, H.HubbardChain(U, tu, td, mu, md, True, dt), chain.hsum([4] * N, lambda j: mu[j] * nu + md[j] * nd + U[j] * nu @ nd, lambda j: [
        (-t * f.T @ P, f) for t, f in ((tu[j], up), (td[j], dn))] + [(-t * P @ f, f.T) for t, f in ((tu[j], up), (td[j], dn))])


def models(ctx):
    k, o, ref = hamiltonian(ctx)
    N = len(ref)
    got = [np.asarray(o[n]) for n in range(len(o))]
    ctx.check(len(got) == N and got[0].shape[0] == 1 and got[-1].shape[1] == 1, "%s: not an open MPO of %d sites" % (k, N))
    ctx.close(chain.diff(chain.opchain(got), chain.opchain(ref)), 0.0, "%s on %d sites" % (k, N), tol=1e-10, scale=1.0)
    ctx.sig(k, N)


def bonds(ctx):
    """the bond operators behind twoSiteGate sum up to H on a long chain (first order of the gate in tau)"""
    k, o, ref = hamiltonian(ctx, ctx.integer(9, 24))
    N = len(ref)
    d = ref[0].shape[2]
    if d > 3:
        raise Skip("large local dimension")
    tau = 1e-4
    terms = []
    for n in range(N - 1):
        p, q = np.asarray(o.twoSiteGate(n, n + 1, tau)), np.asarray(o.twoSiteGate(n, n + 1, -tau))
        h = ((p - q) / (2 * tau)).transpose(0, 2, 1, 3).reshape(d * d, d * d)
        u, s, v = np.linalg.svd(h)
        terms.append([((u[:, i] * s[i]).reshape(d, d), v[i].reshape(d, d)) for i in range(len(s)) if s[i] > 1e-12])
    got = chain.hsum([d] * N, None, lambda j: terms[j], complex)
    ctx.close(chain.diff(chain.opchain(got), chain.opchain(ref)), 0.0, "sum of the bond operators of %s on %d sites" % (k, N), tol=1e-5, scale=1.0)
    ctx.sig(k, N)


# ---- C15 ------------------------------------------------------------------------------------------------
def environments(ctx):
    k, o, ref = hamiltonian(ctx, ctx.integer(9, 30))
    N, d = len(ref), ref[0].shape[2]
    m, ds, ts = state(ctx, [d] * N, Dmax=12 if d < 4 else 6)
    want = chain.expect_mpo(ts, ref)
    scale = sum(np.linalg.norm(w) for w in ref) / N + 1.0
    m.position(0)
    e = en.DMRGengine(m, o, "long")
    for _ in range(3):
        n = ctx.integer(1, N - 1)
        e.position(n)
        ctx.check(e.mps.pos == n, "engine centre at %d instead of %d" % (e.mps.pos, n))
        c = e.mps._mat
        l, r = e._L[n], e._R[N - n]
        en1 = np.sum(np.asarray(mf.HAproductBondMatrix(l, r, c)) * np.conj(c))
        ctx.close(en1, want, "<H> between the engine's blocks at bond %d of %d (%s)" % (n, N, k), tol=1e-9, scale=scale * N)
        ts2 = [np.asarray(t) for t in e.mps.tensors]
        ws = [np.asarray(o[i]) for i in range(N)]
        ctx.close(mf.getL(ts2[:n], ws[:n], np.ones((1, 1, 1)))[-1], l, "getL against the engine's block at bond %d" % n, tol=1e-9)
        ctx.close(mf.getR(ts2[n:], ws[n:], np.ones((1, 1, 1)))[-1], r, "getR against the engine's block at bond %d" % n, tol=1e-9)
    ctx.sig(k, N)


# ---- C23 ------------------------------------------------------------------------------------------------
def storage(ctx):
    m, ds, ts = state(ctx, unit=False)
    m.save("long")
    o = mpslib.MPS.random(4, 2, 2, True)
    r = o.load("long")
    r = o if r is None else r
    same(ctx, r, ts, "long chain after save and load", tol=1e-10)
    ctx.check(r.pos == m.pos and list(r.D) == list(m.D) and r.dtype == m.dtype, "long chain: centre, bonds or dtype after load")
    canonical(ctx, r, "loaded long chain")


# ---- C18 / C19 / C20: free fermions -----------------------------------------------------------------------
def free(ctx, N):
    """XX chain with site-dependent couplings and fields: (MPO, one-body matrix, constant)"""
    J, B = 1.0 + ctx.rng.uniform(-0.4, 0.4, N - 1), ctx.rng.uniform(-0.8, 0.8, N)
    h = np.diag(B).astype(float)
    for j in range(N - 1):
        h[j, j + 1] = h[j + 1, j] = J[j] / 2
    dt = gen.dtype(ctx)
    return H.XXZ(np.zeros(N - 1), J, B, True, dt), h, -np.sum(B) / 2, dt


def dmrg(ctx):
    N = ctx.integer(10, 20)
    o, h, c0, dt = free(ctx, N)
    w = np.linalg.eigvalsh(h)
    E0 = np.sum(w[w < 0]) + c0
    D = ctx.integer(12, 24)
    two = ctx.flag(0.6)
    m = mpslib.MPS.random(N, D, 2, True, dtype=dt)
    m.position(N)
    m.position(0)
    d = en.DMRGengine(m, o, "free")
    solver = ctx.pick("AR", "LAN")
    tag = "%s DMRG (%s) of a free-fermion chain of %d sites, D=%d" % ("two-site" if two else "single-site", solver, N, D)
    last = None
    ws = [np.asarray(o[n]) for n in range(N)]
    size = abs(E0)
    for k in range(3):
        if two:
            e = d.simulateTwoSite(Nmax=2, Econv=1e-12, tol=1e-10, ncv=20, cp=None, verbose=0, solver=solver, truncation=1e-12, Ndiag=5, nmaxlan=100, landelta=1e-8, landeltaEta=1e-12)
        else:
            e = d.simulate(Nmax=2, Econv=1e-12, tol=1e-10, ncv=20, cp=None, verbose=0, solver=solver, Ndiag=5, nmaxlan=100, landelta=1e-8, landeltaEta=1e-12)
        ts = chain.full(d.mps)
        ex = np.real(chain.expect_mpo(ts, ws))
        ctx.check(ex >= E0 - 1e-8 * size, tag + ": energy %.12g below the exact %.12g" % (ex, E0))
        if not two:
            ctx.close(np.real(e), ex, tag + ": returned energy", tol=1e-7, scale=size)
            ctx.check(last is None or ex <= last + 1e-8 * size, tag + ": energy rose from %r to %r" % (last, ex))
        else:
            ctx.check(abs(np.real(e) - ex) <= 1e-3 * size, tag + ": returned energy %r, energy of the state %r" % (e, ex))
        ctx.check(max(d.mps.D) <= D, tag + ": bonds %s" % d.mps.D)
        ctx.close(chain.norm(ts), 1.0, tag + ": norm", tol=1e-8)
        canonical(ctx, d.mps, tag)
        last = ex
    ctx.close(last, E0, tag + ": converged energy", tol=2e-3, scale=size)
    got = np.real(np.asarray(d.mps.measureList([0.5 * SZ] * N)))
    for n in range(N):
        ctx.close(got[n], np.real(chain.expect(ts, {n: 0.5 * SZ})), tag + ": magnetisation of site %d" % n, tol=1e-8, scale=1.0)
    ctx.sig("free", N, D, two, solver, np.dtype(dt).name)


def product(ctx, N):
    occ = [ctx.integer(0, 1) for _ in range(N)]
    ts = []
    for n in range(N):
        t = np.zeros((1, 1, 2), dtype=complex)
        t[0, 0, occ[n]] = 1.0
        ts.append(t)
    m = mpslib.MPS(ts)
    m._Z = 1.0
    m.position(N)
    m.position(0)
    return m, np.array(occ, float)


def quench(ctx):
    """TEBD of a product state against the exact single-particle evolution"""
    N = ctx.integer(9, 16)
    o, h, c0, dt = free(ctx, N)
    m, occ = product(ctx, N)
    T = ctx.rng.uniform(0.5, 1.2)
    w, u = np.linalg.eigh(h)
    U = (u * np.exp(-1j * w * T)) @ u.conj().T
    want = np.abs(U) ** 2 @ occ - 0.5
    err = []
    for n in (10, 20):
        e = en.TimeEvolutionEngine.TEBD(m, o, "quench")
        k = n // 2 if ctx.flag() else n
        tw = 0.0
        for part in ([k] if k == n else [k, n - k]):
            tw = e.doTEBD(dt=-1j * T / n, numsteps=part, Dmax=40, tr_thresh=1e-9, verbose=0)
        tag = "TEBD quench of %d sites, %d steps" % (N, n)
        ctx.check(max(e.mps.D) <= 40, tag + ": bonds %s" % e.mps.D)
        ctx.close(chain.norm(chain.full(e.mps)), 1.0, tag + ": norm", tol=1e-8)
        got = np.real(np.asarray(e.measureLocal([0.5 * SZ] * N)))
        ctx.close(np.sum(got), np.sum(want), tag + ": total magnetisation", tol=1e-7, scale=1.0)
        err.append(np.max(np.abs(got - want)))
    ctx.check(err[0] < 0.02, "TEBD quench of %d sites: error %.2e with 10 steps" % (N, err[0]))
    ctx.check(err[1] <= 0.4 * err[0] + 1e-5, "TEBD quench of %d sites: error %.2e with 10 steps, %.2e with 20" % (N, err[0], err[1]))
    ctx.sig("quench", N, np.dtype(dt).name, "".join("%d" % x for x in occ))


def tdvp(ctx):
    """TDVP at small bond dimension on a long interacting chain: norm, energy, dimensions, forward and back"""
    k, o, ref = hamiltonian(ctx, ctx.integer(9, 14))
    N, d = len(ref), ref[0].shape[2]
    if d > 3:
        raise Skip("large local dimension")
    D = ctx.integer(2, 6)
    b = [1] + [min(D, d ** min(n, N - n)) for n in range(1, N)] + [1]
    ts = [ctx.array((b[n], b[n + 1], d), complex) / np.sqrt(b[n + 1] * d) for n in range(N)]
    m = mpslib.MPS(ts)
    m._Z = 1.0
    m.position(N)
    m.position(0)
    m._Z = 1.0
    t0 = chain.full(m)
    e0 = np.real(chain.expect_mpo(t0, ref))
    e = en.TimeEvolutionEngine.TDVP(m, o, "long")
    solver = ctx.pick("LAN", "LAN", "SEXPMV", "RK45")
    tag = "TDVP (%s) of %s on %d sites, D=%d" % (solver, k, N, D)
    kw = dict(verbose=0, solver=solver, krylov_dim=12, rtol=1e-9, atol=1e-11)
    dt = 0.02
    scale = N * 2.0
    e.doTDVP(-1j * dt, 2, **kw)
    t1 = chain.full(e.mps)
    ctx.close(chain.norm(t1), 1.0, tag + ": norm", tol=1e-7)
    ctx.close(np.real(chain.expect_mpo(t1, ref)), e0, tag + ": energy", tol=1e-6, scale=scale)
    ctx.check(chain.bdims(t1) == chain.bdims(t0), tag + ": bonds changed")
    e.doTDVP(1j * dt, 2, **kw)
    ctx.close(abs(chain.ov(chain.full(e.mps), t0)), 1.0, tag + ": forward and back", tol=1e-6)
    same(ctx, m, t0, tag + ": initial state")
    e.doTDVP(-dt, 3, **kw)
    t2 = chain.full(e.mps)
    ctx.check(np.real(chain.expect_mpo(t2, ref)) < e0 + 1e-7 * scale, tag + ": imaginary time raised the energy")
    ctx.sig(k, N, D, solver)
