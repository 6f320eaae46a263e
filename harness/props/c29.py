"""C29: programs of public operations on finite and infinite states are executed exactly, in any order."""
import os
import numpy as np
import dense, gen
from common import Skip
import props.c08 as c08
import props.c18 as c18
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en

RULE = ("(program) random programs of 10-25 operations (construction, centre moves, gates, MPOs, sums, scalings, conjugation, copies, truncation, canonize, "
        "storage, single-tensor access, measurements, overlaps, DMRG, TEBD and TDVP runs) on a pool of states over one chain; after every "
        "operation every state of the pool is compared with its exact vector; (workflow) the sequence of the example scripts: ground state, "
        "measurement, truncation, local excitation, evolution by two engines, storage; (cell) programs on infinite states; distinct by the "
        "sequence of operations and the chain")
ASSUMPTIONS = ["operations that need a canonical state are only used on swept states (as everywhere)",
               "after a lossy operation (truncation, DMRG, a gate that does not conserve the norm) the exact vector is replaced by the one the state represents, "
               "once the loss has been judged"]


def normed(v):
    return v / np.linalg.norm(v)


class Program:
    def __init__(self, ctx, ds, dt):
        self.ctx, self.ds, self.N, self.dt = ctx, ds, len(ds), dt
        self.pool, self.log = [], []
        self.ham = None

    def tag(self, what):
        return "%s after [%s]" % (what, " ".join(self.log[-8:]))

    def add(self, m, v):
        if len(self.pool) < 4:
            self.pool.append([m, v])
        else:
            self.pool[self.ctx.integer(0, 3)] = [m, v]

    def fresh(self):
        m, _, v = gen.state(self.ctx, self.ds, dt=self.ctx.pick(self.dt, self.dt, float), Dmax=4)
        return m, v

    def hamiltonian(self):
        """nearest-neighbour Hamiltonian on the chain, with its dense matrix"""
        if self.ham is None:
            mpo, _ = c18_model(self.ctx, self.N)
            self.ham = mpo, dense.mpo_dense(mpo)
        return self.ham

    def audit(self, what, tol=1e-8):
        for k, (m, v) in enumerate(self.pool):
            self.ctx.close(dense.vec(m), v, self.tag("state %d" % k), tol=tol, scale=np.linalg.norm(v))
            e = gen.canonical_errors(m)
            self.ctx.check(e < 1e-7, self.tag("state %d is not canonical (%.1e)" % (k, e)))
            self.ctx.check(len(m) == self.N and list(m.d) == list(self.ds) and m.obc is True, self.tag("shape of state %d" % k))


def c18_model(ctx, N):
    r = ctx.rng
    kind = ctx.pick("TFI", "XXZ", "FERMI")
    if kind == "TFI":
        return H.TFI(r.uniform(-1.5, 1.5, N - 1), r.uniform(-1.5, 1.5, N), True), 2
    if kind == "XXZ":
        return H.XXZ(r.uniform(-1.5, 1.5, N - 1), r.uniform(-1.5, 1.5, N - 1), r.uniform(-1, 1, N), True), 2
    return H.SpinlessFermions(r.uniform(-1, 1, N - 1), r.uniform(-1, 1, N - 1), r.uniform(-1, 1, N), True), 2


def sweep(ctx, m):
    """a canonical form; one sweep suffices, which may leave bonds larger than the rank"""
    N = len(m)
    if m.pos == 0:
        m.position(N)
    elif m.pos == N:
        m.position(0)
    else:
        m.position(0)
        m.position(N)
    if ctx.flag(0.4):
        m.position(N - m.pos)


QUICK = ["pos", "copy", "conj", "iconj", "mul", "imul", "div", "neg", "add", "iadd", "sub", "gate1", "gate2", "gate2n", "mpo", "mpolist", "trunc", "cut", "canonize",
         "store", "tolist", "schmidt", "measure", "list", "npoint", "overlap", "element", "tensor", "reim", "setitem"]
ENGINES = ["dmrg", "dmrg2", "tebd", "tdvp"]


def step(p, op):
    ctx, ds, N = p.ctx, p.ds, p.N
    k = ctx.integer(0, len(p.pool) - 1)
    m, v = p.pool[k]
    nv = np.linalg.norm(v)
    dt = complex if np.issubdtype(m.dtype, np.complexfloating) else float
    p.log.append("%s@%d" % (op, k))

    def put(w):
        p.pool[k][1] = w

    if op == "pos":
        x = ctx.integer(0, N)
        m.position(x)
        ctx.check(m.pos == x, p.tag("position"))
    elif op == "copy":
        p.add(m.copy(), v.copy())
    elif op == "conj":
        p.add(m.conjugate(), v.conj())
    elif op == "iconj":
        m.conj()
        put(v.conj())
    elif op in ("mul", "imul", "div"):
        x = ctx.pick(0.5, -1.3, 2.0) if dt is float else ctx.pick(0.4 - 0.8j, 1j, -1.0)
        if op == "mul":
            p.add(ctx.pick(lambda: m * x, lambda: x * m)(), x * v)
        elif op == "div":
            p.add(m / x, v / x)
        else:
            m *= x
            put(x * v)
    elif op == "neg":
        p.add(-m, -v)
    elif op in ("add", "sub", "iadd"):
        o, w = p.pool[ctx.integer(0, len(p.pool) - 1)]
        s = v - w if op == "sub" else v + w
        if max(m.D) + max(o.D) > 24 or np.linalg.norm(s) < 1e-3 * (nv + np.linalg.norm(w)) or (op == "iadd" and o is m):
            return False
        if op == "iadd":
            m += o
            c = m
        else:
            c = m + o if op == "add" else m - o
        ctx.close(dense.vec(c), s, p.tag("sum before sweeping"), tol=1e-8, scale=nv + np.linalg.norm(w))
        sweep(ctx, c)
        if op == "iadd":
            put(s)
        else:
            p.add(c, s)
    elif op == "gate1":
        s = ctx.integer(0, N - 1)
        g = c08.unitary(ctx, ds[s], dt) if ctx.flag() else ctx.array((ds[s], ds[s]), dt)
        w = c08.gate_on(v, g, s, ds)
        if np.linalg.norm(w) < 1e-3 * nv:
            return False
        m.applyOneSiteGate(g, s)
        put(w)
    elif op in ("gate2", "gate2n"):
        s = ctx.integer(0, N - 2)
        n = ds[s] * ds[s + 1]
        g = c08.unitary(ctx, n, dt) if op == "gate2" else ctx.array((n, n), dt) + 2 * np.eye(n)
        w = c08.gate_on(v, g, s, ds)
        if np.linalg.norm(w) < 1e-2 * nv:
            return False
        m.applyTwoSiteGate(g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s)
        put(w * (nv / np.linalg.norm(w)) if op == "gate2n" else w)
    elif op in ("mpo", "mpolist"):
        M = [1] + [ctx.integer(1, 2) for _ in range(N - 1)] + [1]
        if max(m.D) * max(M) > 30:
            return False
        W = [ctx.array((M[n], M[n + 1], ds[n], ds[n]), dt) for n in range(N)]
        w = v @ dense.mpo_dense(W)
        if np.linalg.norm(w) < 1e-3 * nv:
            return False
        if op == "mpo":
            m.applyMPO(H.MPO(W) if ctx.flag() else W)
            sweep(ctx, m)
            put(w)
        else:
            q = gen.swept(mf.applyMPO(dense.full_tensors(m), W))
            p.add(q, w / m._Z)
    elif op == "trunc":
        m.truncate(schmidt_thresh=ctx.pick(1e-15, 1e-14, 1e-13))
        ctx.close(dense.vec(m), v, p.tag("lossless truncation"), tol=1e-7, scale=nv)
        put(dense.vec(m))
    elif op == "cut":
        D = ctx.integer(1, 3)
        th = 10.0 ** ctx.rng.uniform(-6, -2)
        lost = 0.0
        spec = [dense.schmidt(v, ds, n) for n in range(1, N)]
        m.truncate(schmidt_thresh=th, D=D)
        b = gen.bdims(m)
        ctx.check(max(b) <= D, p.tag("truncation to D=%d left %s" % (D, b)))
        lost = sum(float(np.sum(s[b[n + 1]:] ** 2)) for n, s in enumerate(spec))
        w = dense.vec(m)
        f = abs(np.vdot(v, w)) / nv / np.linalg.norm(w)
        ctx.check(f ** 2 >= 1 - lost - 1e-9, p.tag("truncation lost %.3e, the discarded weight is %.3e" % (1 - f ** 2, lost)))
        ctx.close(np.linalg.norm(w), nv, p.tag("norm after truncation"), tol=1e-8, scale=nv)
        put(w)
    elif op == "canonize":
        # dividing by tiny coefficients: accuracy of the Gammas only, the state itself is unaffected
        m.canonize()
    elif op == "store":
        m.save("s%d" % k)
        o = p.pool[ctx.integer(0, len(p.pool) - 1)][0].copy() if ctx.flag() else mpslib.MPS.random(2, 2, 2, True)
        o.load("s%d" % k)
        ctx.check(o.pos == m.pos, p.tag("centre of the loaded state"))
        p.add(o, v.copy())
    elif op == "tolist":
        p.add(gen.swept(m.tolist(), Z=1.0), v / m._Z)
    elif op == "schmidt":
        n = ctx.integer(1, N - 1)
        s = np.sort(np.asarray(m.getSchmidt(n)))[::-1]
        full = dense.schmidt(v, ds, n)
        j = min(len(s), len(full))
        ctx.close(s[:j], full[:j], p.tag("Schmidt coefficients of bond %d" % n), tol=1e-8, scale=1.0)
    elif op == "measure":
        s = ctx.integer(0, N - 1)
        o = ctx.array((ds[s], ds[s]), ctx.pick(float, complex))
        ctx.close(m.measureLocal(o, s), dense.expect(dense.embed(o, s, ds), v), p.tag("measureLocal(%d)" % s), tol=1e-8, scale=nv ** 2 * np.linalg.norm(o))
    elif op == "list":
        O = [ctx.herm(d) for d in ds]
        ctx.close(np.asarray(m.measureList(O)), [dense.expect(dense.embed(o, s, ds), v) for s, o in enumerate(O)], p.tag("measureList"), tol=1e-8,
                  scale=nv ** 2 * max(np.linalg.norm(o) for o in O))
    elif op == "npoint":
        n = ctx.integer(2, 3)
        sites = sorted(ctx.integer(0, N - 1) for _ in range(n))
        if len(set(sites)) < n:
            return False
        O = [ctx.array((ds[s], ds[s]), ctx.pick(float, complex)) for s in sites]
        full = [np.eye(d) for d in ds]
        for s, o in zip(sites, O):
            full[s] = o
        ctx.close(m.measure(O, sites), dense.expect(dense.string(full, ds), v), p.tag("measure(%s)" % sites), tol=1e-8,
                  scale=nv ** 2 * np.prod([np.linalg.norm(o) for o in O]))
    elif op in ("overlap", "element"):
        o, w = p.pool[ctx.integer(0, len(p.pool) - 1)]
        if op == "overlap":
            ctx.close(m.dot(o), np.sum(v * np.conj(w)), p.tag("dot"), tol=1e-8, scale=nv * np.linalg.norm(w))
        else:
            O = [ctx.herm(d) for d in ds]
            got = np.asarray(m.measureMatrixElementList(o, O))
            ctx.close(got, [(v @ dense.embed(a, s, ds)) @ np.conj(w) for s, a in enumerate(O)], p.tag("measureMatrixElementList"), tol=1e-8,
                      scale=nv * np.linalg.norm(w) * max(np.linalg.norm(a) for a in O))
    elif op == "tensor":
        s = [x for x in (m.pos - 1, m.pos) if 0 <= x < N][-1]
        t = np.array(m.tensor(s))
        b = gen.bdims(m)
        ctx.check(t.shape[2] == ds[s], p.tag("tensor(%d)" % s))
        ctx.close(np.linalg.norm(t), 1.0, p.tag("norm of the centre tensor"), tol=1e-8)
    elif op == "reim":
        a, b = m.real(), m.imag()
        ctx.check(all(np.isrealobj(t) for t in a.tensors) and all(np.isrealobj(t) for t in b.tensors), p.tag("real/imag"))
    elif op == "setitem":
        s = ctx.integer(0, N - 1)
        m[s] = np.array(m[s])
    elif op in ENGINES:
        return engine(p, op, k)
    return True


def engine(p, op, k):
    ctx, ds, N = p.ctx, p.ds, p.N
    m, v = p.pool[k]
    if any(d != 2 for d in ds):
        return False
    mpo, Hd = p.hamiltonian()
    size = max(np.linalg.norm(Hd, 2), 1e-6)
    nv = np.linalg.norm(v)
    if op in ("dmrg", "dmrg2"):
        # the engine expects a normalised state and works in place
        e0 = np.real(dense.expect(Hd, v)) / nv ** 2
        b = gen.bdims(m)
        if len(m) < 3 or min(b[1:-1]) < 2:
            return False
        m.resetZ()
        if op == "dmrg2":
            m._D = ctx.integer(max(b), max(b) + 4)
        e = en.DMRGengine(m, mpo, "p%d" % k)
        kw = dict(Nmax=ctx.pick(1, 2), Econv=1e-12, tol=1e-10, ncv=12, verbose=0, solver=ctx.pick("AR", "LAN"))
        E = e.simulate(**kw) if op == "dmrg" else e.simulateTwoSite(truncation=1e-12, **kw)
        w = dense.vec(m)
        ctx.close(np.linalg.norm(w), 1.0, p.tag("norm after DMRG"), tol=1e-8)
        x = np.real(dense.expect(Hd, w))
        ctx.check(x <= e0 + 1e-7 * size, p.tag("DMRG raised the energy from %.10g to %.10g" % (e0, x)))
        ctx.check(x >= np.linalg.eigvalsh(Hd)[0] - 1e-8 * size, p.tag("energy below the ground state"))
        if op == "dmrg":
            ctx.close(E, x, p.tag("energy returned by DMRG"), tol=1e-7, scale=size)
        p.pool[k][1] = w
        return True
    t = ctx.rng.uniform(0.002, 0.02) / size
    kind = ctx.pick("real", "real", "imag")
    dt = -1j * t if kind == "real" else -t
    n = ctx.integer(1, 4)
    e = en.TimeEvolutionEngine(m, mpo, "p%d" % k)
    want = normed(v @ dense.expm_herm(Hd, n * dt))
    if op == "tebd":
        e.doTEBD(dt=dt, numsteps=n, Dmax=10 ** 4, tr_thresh=1e-16, verbose=0)
        tol = 20 * (N * 4 * t * 3) ** 2 * n * t + 1e-6
    else:
        cap = [min(2 ** b, 2 ** (N - b)) for b in range(N + 1)]
        if gen.bdims(m) != cap:
            # the variational manifold does not contain the evolved state: conservation only
            if kind == "imag":
                return False
            e.doTDVP(dt + 0j, n, solver="LAN", krylov_dim=12, verbose=0)
            w = dense.vec(e.mps)
            ctx.close(np.linalg.norm(w), 1.0, p.tag("norm after TDVP"), tol=1e-8)
            ctx.close(np.real(dense.expect(Hd, w)), np.real(dense.expect(Hd, v)) / nv ** 2, p.tag("energy after TDVP"), tol=1e-5, scale=size)
            p.add(e.mps, w)
            return True
        e.doTDVP(dt + 0j, n, solver="LAN", krylov_dim=12, verbose=0)
        tol = 1e-6
    w = dense.vec(e.mps)
    ctx.close(np.linalg.norm(w), 1.0, p.tag("norm after " + op), tol=1e-7)
    f = np.vdot(want, w)
    ctx.check(np.linalg.norm(w - want * f / abs(f)) <= tol, p.tag("%s (%s, %d steps of %.3g) deviates by %.2e" % (op, kind, n, t, np.linalg.norm(w - want * f / abs(f)))))
    p.add(e.mps, w)
    return True


def program(ctx):
    if ctx.flag(0.5):
        ds = [2] * ctx.integer(2, 6)
    else:
        ds = gen.dims(ctx, maxdim=300)
    p = Program(ctx, ds, gen.dtype(ctx))
    p.add(*p.fresh())
    if ctx.flag(0.7):
        p.add(*p.fresh())
    ops = []
    for _ in range(ctx.integer(10, 25)):
        op = ctx.pick(*ENGINES) if all(d == 2 for d in ds) and len(ds) > 2 and ctx.flag(0.15) else ctx.pick(*QUICK)
        done = step(p, op)
        if done is False:
            p.log.pop()
            continue
        ops.append(op)
        p.audit(op)
        # keep the numbers in a moderate range, as a user would
        for q in p.pool:
            s = np.linalg.norm(q[1])
            if not 1e-3 < s < 1e3:
                q[0] *= float(1.0 / s)
                q[1] = q[1] / s
        ctx.count("operations")
        ctx.count("op " + op)
    for a, b in zip(ops, ops[1:]):
        ctx.sig(a, b)


def workflow(ctx):
    """the life of a state in the example scripts"""
    N = ctx.integer(4, 7)
    mpo, _ = c18_model(ctx, N)
    Hd = dense.mpo_dense(mpo)
    ds = [2] * N
    ev = np.linalg.eigvalsh(Hd)
    size = max(abs(ev[0]), abs(ev[-1]))
    if ev[1] - ev[0] < 0.05 * size:
        raise Skip("no gap")
    cap = 2 ** (N // 2)
    dt = gen.dtype(ctx)
    m = mpslib.MPS.random(N=N, D=ctx.integer(2, 4), d=2, obc=True, dtype=dt)
    m._D = cap
    m.position(N)
    m.position(0)
    e = en.DMRGengine(m, mpo, "w")
    solver = ctx.pick("AR", "LAN")
    e.simulateTwoSite(Nmax=ctx.integer(2, 4), Econv=1e-12, tol=1e-10, ncv=20, verbose=0, truncation=1e-12, solver=solver)
    if min(t.size for t in e.mps.tensors) < 4:
        raise Skip("product state: local problem too small for the iterative solvers")
    E = e.simulate(Nmax=ctx.integer(4, 10), Econv=1e-13, tol=1e-12, ncv=20, verbose=0, solver=solver)
    g = e.mps
    v = dense.vec(g)
    tag = "workflow (N=%d, %s, %s)" % (N, np.dtype(dt).name, solver)
    ctx.close(np.real(dense.expect(Hd, v)), E, tag + ": ground-state energy against the state", tol=1e-7, scale=size)
    ctx.check(E >= ev[0] - 1e-9 * size, tag + ": energy below the ground state")
    ground = E - ev[0] <= 1e-6 * size
    ctx.count("ground states reached" if ground else "excited or unconverged states")
    sz = [np.diag([0.5, -0.5])] * N
    S = lambda v, a, b=None: np.real(dense.expect(dense.string([sz[0] if n in (a, b) else np.eye(2) for n in range(N)], ds), v))
    ctx.close(np.real(np.asarray(g.measureList(sz))), [S(v, n) for n in range(N)], tag + ": profile", tol=1e-8, scale=1.0)
    for n in range(N):
        a, b = sorted((N // 2, n))
        want = 0.25 if a == b else S(v, a, b)
        ctx.close(np.real(g.measure([sz[0], sz[0]], [a, b])), want, tag + ": correlation %d,%d" % (a, b), tol=1e-8, scale=1.0)
    g.save("ground")
    # truncation
    if ctx.flag():
        D = ctx.integer(2, cap)
        spec = [dense.schmidt(v, ds, n) for n in range(1, N)]
        g.truncate(schmidt_thresh=1e-8, D=D)
        b = gen.bdims(g)
        ctx.check(max(b) <= D, tag + ": truncated to %s" % b)
        w = dense.vec(g)
        lost = sum(float(np.sum(s[b[n + 1]:] ** 2)) for n, s in enumerate(spec))
        ctx.check(abs(np.vdot(v, w)) ** 2 >= 1 - lost - 1e-8, tag + ": truncation to D=%d" % D)
        v = w
    # local excitation
    s = ctx.integer(0, N - 1)
    op = ctx.pick(np.array([[0, 1.0], [0, 0]]), np.array([[0, 0], [1.0, 0]]), np.array([[0, 1.0], [1.0, 0]]), np.diag([1.0, -1.0]))
    w = c08.gate_on(v, op, s, ds)
    if np.linalg.norm(w) < 1e-2:
        raise Skip("excitation annihilates the state")
    ex = g.copy()
    ex.applyOneSiteGate(op, s)
    ctx.close(dense.vec(ex), w, tag + ": excited state", tol=1e-8)
    ex.position(N)
    ex.position(0)
    ex.resetZ()
    w = normed(w)
    t = ctx.rng.uniform(0.005, 0.02) / size
    tau, n = -1j * t, ctx.integer(2, 6)
    want = w @ dense.expm_herm(Hd, n * tau)
    tol = 20 * (N * 4 * t * 3) ** 2 * n * t + 1e-6
    a = en.TimeEvolutionEngine(ex, mpo, "tebd")
    a.mps.Dmax = cap
    k = ctx.integer(1, n - 1)
    a.doTEBD(dt=tau, numsteps=k, Dmax=10 ** 3, tr_thresh=1e-16, verbose=0)
    mid = np.asarray(a.measureLocal(sz))
    vm = w @ dense.expm_herm(Hd, k * tau)
    ctx.close(np.real(mid), [S(vm, i) for i in range(N)], tag + ": profile during TEBD", tol=max(10 * tol, 1e-6), scale=1.0)
    a.save("cp")
    a = en.TimeEvolutionEngine(mpslib.MPS.random(2, 2, 2, True), H.TFI(np.ones(1), np.ones(2), True), "other")
    a = a.load("cp")
    a.doTEBD(dt=tau, numsteps=n - k, Dmax=10 ** 3, tr_thresh=1e-16, verbose=0)
    x = dense.vec(a.mps)
    c08_dir(ctx, x, want, tol, tag + ": TEBD")
    # the same evolution in the full space by TDVP: enlarge the bonds first
    if N <= 6 and ctx.flag(0.6):
        big = mpslib.MPS.random(N=N, D=cap, d=2, obc=True, dtype=complex)
        big.position(N)
        big.position(0)
        big.resetZ()
        eps = 1e-5
        f = ex + eps * big
        f.position(0)
        f.position(N)
        f.position(0)
        u = normed(dense.vec(f))
        f.resetZ()
        if gen.bdims(f) == [min(2 ** j, 2 ** (N - j)) for j in range(N + 1)]:
            b = en.TimeEvolutionEngine(f, mpo, "tdvp")
            b.doTDVP(tau, n, solver=ctx.pick("LAN", "SEXPMV"), krylov_dim=12, verbose=0)
            y = dense.vec(b.mps)
            c08_dir(ctx, y, u @ dense.expm_herm(Hd, n * tau), 1e-6, tag + ": TDVP")
            ctx.check(abs(np.vdot(x, y)) >= 1 - 10 * (tol + 10 * eps), tag + ": TEBD and TDVP disagree")
            ctx.count("TEBD and TDVP compared")
    # the stored ground state is still what it was
    o = mpslib.MPS.random(2, 2, 2, True)
    o.load("ground")
    ctx.close(np.real(dense.expect(Hd, dense.vec(o))), E, tag + ": energy of the stored ground state", tol=1e-7, scale=size)
    ctx.close(dense.vec(g), v, tag + ": the ground state object", tol=1e-9)
    ctx.count("workflows")
    ctx.sig(N, np.dtype(dt).name, solver, s, n)


def c08_dir(ctx, got, want, tol, what):
    f = np.vdot(want, got)
    ctx.close(np.linalg.norm(got), 1.0, what + ": norm", tol=1e-7)
    d = np.linalg.norm(got - want * f / max(abs(f), 1e-12))
    ctx.check(d <= tol, what + " deviates by %.2e from the exact evolution (allowed %.1e)" % (d, tol))


def cell(ctx):
    """programs on infinite states: the physical state never changes unless asked to"""
    ts, dt = gen.cell(ctx, D=ctx.integer(3, 5))
    N = len(ts)
    lam = [dense.schmidt_inf([ts[(s + n) % N] for n in range(N)]) for s in range(N)]
    if min(x[-1] for x in lam) < 3e-4:
        raise Skip("spectrum too wide for the default eigensolver tolerance")
    ref = {}

    def look(ts):
        return [dense.rdm_inf(ts, s, 2) for s in range(N)]
    m = mpslib.MPS(ts)
    pool = [[m, [t.copy() for t in ts]]]
    log = []
    for _ in range(ctx.integer(5, 10)):
        k = ctx.integer(0, len(pool) - 1)
        m, r = pool[k]
        op = ctx.pick("pos", "regauge", "regauge", "canonize", "copy", "conj", "iconj", "store", "tolist", "schmidt", "mul", "rotate", "trunc")
        log.append(op + "@%d" % k)
        new = None
        if op == "pos":
            m.position(ctx.integer(0, N))
        elif op == "regauge":
            g = ctx.pick("left", "right", "symmetric")
            m.regauge(gauge=g)
            full = m.tensors
            iso = dense.left_iso if g != "right" else dense.right_iso
            ctx.check(max(iso(np.asarray(t)) for t in full) < 1e-6, "regauge(%s) after %s: tensors are not isometric" % (g, log))
        elif op == "canonize":
            m.canonize()
            L = m._lambda
            ctx.check(len(L) == N + 1, "canonize: %d Lambdas" % len(L))
            for s in range(N):
                want = dense.schmidt_inf([r[(s + n) % N] for n in range(N)])
                j = min(len(want), len(L[s]))
                ctx.close(np.asarray(L[s])[:j], want[:j], "Lambda[%d] after %s" % (s, log), tol=1e-6, scale=1.0)
        elif op == "copy":
            new = m.copy(), r
        elif op == "conj":
            new = m.conjugate(), [t.conj() for t in r]
        elif op == "iconj":
            m.conj()
            pool[k][1] = [t.conj() for t in r]
        elif op == "mul":
            m *= ctx.pick(2.0, -0.5)
        elif op == "store":
            m.save("c")
            o = mpslib.MPS.random(2, 2, 2, True) if ctx.flag() else pool[ctx.integer(0, len(pool) - 1)][0].copy()
            o.load("c")
            new = o, r
        elif op == "tolist":
            new = mpslib.MPS([np.array(t) for t in dense.full_tensors_inf(m)]), r
        elif op == "schmidt":
            continue
        elif op == "rotate":
            # a unitary on every site, by hand
            u = [np.linalg.qr(ctx.array((t.shape[2],) * 2, dt))[0] for t in r]
            new = mpslib.MPS([np.tensordot(t, x, ([2], [0])) for t, x in zip(dense.full_tensors_inf(m), u)]), [np.tensordot(t, x, ([2], [0])) for t, x in zip(r, u)]
        elif op == "trunc":
            continue
        if new is not None:
            if len(pool) < 3:
                pool.append(list(new))
            else:
                pool[ctx.integer(0, 2)] = list(new)
        for j, (x, r) in enumerate(pool):
            got = dense.full_tensors_inf(x)
            ctx.close(dense.fidelity_inf(r, got), 1.0, "fidelity of state %d after %s" % (j, log), tol=1e-6)
            ctx.check(x.obc is False and len(x) == N, "state %d after %s: flags" % (j, log))
        ctx.count("operations on infinite states")
    for j, (x, r) in enumerate(pool):
        got = dense.full_tensors_inf(x)
        for s, (a, b) in enumerate(zip(look(got), look(r))):
            ctx.close(a, b, "two-site density matrix of state %d at site %d after %s" % (j, s, log), tol=1e-5, scale=1.0)
    ctx.sig(N, *log)


CASES = [("program", program, 300, 6000), ("workflow", workflow, 60, 1200), ("cell", cell, 60, 1200)]
