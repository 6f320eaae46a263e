"""C23: save/load, checkpoints, resumption, and crashes at arbitrary points."""
import os, glob, time, signal, copy, resource
import numpy as np
import dense, long, gen
from common import Skip
from props import c14, c18, c19, c20, c21
from props.c19 import phase_distance
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as H

RULE = ("finite and infinite states of any history saved and loaded into arbitrary other objects; every engine saved, loaded and continued next to the "
        "original; TEBD/TDVP/DMRG runs resumed from each of their checkpoints, for all checkpoint periods; the writing process killed with SIGKILL at random "
        "times and file writes cut short by a file-size limit; distinct per object, history, period and crash point; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["a crash is a SIGKILL of the writing process or a failing write (no power loss, so no fsync is demanded)",
               "the DMRG checkpoint is the state; a run resumes from it with a new engine",
               "two continuations of the same DMRG trajectory agree to solver accuracy, time evolutions to rounding (fixed steps) or integrator tolerance"]


def attr(m, name):
    return getattr(m, name, None)


def fields(m):
    """everything a user can read off a state"""
    return {"length": len(m), "centre": m.pos, "dtype": np.dtype(m.dtype).name, "boundary condition": m.obc, "Dmax": m.Dmax, "bond dimensions": list(m.D),
            "local dimensions": list(m.d), "Schmidt threshold": attr(m, "_schmidt_thresh"), "rank threshold": attr(m, "_r_thresh")}


def arrays(m):
    out = [np.array(t) for t in m.tensors]
    for n in ("_mat", "_connector", "_Z"):
        if attr(m, n) is not None:
            out.append(np.array(getattr(m, n)))
    for n in ("_gamma", "_lambda"):
        out += [np.array(x) for x in (attr(m, n) or [])]
    return out


def same(ctx, tag, a, b, fa=None, xa=None):
    """b is indistinguishable from a"""
    fa, fb = fa or fields(a), fields(b)
    for k in fa:
        ctx.check(fa[k] == fb[k], tag + ": %s %r, was %r" % (k, fb[k], fa[k]))
    xa, xb = xa or arrays(a), arrays(b)
    ctx.check(len(xa) == len(xb), tag + ": number of arrays")
    for x, y in zip(xa, xb):
        ctx.check(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True), tag + ": stored arrays differ (shapes %s %s)" % (x.shape, y.shape))


def touch(ctx, m, ds):
    """a random history of public operations"""
    for _ in range(ctx.integer(0, 4)):
        q = ctx.integer(0, 6)
        if q == 0:
            m.position(ctx.integer(0, len(ds)))
        elif q == 1:
            m.truncate(schmidt_thresh=1e-3, D=ctx.pick(None, 2, 3))
        elif q == 2:
            m.applyOneSiteGate(ctx.array((ds[0], ds[0]), m.dtype), 0)
        elif q == 3:
            m.Dmax = ctx.integer(1, 40)
        elif q == 4:
            m.canonize()
        elif q == 5:
            m *= 0.5
        elif q == 6:
            s = ctx.integer(0, len(ds) - 2)
            g = np.linalg.qr(ctx.array((ds[s] * ds[s + 1],) * 2, m.dtype))[0]
            m.applyTwoSiteGate(g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s, Dmax=ctx.pick(2, 4, 50))


def some_state(ctx):
    if ctx.flag(0.3):
        ts, dt = gen.cell(ctx)
        m = mpslib.MPS(ts, schmidt_thresh=ctx.pick(1e-16, 1e-10), r_thresh=ctx.pick(1e-14, 1e-12))
        m.resetZ()
        how = ctx.pick("raw", "left", "right", "symmetric", "canonize")
        if how == "canonize":
            m.canonize()
        elif how != "raw":
            m.regauge(how)
        m.position(ctx.integer(0, len(m)))
        ctx.sig("infinite", how, len(m), np.dtype(dt).name)
        return m, list(m.d), "infinite " + how
    if ctx.flag(0.15):
        N = ctx.integer(2, 6)
        k = ctx.pick("zeros", "ones", "random", "product")
        if k == "product":
            return mpslib.MPS.productState([ctx.array((ctx.integer(2, 3),), gen.dtype(ctx)) for _ in range(N)], True), None, k
        D = ctx.integer(1, 5)
        return getattr(mpslib.MPS, k)(N, D, 2, ctx.flag() or k == "zeros", dtype=gen.dtype(ctx)), None, k
    m, ds, v = gen.state(ctx)
    m._schmidt_thresh, m._r_thresh = ctx.pick(1e-16, 1e-12), ctx.pick(1e-14, 1e-12)
    touch(ctx, m, ds)
    return m, ds, "finite"


def c_state(ctx):
    m, ds, what = some_state(ctx)
    fa, xa = fields(m), arrays(m)
    name = ctx.pick("s", "with.dot", os.path.join("sub", "x"), os.path.abspath("abs"))
    os.makedirs("sub")
    with open("None.pickle", "w") as g:
        g.write("keep")
    if ctx.flag(0.3):                                # an older and larger file under the same name
        mpslib.MPS.random(8, 6, 3, True).save(name)
    m.save(name)
    tag = "state (%s)" % what
    same(ctx, tag + " after saving", m, m, fa, xa)
    left = sorted(os.path.relpath(f) for f in glob.glob("**/*", recursive=True) if os.path.isfile(f))
    ctx.check(left == sorted(["None.pickle", os.path.relpath(name + ".pickle")]), tag + ": files after saving: %s" % left)
    o, _, other = some_state(ctx)
    ret = o.load(name)
    o = o if ret is None else ret
    same(ctx, tag + " loaded into another state (%s)" % other, m, o)
    ctx.count("round trips")
    # the loaded object is alive, independent of the original and of the file
    if ds is not None and m.obc and len(ds) > 1:
        seed = ctx.integer(0, 10 ** 6)
        a, b = copy.deepcopy(ctx), copy.deepcopy(ctx)
        a.rng, b.rng = np.random.RandomState(seed), np.random.RandomState(seed)
        touch(b, o, ds)
        same(ctx, tag + ": original after its loaded copy was used", m, m, fa, xa)
        x = copy.deepcopy(m)
        touch(a, x, ds)
        va, vb = dense.vec(x), dense.vec(o)
        ctx.close(vb, va, tag + ": the loaded state continued differently", tol=1e-9)
        ctx.check(fields(x) == fields(o), tag + ": the loaded state continued differently: %s, %s" % (fields(x), fields(o)))
    o2 = mpslib.MPS.random(2, 2, 2, True)
    ret = o2.load(name)
    same(ctx, tag + " loaded a second time", m, o2 if ret is None else ret, fa, xa)


# ---------------------------------------------------------------------------------------- engines
def engine_state(e):
    out = []
    for n in ("_L", "_R"):
        out += [None if x is None else np.array(x) for x in (attr(e, n) or [])]
    for n in ("_lb", "_rb", "_tw", "_t0", "_it", "_maxD"):
        if attr(e, n) is not None:
            out.append(np.array(getattr(e, n)))
    for x in e._mpo if isinstance(e._mpo, (list, H.MPO)) else [e._mpo]:
        out.append(np.array(x))
    return out + (arrays(e.mps) if isinstance(e.mps, mpslib.MPS) else [np.array(e.mps)])


def equal(ctx, tag, xa, xb):
    ctx.check(len(xa) == len(xb), tag + ": number of arrays")
    for x, y in zip(xa, xb):
        ctx.check((x is None) == (y is None) and (x is None or (x.shape == y.shape and np.array_equal(x, y))), tag + ": stored arrays differ")


def mostly(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol * max(1.0, np.max(np.abs(a)))


def reload(ctx, tag, e, unrelated=None):
    """save, check that e is unaltered, load through some engine object"""
    xa = engine_state(e)
    e.save("eng")
    equal(ctx, tag + ": engine after saving", xa, engine_state(e))
    ctx.check(glob.glob("eng*") == ["eng.pickle"], tag + ": files after saving: %s" % glob.glob("eng*"))
    f = (unrelated or e).load("eng")
    ctx.check(type(f) is type(e), tag + ": load returned %s" % type(f).__name__)
    equal(ctx, tag + ": engine after loading", xa, engine_state(e))
    equal(ctx, tag + ": loaded engine", xa, engine_state(f))
    return f


def both(ctx, tag, e, f, act, tol=1e-9):
    """the same action on both engines gives the same results"""
    seed = ctx.integer(0, 10 ** 6)
    np.random.seed(seed)
    x = act(e)
    np.random.seed(seed)
    y = act(f)
    for i, (p, q) in enumerate(zip(x, y)):
        ctx.check(mostly(p, q, tol), tag + ": loaded and original engine continue differently (result %d)" % i)


def model(ctx, nmax=6, maxdim=150):
    for _ in range(40):
        kind, mpo, ds, herm = c14.model(ctx, ctx.integer(2, nmax))
        if herm and np.prod(ds) <= maxdim:
            Hd = dense.mpo_dense(mpo)
            if np.max(np.abs(Hd)) > 1e-3:
                return kind, mpo, ds, Hd
    raise Skip("model")


def c_finite_engines(ctx):
    what = ctx.pick("DMRG", "DMRG two-site", "TEBD", "TDVP")
    if what.startswith("DMRG"):
        kind, mpo, ds, Hd, ev, m = c18.setup(ctx, ctx.flag())
        e = en.DMRGengine(m, mpo, "x")
        solver = ctx.pick("AR", "LAN", "LOBPCG") if what == "DMRG" else ctx.pick("AR", "LAN")
        kw = dict(tol=1e-10, ncv=20, verbose=0, solver=solver, cp=None, Econv=0.0)
        if what == "DMRG":
            act = lambda x, n: [x.simulate(Nmax=n, **kw)]
        else:
            act = lambda x, n: [x.simulateTwoSite(Nmax=n, **kw)]
    else:
        kind, mpo, ds, Hd = model(ctx)
        m, _ = c19.initial(ctx, ds)
        e = en.TimeEvolutionEngine(m, mpo, "x")
        dt = -1j * ctx.rng.uniform(0.01, 0.2) / np.linalg.norm(Hd, 2)
        if what == "TEBD":
            D = ctx.pick(3, 100)
            act = lambda x, n: list(x.doTEBD(dt, n, D, 1e-12, verbose=0))
        else:
            s = ctx.pick("LAN", "RK45", "SEXPMV")
            act = lambda x, n: [x.doTDVP(dt, n, verbose=0, solver=s)]
    tag = "%s engine (%s, N=%d)" % (what, kind, len(ds))
    ctx.sig(what, kind, len(ds), np.dtype(m.dtype).name)
    if ctx.flag(0.7):
        act(e, ctx.integer(1, 3))
    if ctx.flag(0.3):
        e.mps.position(ctx.integer(0, len(ds))) if not what.startswith("DMRG") else e.position(ctx.integer(0, len(ds)))
    if what.startswith("DMRG") and e.mps.pos != 0:
        e.position(0)
    v0 = dense.vec(e.mps)
    un = en.DMRGengine(mpslib.MPS.random(2, 2, 2, True), H.TFI(np.ones(1), np.ones(2), True), "y") if ctx.flag() else None
    f = reload(ctx, tag, e, un)
    ctx.close(dense.vec(f.mps), v0, tag + ": loaded vector", tol=0.0)
    n = ctx.integer(1, 3)
    if ctx.flag():
        both(ctx, tag, e, f, lambda x: act(x, n) + [np.abs(np.vdot(v0, dense.vec(x.mps)))], tol=1e-9)
    else:      # the other way round: using the copy first leaves the original where it was
        xa = engine_state(e)
        act(f, n)
        equal(ctx, tag + ": original after its loaded copy was used", xa, engine_state(e))
        r = e.load("eng")
        both(ctx, tag, r, e, lambda x: act(x, n) + [np.abs(np.vdot(v0, dense.vec(x.mps)))], tol=1e-9)


def c_infinite_engines(ctx):
    what = ctx.pick("VUMPS", "VUMPS", "gradient", "IDMRG")
    if what == "VUMPS":
        mpo, ex, dt, size, rot = c21.ising(ctx, 1)
        m, how = c21.start(ctx, ctx.integer(3, 6), 2, dt)
        e = en.VUMPSengine(m, mpo, "v")
        s = ctx.pick("AR", "LAN")
        act = lambda x, n: [x.simulate(Nmax=n, epsilon=1e-14, tol=1e-12, lgmrestol=1e-12, ncv=30, numeig=3, artol=1e-12, arncv=20, solver=s, checkpoint=0)]
        end = lambda x: [c21.energy([np.asarray(x._A)], mpo).real]
    elif what == "gradient":
        mpo, ex, dt, size, rot = c21.ising(ctx, 1)
        dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
        D = ctx.integer(3, 5)
        t0 = (ctx.rng.random_sample((D, D, 2)) - 0.5).astype(dt)
        e = en.HomogeneousIMPSengine(Nmax=10, mps=t0, mpo=c21.e_mpo(mpo), filename="g", alpha=0.1, alphas=[0.1], normgrads=[0.1], dtype=dt, factor=2.0,
                                     normtol=0.1, epsilon=1e-12, tol=1e-12, lgmrestol=1e-12, ncv=20, numeig=3, Nmaxlgmres=100)
        def act(x, n):
            for _ in range(n):
                x.__doGradStep__()
            return []
        end = lambda x: [np.asarray(x._mps)]
    else:
        N = ctx.pick(2, 4)
        mpo, ex, dt, size, rot = c21.ising(ctx, N)
        m = mpslib.MPS.random(N=N, D=ctx.integer(3, 5), d=2, obc=False, dtype=dt)
        m.regauge("symmetric")
        e = en.IDMRGengine(m, mpo, "i")
        def act(x, n):
            x.simulate(Nmax=n, NUC=1, tol=1e-10, ncv=20, cp=None)
            return []
        end = lambda x: [np.abs(t) for t in x.mps.tensors] + [np.asarray(x._lb), np.asarray(x._rb)]
    tag = "%s engine" % what
    ctx.sig(what, np.dtype(dt).name)
    k = ctx.integer(0, 3)
    if k:
        act(e, k)
    get = lambda x: [np.array(t) for t in x._mps] if isinstance(x._mps, mpslib.MPS) else [np.array(x._mps)]
    keep = get(e)
    e.save("eng")
    f = e.load("eng")
    ctx.check(type(f) is type(e) and f is not e, tag + ": load returned %r" % type(f))
    for x in (e, f):
        for a, b in zip(keep, get(x)):
            ctx.check(np.array_equal(a, b), tag + ": state after saving and loading")
    # one step only: ARPACK draws restart vectors from a generator of its own, so trajectories are not reproducible
    both(ctx, tag, e, f, lambda x: act(x, 1), tol=1e-7)
    both(ctx, tag, e, f, end, tol=1e-4)
    ctx.count("infinite engines reloaded")


# ------------------------------------------------------------------------------------- checkpoints
def decoys():
    """files of the user that no run may touch"""
    out = {}
    for f in ("None.pickle", "a_tebd_cp.pickle", "b_tebd_cp1.pickle", "b_tdvp_cp1.pickle", "tebd_cp2.pickle", "notes.txt", "a.pickle"):
        out[f] = ("%s %s" % (f, "x" * 10)).encode()
        with open(f, "wb") as g:
            g.write(out[f])
    return out


def undisturbed(ctx, tag, d):
    for f, x in d.items():
        got = None
        if os.path.exists(f):
            with open(f, "rb") as g:
                got = g.read()
        ctx.check(got == x, tag + ": a file that is not its own was changed or removed: %s" % f)


def evolution(ctx):
    """(tag, start(filename), run(engine, n, **kw), steps, state tolerance, checkpoint prefix, exact)
    exact: no truncation, so that splitting a full step at a checkpoint does not change anything"""
    kind, mpo, ds, Hd = model(ctx)
    m, _ = c19.initial(ctx, ds)
    f = ctx.rng.uniform(0.02, 0.3) / np.linalg.norm(Hd, 2)
    dt = f * ctx.pick(-1j, -1j, 1j, -1.0, np.exp(1j * ctx.rng.uniform(0, 6.28)))
    n = ctx.integer(1, 9)
    if ctx.flag():
        D, thr = ctx.pick(2, 3, 100), ctx.pick(1e-16, 1e-10)
        run = lambda e, k, **kw: e.doTEBD(dt, k, D, thr, verbose=0, **kw)[1]
        name, tol, exact = "tebd", 1e-7, D == 100 and thr == 1e-16
    else:
        s = ctx.pick("LAN", "RK45", "SEXPMV", "RK23")
        run = lambda e, k, **kw: e.doTDVP(dt, k, verbose=0, solver=s, rtol=1e-8, atol=1e-10, **kw)
        name, tol, exact = "tdvp", 1e-5, True
        if max(gen.bdims(m)) > 8:
            raise Skip("large")
    tag = "%s run (%s, N=%d, dt=%s, %d steps)" % (name.upper(), kind, len(ds), dt, n)
    ctx.sig(name, kind, len(ds), n, np.dtype(m.dtype).name)
    return tag, lambda fn: en.TimeEvolutionEngine(m, mpo, fn), run, n, tol, "_%s_cp" % name, exact


def compare(ctx, tag, e, f, tol):
    ctx.check(e.iteration == f.iteration, tag + ": iteration %r instead of %r" % (f.iteration, e.iteration))
    ctx.check(abs(e.time - f.time) <= 1e-10 * (1 + abs(e.time)), tag + ": time %r instead of %r" % (f.time, e.time))
    ctx.check(abs(e.truncatedWeight - f.truncatedWeight) <= 1e-8 + 1e-5 * e.truncatedWeight, tag + ": truncated weight %r instead of %r" % (f.truncatedWeight, e.truncatedWeight))
    va, vb = dense.vec(e.mps), dense.vec(f.mps)
    d = phase_distance(va, vb)
    ctx.check(d <= tol, tag + ": final state differs by %.1e" % d)
    ctx.close(np.linalg.norm(vb), np.linalg.norm(va), tag + ": norm", tol=1e-9)


def c_resume(ctx):
    tag, start, run, n, tol, mark, exact = evolution(ctx)
    cp, keep = ctx.integer(1, max(1, n)), ctx.flag()
    k0 = ctx.integer(0, 2) if ctx.flag(0.3) else 0           # steps done before the checkpointed call
    tag += " cp=%d keep_cp=%s" % (cp, keep)
    again = {} if exact else {"cp": cp, "keep_cp": True}
    ref = start("ref")
    if k0:
        run(ref, k0)
    run(ref, n)
    ctx.check(os.listdir(".") == [], tag + ": a run without cp wrote files")
    d = decoys()
    e = start("a")
    if k0:
        run(e, k0)
    run(e, n, cp=cp, keep_cp=keep)
    if exact:
        compare(ctx, tag + ": checkpointed run", ref, e, tol)
    else:
        ref = e
    undisturbed(ctx, tag, d)
    due = [k for k in range(k0 + 1, k0 + n + 1) if k % cp == 0]
    want = sorted("a%s%d.pickle" % (mark, k) for k in (due if keep else due[-1:]))
    got = sorted(set(os.listdir(".")) - set(d))
    ctx.check(got == want, tag + ": checkpoint files %s, expected %s" % (got, want))
    for k in (due if keep else due[-1:]):
        r = start("other").load("a%s%d" % (mark, k))
        ctx.check(r.iteration == k, tag + ": checkpoint %d holds iteration %r" % (k, r.iteration))
        if k0 + n > k:
            run(r, k0 + n - k, **again)
            compare(ctx, tag + ": resumed from checkpoint %d" % k, ref, r, tol)
        else:
            m = r.mps
            v = dense.vec(m) / np.linalg.norm(dense.vec(m))
            dd = phase_distance(dense.vec(ref.mps), v)
            ctx.check(dd <= tol, tag + ": final checkpoint differs from the final state by %.1e" % dd)
        ctx.count("resumptions")
    # two generations: a resumed run checkpoints on its own
    if due and keep and due[0] < k0 + n:
        r = start("other").load("a%s%d" % (mark, due[0]))
        run(r, k0 + n - due[0], cp=cp, keep_cp=True)
        compare(ctx, tag + ": resumed with checkpoints", ref, r, tol)
        ctx.check(sorted(set(os.listdir(".")) - set(d)) == want, tag + ": a resumed run continued the numbering differently")


def c_dmrg(ctx):
    """a DMRG run resumed from its checkpoint, and what the checkpoint holds"""
    kind, mpo, ds, Hd, ev, m = c18.setup(ctx, ctx.flag(0.6))
    two = ctx.flag()
    s = ctx.pick("AR", "AR", "LAN")
    if s == "LAN":
        kw = dict(tol=1e-12, verbose=0, solver=s, Econv=0.0, Ndiag=2, nmaxlan=200, landelta=1e-10, landeltaEta=1e-13)
    else:
        kw = dict(tol=1e-12, ncv=20, verbose=0, solver=s, Econv=0.0)
    if two:
        m.Dmax = 64
    fn = "simulateTwoSite" if two else "simulate"
    n = ctx.integer(1, 5)
    cp = ctx.integer(1, n)
    m2 = copy.deepcopy(m)
    tag = "DMRG %s %s (%s N=%d, %d sweeps, cp=%d)" % (fn, s, kind, len(ds), n, cp)
    a = en.DMRGengine(m, mpo, "ref")
    ea = getattr(a, fn)(Nmax=n, cp=None, **kw)
    b = en.DMRGengine(m2, mpo, "a")
    d = decoys()
    eb = getattr(b, fn)(Nmax=n, cp=cp, **kw)
    size = max(abs(ev[0]), abs(ev[-1]))
    ctx.close(eb, ea, tag + ": energy of the checkpointed run", tol=1e-8, scale=size)
    undisturbed(ctx, tag, d)
    got = sorted(set(os.listdir(".")) - set(d))
    ctx.check(got == ["a_dmrg_cp.pickle"], tag + ": files %s" % got)
    r = mpslib.MPS.random(3, 2, 2, True)
    r.load("a_dmrg_cp")
    k = n // cp * cp
    v = dense.vec(r)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm of the checkpointed state", tol=1e-8)
    ctx.check(gen.canonical_errors(r) < 1e-7, tag + ": checkpointed state is not canonical")
    ctx.close(np.asarray(r.measureList([np.eye(x) for x in ds])), np.ones(len(ds)), tag + ": identities measured on the checkpointed state", tol=1e-7)
    if k == n:
        ctx.close(r.d, b.mps.d, tag + ": local dimensions")
        ctx.check(phase_distance(v, dense.vec(b.mps)) < 1e-8, tag + ": the last checkpoint is not the final state")
    c = en.DMRGengine(r, mpo, "c")
    if n > k:
        ec = getattr(c, fn)(Nmax=n - k, cp=None, **kw)
        if two or s == "AR":
            ctx.close(ec, ea, tag + ": energy after resuming", tol=1e-6, scale=size)
        ctx.check(np.real(ec) <= np.real(dense.expect(Hd, v)) + 1e-8 * size, tag + ": resuming raised the energy")
    ctx.sig(kind, len(ds), fn, s, n, cp)
    ctx.count("resumptions")


def c_infinite_cp(ctx):
    """periodic checkpoints of the infinite engines"""
    mpo, ex, dt, size, rot = c21.ising(ctx, 1)
    k, cp = ctx.integer(2, 6), ctx.integer(1, 3)
    last = (k - 1) // cp * cp
    if ctx.flag():
        m, how = c21.start(ctx, ctx.integer(3, 5), 2, dt)
        s = ctx.pick("AR", "LAN")
        def go(n, c, name):
            e = en.VUMPSengine(copy.deepcopy(m), mpo, name)
            np.random.seed(1)
            e.simulate(Nmax=n, epsilon=1e-15, tol=1e-12, lgmrestol=1e-12, ncv=30, numeig=3, artol=1e-13, arncv=20, solver=s, checkpoint=c)
            return e
        f, tag = "CP_mpsa.npy", "VUMPS"
    else:
        D = ctx.integer(3, 5)
        dt = np.result_type(dt, np.asarray(mpo[0]).dtype).type
        t0 = (ctx.rng.random_sample((D, D, 2)) - 0.5).astype(dt)
        def go(n, c, name):
            e = en.HomogeneousIMPSengine(Nmax=n, mps=t0, mpo=c21.e_mpo(mpo), filename=name, alpha=0.1, alphas=[0.1], normgrads=[0.1], dtype=dt, factor=2.0,
                                         normtol=0.1, epsilon=1e-15, tol=1e-12, lgmrestol=1e-12, ncv=20, numeig=3, Nmaxlgmres=100)
            np.random.seed(1)
            e.simulate(checkpoint=c)
            return e
        f, tag = "CPTensora.npy", "gradient engine"
    ctx.sig(tag, k, cp, np.dtype(dt).name)
    tag += " (%d steps, checkpoint=%d)" % (k, cp)
    e = go(k, cp, "a")
    files = sorted(os.listdir("."))
    if files != []:
        ctx.check(files == [f], tag + ": files %s" % files)
        x = np.load(f)
        t = x.reshape(x.shape[-3:])
        y = go(last, 10 ** 9, "b")
        z = np.asarray(y._mps[0] if isinstance(y._mps, mpslib.MPS) else y._mps)
        ctx.check(z.shape == t.shape, tag + ": shape of the checkpoint")
        ctx.close(dense.fidelity_inf([z], [t]), 1.0, tag + ": the checkpoint is not the state of step %d (fidelity per site)" % last, tol=1e-6)
        ctx.count("array checkpoints")
    else:
        ctx.check(last == 0, tag + ": no checkpoint was written")


# ----------------------------------------------------------------------------------------- crashes
def child(fn, limit=None):
    """run fn in a forked process (optionally with a file-size limit); returns its pid"""
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        signal.alarm(0)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        fn()
        code = 0
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def kill_at(ctx, pid, delay, watch=None, count=0):
    """SIGKILL pid after `count` files matching `watch` were seen plus a delay"""
    t0 = time.time()
    done = None
    while done is None and time.time() - t0 < 60:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            done = st
            break
        if watch is None or len(glob.glob(watch)) >= count:
            break
        time.sleep(0.0005)
    if done is None:
        time.sleep(delay)
        os.kill(pid, signal.SIGKILL)
        _, done = os.waitpid(pid, 0)
    if os.WIFSIGNALED(done):
        ctx.count("processes killed")
        return "killed"
    ctx.count("processes finished before the kill")
    return "exit %d" % os.WEXITSTATUS(done)


def c_kill(ctx):
    """SIGKILL during a checkpointed time evolution: what is on disk resumes to the uninterrupted result"""
    tag, start, run, n, tol, mark, exact = evolution(ctx)
    n += 3
    cp, keep = ctx.integer(1, 2), ctx.flag()
    tag += " killed, cp=%d keep_cp=%s" % (cp, keep)
    again = {} if exact else {"cp": cp, "keep_cp": True}
    ref = start("ref")
    run(ref, n, **again)
    for f in os.listdir("."):
        os.remove(f)
    d = decoys()
    how = kill_at(ctx, child(lambda: run(start("a"), n, cp=cp, keep_cp=keep)), ctx.rng.uniform(0, 0.03), "a%s[0-9]*.pickle" % mark, ctx.integer(0, 1 + keep * 3))
    ctx.check(how != "exit 3", tag + ": the run raised")
    undisturbed(ctx, tag, d)
    found = {}
    for f in glob.glob("a%s[0-9]*.pickle" % mark):
        k = int(f[len("a" + mark):-len(".pickle")])
        try:
            r = start("other").load(f[:-len(".pickle")])
        except Exception as x:
            ctx.check(False, tag + ": %s is not a complete checkpoint (%s: %s)" % (f, type(x).__name__, x))
        ctx.check(r.iteration == k, tag + ": checkpoint %d holds iteration %r" % (k, r.iteration))
        found[k] = r
    if keep:
        ctx.check(sorted(found) == [k for k in range(cp, max(found or [0]) + 1, cp)], tag + ": kept checkpoints %s" % sorted(found))
    else:
        ctx.check(len(found) <= 2, tag + ": %d checkpoints left although only the last one is to be kept" % len(found))
    for k in sorted(found)[-2:]:
        r = found[k]
        if n > k:
            run(r, n - k, **again)
            compare(ctx, tag + ": resumed from %d" % k, ref, r, tol)
        ctx.count("resumptions after a crash")
    ctx.sig(how, len(found))


def c_torn(ctx):
    """an interrupted or failing save never costs the previous file"""
    a, _, _ = gen.state(ctx, [2] * 8, kind="exact", dt=float)
    b, _, _ = gen.state(ctx, [2] * 9, kind="exact", dt=complex)
    engine = ctx.flag()
    if engine:
        mk = lambda m: en.TimeEvolutionEngine(m, H.TFI(np.ones(len(m) - 1), np.ones(len(m)), True), "x")
        a, b = mk(a), mk(b)
    mode = ctx.pick("kill", "full")
    tag = "%s of %s" % ({"kill": "killed save", "full": "failing write"}[mode], "an engine" if engine else "a state")
    a.save("f")
    size = os.path.getsize("f.pickle")
    if mode == "full":
        pid = child(lambda: b.save("f"), ctx.pick(0, 1, 100, 4096, size // 2, size))
        st = os.waitpid(pid, 0)[1]
        how = "exit %d" % os.WEXITSTATUS(st) if os.WIFEXITED(st) else "killed"
        ctx.count("failing writes")
        ctx.check(how != "exit 0", tag + ": a failing write is not reported")
        states = [a]
    else:
        def loop():
            while True:
                b.save("f")
                a.save("f")
        how = kill_at(ctx, child(loop), ctx.rng.uniform(0.0, 0.05))
        states = [a, b]
    try:
        if engine:
            r = a.load("f").mps
        else:
            r = mpslib.MPS.random(2, 2, 2, True)
            r.load("f")
    except Exception as x:
        ctx.check(False, tag + ": the saved file is lost (%s: %s)" % (type(x).__name__, x))
    ok = False
    for s in states:
        s = s.mps if engine else s
        ok = ok or (len(r) == len(s) and all(np.array_equal(x, y) for x, y in zip(arrays(r), arrays(s))))
    ctx.check(ok, tag + ": the file holds neither of the saved objects")
    ctx.sig(mode, engine, how)


def c_dmrg_kill(ctx):
    """SIGKILL during a DMRG run that overwrites one checkpoint"""
    kind, mpo, ds, Hd, ev, m = c18.setup(ctx, ctx.flag())
    two = ctx.flag()
    if two:
        m.Dmax = 64
    kw = dict(tol=1e-10, ncv=20, verbose=0, solver="AR", Econv=0.0, Nmax=200, cp=1)
    v0 = dense.vec(m)
    e0 = np.real(dense.expect(Hd, v0) / np.vdot(v0, v0))
    def go():
        e = en.DMRGengine(m, mpo, "a")
        (e.simulateTwoSite if two else e.simulate)(**kw)
    how = kill_at(ctx, child(go), ctx.rng.uniform(0, 0.05), "a_dmrg_cp.pickle", 1)
    tag = "DMRG %s (%s N=%d) killed" % ("two-site" if two else "single-site", kind, len(ds))
    ctx.check(how != "exit 3", tag + ": the run raised")
    ctx.check(os.path.exists("a_dmrg_cp.pickle"), tag + ": no checkpoint")
    r = mpslib.MPS.random(2, 2, 2, True)
    try:
        r.load("a_dmrg_cp")
    except Exception as x:
        ctx.check(False, tag + ": checkpoint cannot be loaded (%s: %s)" % (type(x).__name__, x))
    size = max(abs(ev[0]), abs(ev[-1]))
    v = dense.vec(r)
    ctx.close(np.linalg.norm(v), 1.0, tag + ": norm of the checkpointed state", tol=1e-8)
    E = np.real(dense.expect(Hd, v))
    ctx.check(E <= e0 + 1e-7 * size, tag + ": energy of the checkpoint above the initial one")
    e2 = en.DMRGengine(r, mpo, "b")
    Ef = np.real((e2.simulateTwoSite if two else e2.simulate)(**dict(kw, Nmax=2, cp=None)))
    ctx.check(Ef <= E + 1e-7 * size and Ef >= ev[0] - 1e-8 * size, tag + ": resuming gave %.10g after %.10g (ground state %.10g)" % (Ef, E, ev[0]))
    ctx.sig(kind, len(ds), two, how)
    ctx.count("resumptions after a crash")


CASES = [("state", c_state, 340, 8000), ("finite_engines", c_finite_engines, 170, 3500), ("infinite_engines", c_infinite_engines, 28, 400),
         ("resume", c_resume, 100, 3000), ("dmrg", c_dmrg, 110, 2500), ("infinite_cp", c_infinite_cp, 16, 250),
         ("kill", c_kill, 40, 1000), ("torn", c_torn, 56, 1200), ("dmrg_kill", c_dmrg_kill, 36, 600),
         ("long-storage", long.storage, 40, 800)]
