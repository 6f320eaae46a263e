"""C25: queries and pure functions neither mutate nor alias their inputs."""
import contextlib, copy, importlib, inspect
import numpy as np
import common, dense, gen, workloads
from common import Skip, Violation
import lib.ncon as nconmod
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as H
import lib.mpslib.engines as en
import lib.Lanczos.LanczosEngine as LZ

RULE = ("(monitored) the workloads of the other properties rerun with every public tensor function, MPO constructor/gate and MPS method wrapped: the "
        "arrays, lists and objects passed in are compared bitwise before and after each outermost call and the results are tested for shared "
        "memory; (queries) repeated and interleaved queries on one state; (decouple) construct/compute, then scribble over the inputs, or over the "
        "result, and compare the other side; (functions) ~60 functions on plain arrays called directly, with write-protected arguments, twice, and on other memory layouts; (engines) user data after engine runs; distinct by workload and input configuration")
ASSUMPTIONS = ["functions documented to work in place (centre moves, truncation, gates, regaugeIMPS, orthonormalizeQR/SVD, patchmpo, "
               "applyMPO(inplace=True), truncateMPS, DMRG on the state it is given) may change the object they are documented to change, and only that",
               "MPS[n] and MPO[n] give access to the stored tensor"]

# name -> positions/keywords of the argument it is documented to change in place
INPLACE = {"overlap": (0, "mps1", 1, "mps2"), "patchmpo": (0, "mpo"), "getBoundaryHams": (0, "mps"), "orthonormalizeQR": (0, "mps"),
           "orthonormalizeSVD": (0, "mps"), "regaugeIMPS": (0, "mps"), "truncateMPS": (0, "mps"), "canonizeMPS": (0, "mps")}
MF = ["overlap", "check_normalization", "svd", "qr", "directsum", "addMPS", "applyMPO", "contractionH", "contractMPO", "contractE", "fixPhase",
      "measureLocal", "matrixElementLocal", "measure", "prepareTensorSVD", "prepareTruncate", "prepareTensor", "prepareTensorfixA0",
      "orthonormalizeQR", "orthonormalizeSVD", "initializeLayer", "addLayer", "addELayer", "HAproductSingleSite", "HAproductSingleSiteMPS",
      "HAproductZeroSite", "HAproductZeroSiteMat", "HAproductBond", "contractionE", "HAproductBondMatrix", "getR", "getL", "getUCR", "getUCL",
      "getRprojected", "getLprojected", "lanczos", "lanczosbond", "eigsh", "lobpcg", "evolveTensorSexpmv", "evolveMatrixSexpmv",
      "evolveTensorLan", "evolveMatrixLan", "evolveTensorsolve_ivp", "evolveMatrixsolve_ivp", "eigshbondsimple", "eigshbond",
      "applyHsingleSite", "applyHbond", "gradient", "TransferOperator", "MixedTransferOperator", "GeneralizedMatrixVectorProduct", "TMeigs",
      "UnitcellTransferOperator", "MixedUnitcellTransferOperator", "UnitcellTMeigs", "MixedUnitcellTMeigs", "getBlockHam", "patchmpo",
      "computeDensity", "getBoundaryHams", "computeUCsteadyStateHamiltonianGMRES", "pseudoUnitcellTransferOperator", "TDVPGMRESUC",
      "regaugeIMPS", "truncateMPS", "canonizeMPS", "regauge", "OneMinusPseudoUnitcellTransferOperator", "OneMinusPseudoTransferOperator",
      "pseudoTransferOperator", "TDVPGMRES", "RENORMBLOCKHAMGMRES", "TDVPupdate", "FinegrainDolfi"]
HAM = ["HomogeneousLiebLinigermpo", "LiebLinigerEdens", "LiebLinigermpo", "LiebLinigermpo1", "LiebLinigermpo2", "LiebLinigermpo3", "LocalLiebLinigermpo",
       "PhiFourmpo", "PhiFourmpo2", "PhiFourmpo3", "PhiFourmpo4", "TwoSitePhiFourMPO", "UnitcellExLiebLinigermpo", "anticomm", "comm", "herm",
       "projectedLiebLinigermpo", "projectedLiebLinigermpo2", "projectedLiebLinigermpo3", "projectedUnitcellExLiebLinigermpo",
       "HubbardChain", "JessHamiltonian", "MPO", "SpinlessFermions", "TFI", "TFI_2", "XXZ", "XXZflipped"]
MPSQ = ["copy", "conjugate", "exp", "sqrt", "real", "imag", "__neg__", "__mul__", "__truediv__", "__rmul__", "__add__", "__sub__", "__len__",
        "tolist"]
MEASURE = ["measureList", "measureMatrixElementList", "measureLocal", "measure", "dot"]     # may move the centres, never the states
MPSM = ["position", "getSchmidt", "truncate", "canonize", "regauge", "ortho", "applyTwoSiteGate", "applyOneSiteGate", "applyMPO",
        "__setitem__", "__iadd__"]


def arrs(x, out, path=(), seen=None, objs=True):
    """every numeric array reachable from x: list of (path, array)"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return out
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            out.append((path, x))
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, y in enumerate(x):
            arrs(y, out, path + (i,), seen, objs)
    elif isinstance(x, dict):
        seen.add(id(x))
        for i, y in x.items():
            arrs(y, out, path + (i,), seen, objs)
    elif objs and isinstance(x, (mpslib.MPS, H.MPO)):
        seen.add(id(x))
        for k, v in sorted(vars(x).items()):
            arrs(v, out, path + (k,), seen, objs)
    return out


def snap(x):
    return [(p, a.copy(), a.dtype, a.shape) for p, a in arrs(x, [])]


def unchanged(ctx, before, x, what):
    after = arrs(x, [])
    ctx.check([b[0] for b in before] == [p for p, _ in after], "%s changed the structure of its arguments" % what)
    for (p, c, dt, sh), (_, a) in zip(before, after):
        ctx.check(a.dtype == dt and a.shape == sh and np.array_equal(a, c, equal_nan=a.dtype.kind in "fc"),
                  "%s changed its argument %s" % (what, list(p)))


@contextlib.contextmanager
def monitor(ctx):
    depth = [0]
    saved = []
    first = []

    def wrap(owner, name, label, skip=(), selfok=False, alias=True):
        orig = inspect.getattr_static(owner, name, None)
        if not inspect.isfunction(orig):
            return

        def w(*a, **k):
            if depth[0]:
                return orig(*a, **k)
            depth[0] += 1
            try:
                sk = skip if not (name == "applyMPO" and owner is mf and (k.get("inplace") or (len(a) > 2 and a[2]))) else (0, "mps")
                ak = [x for i, x in enumerate(a) if i not in sk and not (selfok and i == 0)]
                kk = {i: x for i, x in k.items() if i not in sk}
                # an array that is also reachable from the object changed in place is not an independent input
                own = [y for i, x in enumerate(a) if (i in sk or (selfok and i == 0)) for _, y in arrs(x, [])]
                before = snap((ak, kk)) if not own else None
                states = []
                if owner is mpslib.MPS and name in MEASURE:
                    for x in a:
                        if isinstance(x, mpslib.MPS) and x.obc and len(x) and np.prod(x.d) <= 1000:
                            states.append((x, dense.vec(x)))
                if own:
                    ids = set(id(y) for y in own)
                    if any(id(y) in ids for _, y in arrs((ak, kk), [])):
                        before = None
                    else:
                        before = snap((ak, kk))
                res = orig(*a, **k)
                ctx.count("monitored calls")
                ctx.sigs.add(label)
                try:
                    for x, v in states:
                        ctx.close(dense.vec(x), v, "%s changed the state it measured" % label, tol=1e-8, scale=np.linalg.norm(v))
                        ctx.count("measured states compared")
                    if before is not None:
                        unchanged(ctx, before, (ak, kk), label)
                    if alias and not own:
                        ins = [y for _, y in arrs((ak, kk), []) if y.size]
                        for q, y in arrs(res, []):
                            if y.size and any(np.may_share_memory(x, y) and np.shares_memory(x, y) for x in ins):
                                raise Violation("%s returned an array that shares memory with its input" % label)
                except Violation as e:
                    first.append(e)
                return res
            finally:
                depth[0] -= 1
        w.__name__ = name
        saved.append((owner, name, orig))
        setattr(owner, name, w)
    try:
        for n in MF:
            wrap(mf, n, "mpsfunctions." + n, INPLACE.get(n, ()), alias=n not in INPLACE)
        for n in HAM:
            f = getattr(H, n, None)
            if inspect.isfunction(f) and f.__module__ == H.__name__:
                wrap(H, n, "Hamiltonians." + n)
            if inspect.isclass(f) and issubclass(f, H.MPO):
                wrap(f, "__init__", "Hamiltonians.%s.__init__" % n, selfok=True)
                wrap(f, "twoSiteGate", "Hamiltonians.%s.twoSiteGate" % n)
        for n in MPSQ:
            wrap(mpslib.MPS, n, "MPS." + n)
        for n in MPSM:
            wrap(mpslib.MPS, n, "MPS." + n, selfok=True, alias=False)
        for n in MEASURE:
            wrap(mpslib.MPS, n, "MPS." + n, skip=(0, 1, "mps") if n in ("dot", "measureMatrixElementList") else (0,), alias=False)
        wrap(nconmod, "ncon", "ncon", alias=False)
        yield
    finally:
        for owner, name, orig in reversed(saved):
            setattr(owner, name, orig)
    if first:
        raise first[0]


SOURCES = {"C01": None, "C02": None, "C03": None, "C04": None, "C05": None, "C06": None, "C07": None, "C08": None, "C09": None, "C10": None,
           "C11": None, "C12": None, "C13": None, "C14": None, "C15": None, "C16": None, "C17": None, "C22": None, "C24": None}


def monitored(ctx):
    pid = sorted(SOURCES)[ctx.idx % len(SOURCES)]
    M = importlib.import_module("props." + pid.lower())
    cases = [c for c in M.CASES if not c[0].startswith("online")]
    for j in range(4):
        name, fn = cases[(ctx.idx // len(SOURCES) + j) % len(cases)][:2]
        sub = common.Ctx("C25", "%s/%s/%d" % (pid, name, j), ctx.idx)
        sub.scratch = ctx.scratch
        np.random.seed(sub.seed)
        with monitor(ctx):
            try:
                fn(sub)
            except common.Timeout:
                raise
            except (Exception, SystemExit):
                # the outcome of the workload itself is judged by its own property
                ctx.count("workloads ended early")
        ctx.count("workloads observed")
        ctx.sig(pid, name)


def engine_workloads(ctx):
    what = ctx.pick("sweeps", "arith", "gates", "dmrg", "tebd", "tdvp")
    with monitor(ctx):
        workloads.run(ctx, what)


def vals(x):
    if isinstance(x, mpslib.MPS):
        return [dense.vec(x)]
    if isinstance(x, (list, tuple)):
        return [np.array(y) for y in x]
    return [np.array(x) * 1]


def queries(ctx):
    """interleaved queries: same answers each time, represented vectors never change"""
    a, ds, va = gen.state(ctx)
    b, _, vb = gen.state(ctx, ds, norm="unit")
    N = len(ds)
    va, vb = dense.vec(a), dense.vec(b)
    ops = [ctx.herm(d) for d in ds]
    site = ctx.integer(0, N - 1)
    sites = sorted(ctx.rng.choice(N, size=min(N, 2), replace=False).tolist())
    local = [x for x in (a.pos - 1, a.pos) if 0 <= x < N][-1]
    pool = {
        "measureList": lambda: a.measureList(ops),
        "measureLocal": lambda: a.measureLocal(ops[site], site),
        "measure": lambda: a.measure([ops[s] for s in sites], sites),
        "measureMatrixElementList": lambda: a.measureMatrixElementList(b, ops),
        "dot": lambda: a.dot(b),
        "self-dot": lambda: a.dot(a),
        "tolist": lambda: dense.lvec(a.tolist()) * a._Z,
        "copy": lambda: a.copy(),
        "conjugate": lambda: a.conjugate(),
        "neg": lambda: -a,
        "mul": lambda: a * 2.5,
        "rmul": lambda: 2.5 * a,
        "div": lambda: a / 2.5,
        "add": lambda: a + b,
        "sub": lambda: a - b,
        "getSchmidt": lambda: np.sort(np.asarray(a.getSchmidt(max(1, sites[-1]))))[::-1],
        "D": lambda: a.D, "d": lambda: a.d, "len": lambda: len(a), "obc": lambda: a.obc,
        "real": lambda: [np.asarray(t) for t in a.real().tensors], "imag": lambda: [np.asarray(t) for t in a.imag().tensors],
    }
    ca = a.copy()
    first = {}
    names = sorted(pool)
    seq = [ctx.pick(*names) for _ in range(8)]
    seq = seq + seq[::-1]
    sa, sb = np.linalg.norm(va), np.linalg.norm(vb)
    opsnap = snap(ops)
    for n in seq:
        moved = n.startswith("measure") or n in ("dot", "self-dot", "getSchmidt")
        pa, before = a.pos, snap(a) if not moved else None
        got = vals(pool[n]())
        if not moved:
            unchanged(ctx, before, a, n)
            ctx.check(a.pos == pa, n + " moved the centre")
        if n in ("real", "imag", "D"):
            continue                                      # gauge dependent
        if n in first:
            for x, y in zip(got, first[n]):
                ctx.close(x, y, "second call of %s" % n, tol=1e-9, scale=max(1.0, np.max(np.abs(y)) if y.size else 1.0) * 1.0)
            ctx.count("queries repeated")
        first.setdefault(n, got)
        ctx.close(dense.vec(a), va, "vector after " + n, tol=1e-9, scale=sa)
        ctx.close(dense.vec(b), vb, "vector of the other state after " + n, tol=1e-9, scale=sb)
        ctx.close(dense.vec(ca), va, "vector of an earlier copy after " + n, tol=1e-9, scale=sa)
    unchanged(ctx, opsnap, ops, "measuring")
    ctx.sig(*sorted(set(seq)))


def scribble(ctx, x):
    """overwrite every array reachable from x in place (of an MPO: its tensors)"""
    n = 0
    if isinstance(x, H.MPO):
        x = list(x._mpo)
    for _, a in arrs(x, []):
        if a.size and a.flags.writeable:
            a[...] = ctx.pick(7, -3, 11)
            n += 1
    return n


def both(ctx, what, make, read):
    """make() -> (inputs, result); read(x) -> arrays.  Changing one side never changes the other."""
    ins, res = make()
    r0 = [np.array(y) for y in read(res)]
    if scribble(ctx, ins):
        for x, y in zip(read(res), r0):
            ctx.check(np.array_equal(x, y, equal_nan=True), "%s: changing the inputs afterwards changed the result" % what)
        ctx.count("inputs overwritten")
    ins, res = make()
    i0 = snap(ins)
    if scribble(ctx, res):
        unchanged(ctx, i0, ins, what + ": changing the result afterwards")
        ctx.count("results overwritten")


def rd(x):
    return [a for _, a in arrs(x, [])]


def decouple_mps(ctx):
    ds = gen.dims(ctx)
    N = len(ds)
    dt = gen.dtype(ctx)
    b = gen.bonds(ctx, ds)
    what = ctx.pick("MPS", "fromList", "fromListMat", "product", "copy", "tolist", "add", "sub", "mul", "neg", "div", "conjugate", "setitem", "real",
                    "measure", "iadd", "gate", "onesite", "mpo", "tensor")

    def make():
        if what == "MPS":
            ts = gen.tensors(ctx, ds, b, dt)
            return ts, mpslib.MPS(ts)
        if what in ("fromList", "fromListMat"):
            ts = gen.tensors(ctx, ds, b, dt)
            mat = np.array([[2.0]])
            return (ts, mat), (mpslib.MPS.fromList(ts) if what == "fromList" else mpslib.MPS.fromList(ts, mat))
        if what == "product":
            loc = [ctx.array(d, dt) for d in ds]
            return loc, mpslib.MPS.productState(loc, True, dtype=dt)
        m, _, _ = gen.state(ctx, ds, dt=dt)
        if what == "tensor":
            site = [x for x in (m.pos - 1, m.pos) if 0 <= x < N][-1]
            return m, m.tensor(site)
        if what in ("add", "sub", "iadd"):
            o, _, _ = gen.state(ctx, ds, dt=dt)
            if what == "iadd":
                m += o
                return o, m
            return (m, o), (m + o if what == "add" else m - o)
        if what == "setitem":
            t = m[0].copy()
            m[0] = t
            return t, m
        if what == "gate":
            g = np.linalg.qr(ctx.array((ds[0] * ds[1],) * 2, dt))[0].reshape(ds[0], ds[1], ds[0], ds[1])
            m.applyTwoSiteGate(g, 0, Dmax=20)
            return g, m
        if what == "onesite":
            g = np.linalg.qr(ctx.array((ds[0], ds[0]), dt))[0]
            m.applyOneSiteGate(g, 0)
            return g, m
        if what == "mpo":
            mb = gen.bonds(ctx, ds, 3, "flat")
            ms = [ctx.array((mb[n], mb[n + 1], ds[n], ds[n]), dt) for n in range(N)]
            M = H.MPO(ms)
            m.applyMPO(M)
            return (ms, M), m
        f = {"copy": lambda: m.copy(), "tolist": lambda: m.tolist(), "mul": lambda: m * 2.0, "neg": lambda: -m, "div": lambda: m / 2.0,
             "conjugate": lambda: m.conjugate(), "real": lambda: m.real(),
             "measure": lambda: m.measureList([ctx.herm(d) for d in ds])}[what]
        return m, f()
    both(ctx, what, make, rd)
    ctx.sig(what, str(ds), np.dtype(dt).name)


def decouple_mpo(ctx):
    N = ctx.integer(2, 5)
    what = ctx.pick("list", "fromlist", "fromMPO", "TFI", "XXZ", "XXZflipped", "SpinlessFermions", "HubbardChain", "gate")
    obc = ctx.flag()

    def par(n):
        return ctx.rng.uniform(-1, 1, n)
    P = N - 1 if obc else N
    if what == "XXZflipped":
        obc, P = True, N - 1

    def make():
        if what in ("list", "fromlist"):
            ms = [ctx.array((3, 3, 2, 2)) for _ in range(N)]
            return ms, (H.MPO(ms) if what == "list" else H.MPO.fromlist(ms))
        if what == "fromMPO":
            o = H.MPO([ctx.array((3, 3, 2, 2)) for _ in range(N)])
            return o, H.MPO.fromMPO(o)
        if what == "gate":
            o = H.TFI(par(N - 1), par(N), True)
            return o, o.twoSiteGate(0, 1, -0.1)
        if what == "TFI":
            a = (par(P), par(N))
            return a, getattr(H, what)(a[0], a[1], obc)
        if what == "XXZflipped":
            a = (par(P), par(P))
            return a, H.XXZflipped(a[0], a[1], True)
        if what == "XXZ":
            a = (par(P), par(P), par(N))
            return a, getattr(H, what)(a[0], a[1], a[2], obc)
        if what == "SpinlessFermions":
            a = (par(P), par(P), par(N))
            return a, H.SpinlessFermions(a[0], a[1], a[2], obc)
        a = (par(N), par(P), par(P), par(N), par(N))
        return a, H.HubbardChain(*a, obc=obc)

    def read(x):
        return [np.asarray(t) for t in x._mpo] if isinstance(x, H.MPO) else rd(x)
    both(ctx, "MPO from " + what, make, read)
    ctx.sig(what, N, obc)


def decouple_functions(ctx):
    D, d, M = ctx.integer(2, 4), ctx.integer(2, 3), 3
    dt = gen.dtype(ctx)
    what = ctx.pick("prepareTensor", "prepareTensorSVD", "prepareTruncate", "svd", "qr", "directsum", "addLayer", "addELayer", "getL", "getR",
                    "computeDensity", "TransferOperator", "addMPS", "applyMPO", "regauge", "HAproduct", "canonizeMPS", "lanczos", "LanczosEngine", "TMeigs")

    def make():
        t = ctx.array((D, D, d), dt)
        u = ctx.array((D, D, d), dt)
        W = ctx.array((M, M, d, d), dt)
        L = ctx.array((D, D, M), dt)
        direction = ctx.pick(1, -1)
        ts = [ctx.array((D, D, d), dt) for _ in range(3)]
        fin = [ctx.array(s, dt) for s in ((1, D, d), (D, D, d), (D, 1, d))]
        if what == "prepareTensor":
            return t, mf.prepareTensor(t, direction)
        if what == "prepareTensorSVD":
            return t, mf.prepareTensorSVD(t, direction)
        if what == "prepareTruncate":
            return t, mf.prepareTruncate(t, direction)
        if what in ("svd", "qr"):
            x = ctx.array((D, D + 1), dt)
            return x, (mf.svd(x) if what == "svd" else mf.qr(x, 1))
        if what == "directsum":
            x, y = ctx.array((D, D), dt), ctx.array((D, D), dt)
            return (x, y), mf.directsum(x, y)
        if what == "addLayer":
            return (L, t, W, u), mf.addLayer(L, t, W, u, direction)
        if what == "addELayer":
            e = ctx.array((D, D, 2), dt)
            return (e, t, u), mf.addELayer(e, t, u, direction)
        if what in ("getL", "getR"):
            mpo = H.MPO([ctx.array((M, M, d, d), dt) for _ in range(3)])
            return (L, ts, mpo), getattr(mf, what)(ts, mpo, L)
        if what == "computeDensity":
            e = ctx.array((D, D), dt)
            return (e, ts), mf.computeDensity(e, ts, direction, dtype=dt)
        if what == "TransferOperator":
            x = ctx.array(D * D, dt)
            return (x, t), mf.TransferOperator(direction, t, x)
        if what == "addMPS":
            o = [ctx.array(s, dt) for s in ((1, D, d), (D, D, d), (D, 1, d))]
            return (fin, o), mf.addMPS(fin, 1.0, o, 2.0)
        if what == "applyMPO":
            mpo = H.MPO([ctx.array(s, dt) for s in ((1, M, d, d), (M, M, d, d), (M, 1, d, d))])
            return (fin, mpo), mf.applyMPO(fin, mpo)
        if what == "regauge":
            c, _ = gen.cell(ctx, 1, D=3, d=2, dt=dt)
            return c[0], mf.regauge(c[0], ctx.pick("left", "right", "symmetric"))
        if what == "HAproduct":
            x = ctx.array((D, D, d), dt)
            return (L, W, x), mf.HAproductSingleSiteMPS(L, W, L, x) if ctx.flag() else mf.HAproductSingleSite(L, W, L, x.reshape(-1))
        if what == "canonizeMPS":
            m, ds, v = gen.state(ctx, dt=dt)
            lst = m.tolist()
            return lst, mf.canonizeMPS(lst)
        if what == "TMeigs":
            c, _ = gen.cell(ctx, 1, D=3, d=2, dt=dt)
            init = ctx.herm(3, dt).reshape(-1)
            return (c[0], init), mf.TMeigs(c[0], direction, 1, init=init)
        n = 6
        h = ctx.herm(n, dt)
        x0 = ctx.array(n, dt)
        if what == "LanczosEngine":
            e = LZ.LanczosEngine(lambda x: h.dot(x), lambda x, y: np.dot(x.conj(), y), np.zeros, Ndiag=2, ncv=6, numeig=1, delta=1e-12, deltaEta=1e-12)
            return x0, e.__simulate__(x0)
        mpo = H.TFI(np.array([0.7, 0.7]), np.array([0.3, 0.4, 0.5]), True)
        E = np.ones((1, 1, 1))
        st = mpslib.MPS.random(3, 2, 2, True, dtype=dt)
        st.position(0)
        Ls, Rs = E, mf.getR(st._tensors, mpo, E)
        t0 = st.tensor(0)
        return (Ls, Rs, t0, mpo), mf.lanczos(Ls, mpo[0], Rs[1], t0)

    def read(x):
        return rd(x)
    both(ctx, what, make, read)
    ctx.sig(what, D, d, np.dtype(dt).name)


def pure_table(ctx, dt):
    """name -> (function, arguments, comparison of repeated answers) for the functions on plain arrays and lists"""
    D, E, d, M = ctx.integer(2, 4), ctx.integer(2, 4), ctx.integer(2, 3), ctx.integer(2, 4)
    a = lambda *s: ctx.array(s, dt)
    h = lambda n: ctx.herm(n, dt)
    q = lambda *s: np.linalg.qr(ctx.array(s, dt))[0]
    direction = ctx.pick(1, -1)
    A, B, W = a(D, E, d), a(D, E, d), a(M, M, d, d)
    sq, sq2 = a(D, D, d), a(D, D, d)
    L, R = a(D, D, M), a(E, E, M)
    x = a(D, E, d)
    Eh = lambda n: np.stack([h(n) for _ in range(M)], axis=2)
    Wh = np.zeros((M, M, d, d), dtype=dt)
    for i in range(M):
        for j in range(M):
            Wh[i, j] = h(d)
    Lh, Rh = Eh(D), Eh(E)
    N = ctx.integer(2, 3)
    b = [1] + [ctx.integer(2, 3) for _ in range(N - 1)] + [1]
    m = [1] + [ctx.integer(2, 3) for _ in range(N - 1)] + [1]
    fin = [a(b[n], b[n + 1], d) for n in range(N)]
    fin2 = [a(b[n], b[n + 1], d) for n in range(N)]
    mpo = [a(m[n], m[n + 1], d, d) for n in range(N)]
    one = np.ones((1, 1, 1))
    cell = [a(D, D, d) for _ in range(N)]
    ops = [h(d) for _ in range(N)]
    dens = [h(D) for _ in range(N + 1)]
    per = [a(M, M, d, d) for _ in range(N)]
    vec = a(D * D)
    t = 0.01 * (1 - 2 * ctx.flag())
    left = np.transpose(q(D * d, D).reshape(D, d, D), (0, 2, 1))
    right = np.transpose(q(D * d, D).T.reshape(D, d, D), (0, 2, 1))
    ortho = ctx.pick("left", "right")
    T = {
        "fixPhase": (a(D, D),), "svd": (a(D, E),), "qr": (a(D, E), ctx.pick(1, 0)), "directsum": (a(D, E), a(E, D)),
        "check_normalization": (left, "l"), "prepareTensor": (A, direction), "prepareTensorSVD": (A, direction),
        "prepareTruncate": (A, direction), "prepareTensorfixA0": (a(D, D, 2), direction),
        "addLayer": (L if direction > 0 else R, A, W, B, direction), "addELayer": (a(D, D, 2) if direction > 0 else a(E, E, 2), A, B, direction),
        "initializeLayer": (A, a(D, D) if direction > 0 else a(E, E), B, a(1, M, d, d) if direction > 0 else a(M, 1, d, d), direction),
        "contractionH": (L, A, W, R), "contractionE": (a(D, D, 2), A, a(E, E, 2)),
        "HAproductSingleSite": (L, W, R, x.reshape(-1)), "HAproductSingleSiteMPS": (L, W, R, x), "applyHsingleSite": (L, a(M, M, 2, 2), R, a(D, E, 2)), "gradient": (L, W, R, x),
        "HAproductBond": (a(D, D, M), a(D, D, M), vec), "HAproductBondMatrix": (L, R, a(D, E)), "applyHbond": (L, R, a(D, E)),
        "HAproductZeroSite": (a(D, D, M), W, sq, a(D, D, M), ctx.pick("left", "right"), vec),
        "HAproductZeroSiteMat": (a(D, D, M), W, sq, a(D, D, M), ctx.pick("left", "right"), a(D, D)),
        "TransferOperator": (direction, sq, vec), "MixedTransferOperator": (direction, sq, sq2, vec), "GeneralizedMatrixVectorProduct": (direction, sq, sq2, vec),
        "UnitcellTransferOperator": (direction, cell, vec), "MixedUnitcellTransferOperator": (direction, cell, [a(D, D, d) for _ in range(N)], vec),
        "pseudoTransferOperator": (sq, a(D, D), a(D, D), direction, vec), "OneMinusPseudoTransferOperator": (sq, sq2, a(D, D), a(D, D), direction, 0.0, vec),
        "pseudoUnitcellTransferOperator": (direction, cell, dens, dens, vec), "OneMinusPseudoUnitcellTransferOperator": (direction, cell, dens, dens, vec),
        "getL": (fin, mpo, one), "getR": (fin, mpo, one), "getUCL": (fin, mpo, one), "getUCR": (fin, mpo, one),
        "getLprojected": (cell, per, a(D, D, M), dens, dens), "getRprojected": (cell, per, a(D, D, M), dens, dens),
        "contractMPO": (cell, cell, per, a(D, D, M), 0, N - 1, direction), "contractE": (cell, cell, a(D, D, 1), 0, N - 1, direction),
        "computeDensity": (a(D, D), cell, direction, np.dtype(dt)), "addMPS": (fin, 1.5, fin2, -0.5), "applyMPO": (fin, mpo),
        "canonizeMPS": (fin,), "measureLocal": (fin, ops, one, one, ortho), "matrixElementLocal": (fin, fin2, ops, one, one),
        "FinegrainDolfi": ([a(D, D, 2) for _ in range(N)],),
        "evolveTensorLan": (Lh, Wh, Rh, x.astype(complex), t), "evolveMatrixLan": (Lh, Rh, a(D, E).astype(complex), t),
        "evolveTensorsolve_ivp": (Lh, Wh, Rh, x, 1j * t), "evolveMatrixsolve_ivp": (Lh, Rh, a(D, E), 1j * t),
        "evolveTensorSexpmv": (Lh, Wh, Rh, x.astype(complex), -1j * t), "evolveMatrixSexpmv": (Eh(D), Eh(D), a(D, D).astype(complex), -1j * t),
        "tangentSpaceHAproduct": (a(D, D), sq, sq2, a(D, D, d), a(D, D, d), [a(1, M, d, d), a(M, 1, d, d)]),
        "LiebLinigerHAproduct": (a(D, D), [a(1, M, d, d), a(M, 1, d, d)], a(D, D), sq, sq2, a(D, D, d)),
    }
    if D > 2 and ctx.flag(0.2):
        loose = {"lanczos": (Lh, Wh, Rh, x), "eigsh": (Lh, Wh, Rh, x, 1e-10, 1, 6), "eigshbondsimple": (Eh(4), Eh(4), a(4, 4), 1e-10, 1, 6),
                 "TMeigs": (left, 1, 1, h(D).reshape(-1)), "UnitcellTMeigs": ([left, left], 1, 1, h(D).reshape(-1)),
                 "regauge": (left, ctx.pick("left", "right"))}
        return loose, True
    return T, False


def layout(ctx, x):
    """the same data in another memory layout"""
    if isinstance(x, np.ndarray) and x.ndim:
        how = ctx.pick("fortran", "strided", "reversed", "same")
        if how == "fortran":
            return np.array(x, order="F")
        if how == "strided":
            y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)
            v = y[tuple(slice(0, None, 2) for _ in x.shape)]
            v[...] = x
            return v
        if how == "reversed":
            return np.array(x[::-1])[::-1]
        return x.copy()
    if isinstance(x, list):
        return [layout(ctx, y) for y in x]
    return x


def protect(x, flag):
    for _, y in arrs(x, []):
        y.flags.writeable = flag


def functions(ctx):
    """every function on plain arrays: called directly, with protected arguments, twice, and on the same numbers in another memory layout"""
    dt = gen.dtype(ctx)
    T, loose = pure_table(ctx, dt)
    for name in (ctx.rng.permutation(sorted(T))[:12] if not loose else sorted(T)):
        name = str(name)
        f, args = getattr(mf, name), list(T[name])
        before = snap(args)
        try:
            r1 = f(*args)
        except (np.linalg.LinAlgError, RuntimeError):
            ctx.count("calls without a result")
            unchanged(ctx, before, args, name)
            continue
        unchanged(ctx, before, args, name)
        v1 = [np.array(y) for y in values(r1)]
        ins = [y for _, y in arrs(args, []) if y.size]
        for _, y in arrs(r1, []):
            ctx.check(not any(np.may_share_memory(x, y) and np.shares_memory(x, y) for x in ins), "%s returned an array that shares memory with its input" % name)
        scale = max([1e-30] + [np.max(np.abs(y)) for y in v1 if y.size])
        tol = 1e-6 if loose or name.startswith("evolve") else 1e-10
        for what, again in (("repeated", args), ("protected", args), ("another memory layout", [layout(ctx, y) for y in args])):
            if what == "protected":
                protect(again, False)
            b2 = snap(again)
            try:
                r2 = f(*again)
            except ValueError as e:
                ctx.check("read-only" not in str(e), "%s writes to its arguments: %s" % (name, e))
                raise
            finally:
                if what == "protected":
                    protect(again, True)
            unchanged(ctx, b2, again, name)
            v2 = values(r2)
            if name == "regauge":
                v1, v2 = [], []                   # gauge freedom
            if name in ("TMeigs", "UnitcellTMeigs", "lanczos", "eigsh", "eigshbondsimple"):
                v1, v2 = v1[:1], v2[:1]          # eigenvectors are defined up to a phase
            ctx.check(len(v1) == len(v2), "%s: %s call returns another structure" % (name, what))
            for y, z in zip(v1, v2):
                ctx.check(np.shape(y) == np.shape(z), "%s: %s call returns another shape" % (name, what))
                if np.size(y):
                    ctx.close(np.asarray(z), y, "%s: %s call" % (name, what), tol=tol, scale=scale)
        if scribble(ctx, r1):
            unchanged(ctx, before, args, name + ": changing the result afterwards")
        ctx.count("functions called")
        ctx.sig(name, np.dtype(dt).name)


def values(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in values(y)]
    if isinstance(x, (np.ndarray, np.generic, float, complex, int)) and not isinstance(x, bool):
        return [np.asarray(x)]
    if isinstance(x, H.MPO):
        return [np.asarray(x[n]) for n in range(len(x))]
    return []


def engines_data(ctx):
    """what an engine does with the objects of the user"""
    N = ctx.integer(3, 5)
    what = ctx.pick("tebd", "tdvp", "dmrg", "dmrg2", "vumps", "boundaries", "measure")
    mpo, d = workloads.model(ctx, N)
    mp0 = snap(mpo)
    if what in ("tebd", "tdvp"):
        m = mpslib.MPS.random(N, 3, d, True, dtype=complex)
        m.position(0)
        m.position(N)
        m.position(0)
        v, s0 = dense.vec(m), snap(m)
        e = en.TimeEvolutionEngine(m, mpo, "w")
        s = e.mps
        scr = ctx.flag()
        if what == "tebd":
            e.doTEBD(dt=-0.05j, numsteps=2, Dmax=8, tr_thresh=1e-14, verbose=0)
        else:
            e.doTDVP(dt=-0.05j, numsteps=2, krylov_dim=8, verbose=0, solver="LAN")
        unchanged(ctx, s0, m, "TimeEvolutionEngine (%s): the state of the user" % what)
        unchanged(ctx, mp0, mpo, "TimeEvolutionEngine (%s): the Hamiltonian of the user" % what)
        if scr:
            # later changes of the user's objects do not reach the engine
            w = dense.vec(e.mps)
            scribble(ctx, m)
            scribble(ctx, mpo)
            ctx.close(dense.vec(e.mps), w, "engine state after the user overwrote the initial state", tol=0)
            ctx.check(not any(np.shares_memory(x, y) for x in rd(m) for y in rd(e.mps)), "the engine shares memory with the state of the user")
            ctx.check(not any(np.shares_memory(x, y) for x in rd(mpo._mpo) for y in rd(e._gates._mpo if hasattr(e._gates, "_mpo") else [])),
                      "the engine shares memory with the Hamiltonian of the user")
        # two engines from one state are independent
    elif what in ("dmrg", "dmrg2"):
        m = mpslib.MPS.random(N, 3, d, True, dtype=gen.dtype(ctx))
        for p in (0, N, 0):
            m.position(p)
        keep = m.copy()
        v = dense.vec(keep)
        e = en.DMRGengine(m, mpo, "w")
        kw = dict(Nmax=2, Econv=1e-10, tol=1e-8, ncv=10, verbose=0)
        if what == "dmrg":
            e.simulate(solver=ctx.pick("AR", "LAN"), **kw)
        else:
            e.simulateTwoSite(solver=ctx.pick("AR", "LAN"), truncation=1e-12, **kw)
        unchanged(ctx, mp0, mpo, "DMRG: the Hamiltonian of the user")
        ctx.close(dense.vec(keep), v, "a copy of the initial state after DMRG", tol=0)
    elif what == "boundaries":
        D = 2
        big = [ctx.array((D, D, d)) for _ in range(N)]
        m = mpslib.MPS(big)
        W = H.TFI(ctx.rng.uniform(-1, 1, N), ctx.rng.uniform(-1, 1, N), False)
        lb = np.zeros((D, D, 3)); lb[:, :, -1] = np.eye(D); lb[:, :, 0] = ctx.herm(D)
        rb = np.zeros((D, D, 3)); rb[:, :, 0] = np.eye(D); rb[:, :, -1] = ctx.herm(D)
        b0 = snap((lb, rb))
        e = en.DMRGengine(m, W, "w", lb, rb)
        e.simulate(Nmax=1, Econv=1e-10, tol=1e-8, ncv=10, verbose=0)
        unchanged(ctx, b0, (lb, rb), "DMRG: the boundary environments of the user")
        scribble(ctx, (lb, rb))
        ctx.check(np.array_equal(e._lb, b0[0][1]) and np.array_equal(e._rb, b0[1][1]), "boundary environments are not decoupled from the arrays of the user")
    elif what == "vumps":
        c, dt = gen.cell(ctx, 1, D=3, d=2)
        m = mpslib.MPS.fromList(c) if False else mpslib.MPS.random(1, 3, 2, False, dtype=dt)
        m.regauge("right")
        W = H.TFI(np.array([-1.0]), np.array([0.6]), False)
        s0, w0 = snap(m), snap(W)
        e = en.VUMPSengine(m, W, "w")
        e.simulate(Nmax=3, epsilon=1e-14, tol=1e-10, lgmrestol=1e-10, ncv=20, numeig=1, Nmaxlgmres=40, solver="AR", verbose=0) \
            if False else e.simulate(2)
        unchanged(ctx, s0, m, "VUMPS: the state of the user")
        unchanged(ctx, w0, W, "VUMPS: the Hamiltonian of the user")
    else:
        m, ds, v = gen.state(ctx)
        e = en.Container()
        e._mps = m
        ops = [ctx.herm(x) for x in ds]
        o0 = snap(ops)
        r1 = np.array(e.measureLocal(ops))
        r2 = np.array(e.measureLocal(ops))
        ctx.close(r1, r2, "Container.measureLocal repeated", tol=1e-10, scale=1.0)
        unchanged(ctx, o0, ops, "Container.measureLocal")
    ctx.sig(what, N, ctx.idx % 40)


def history(ctx):
    """a family of states derived from one another stays independent under in-place operations on any member"""
    a, ds, _ = gen.state(ctx, N=ctx.integer(2, 5))
    N = len(ds)
    fam = [(a, dense.vec(a))]
    for step in range(10):
        k = ctx.integer(0, len(fam) - 1)
        m, v = fam[k]
        op = ctx.pick("copy", "conj", "mul", "neg", "add", "tolist", "pos", "gate", "imul", "iconj", "mpo", "trunc")
        new = None
        if op == "copy":
            new = m.copy()
        elif op == "conj":
            new = m.conjugate()
        elif op == "mul":
            new = m * 1.5
        elif op == "neg":
            new = -m
        elif op == "add" and len(fam) > 1:
            o, _ = fam[ctx.integer(0, len(fam) - 1)]
            if o is m or max(o.D) + max(m.D) > 24:
                continue
            w = dense.vec(m) + dense.vec(o)
            if np.linalg.norm(w) < 1e-3:
                continue
            new = m + o
            new.position(0)
            new.position(N)
        elif op == "tolist":
            new = gen.swept(m.tolist())
        elif op == "pos":
            m.position(ctx.integer(0, N))
        elif op == "gate":
            s = ctx.integer(0, N - 2)
            g = np.linalg.qr(ctx.array((ds[s] * ds[s + 1],) * 2, m.dtype))[0]
            m.applyTwoSiteGate(g.reshape(ds[s], ds[s + 1], ds[s], ds[s + 1]), s)
        elif op == "imul":
            m *= 0.9
        elif op == "iconj":
            m.conj()
        elif op == "mpo":
            m.applyMPO(H.MPO([(np.eye(d) + 0.1 * ctx.herm(d)).reshape(1, 1, d, d) for d in ds]))
            m.position(0)
            m.position(N)
        elif op == "trunc":
            m.truncate(schmidt_thresh=1e-12)
        fam[k] = (m, dense.vec(m))
        if new is not None and len(fam) < 5:
            fam.append((new, dense.vec(new)))
        for j, (x, w) in enumerate(fam):
            ctx.close(dense.vec(x), w, "state %d of the family after %s on state %d" % (j, op, k), tol=1e-10, scale=np.linalg.norm(w))
        ctx.count("history steps")
        ctx.sig(op, len(fam))


CASES = [("monitored", monitored, 228, 2000), ("engine-workloads", engine_workloads, 24, 400), ("queries", queries, 300, 5000),
         ("decouple-mps", decouple_mps, 300, 4000), ("decouple-mpo", decouple_mpo, 100, 1500), ("decouple-functions", decouple_functions, 300, 4000),
         ("functions", functions, 160, 3000), ("engines", engines_data, 70, 1000), ("history", history, 150, 3000)]
