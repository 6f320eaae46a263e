"""Workload generators shared by the property modules."""
import numpy as np
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import dense


def dims(ctx, N=None, dmax=3, maxdim=600, mixed=True):
    """local dimensions with a bounded Hilbert space"""
    while True:
        n = N if N is not None else ctx.integer(2, 6)
        if mixed and ctx.flag(0.4):
            ds = [ctx.integer(2, dmax) for _ in range(n)]
        else:
            ds = [ctx.pick(2, 2, 2, 3)] * n
        if np.prod(ds) <= maxdim:
            return ds


def bonds(ctx, ds, Dmax=6, kind=None):
    N = len(ds)
    kind = kind or ctx.pick("flat", "flat", "random", "one", "exact")
    if kind == "flat":
        D = ctx.integer(1, Dmax)
        b = [D] * (N - 1)
    elif kind == "random":
        b = [ctx.integer(1, Dmax) for _ in range(N - 1)]
    elif kind == "one":
        b = [1] * (N - 1)
    else:
        b = []
        for n in range(1, N):
            b.append(int(min(np.prod(ds[:n]), np.prod(ds[n:]), 16)))
    return [1] + b + [1]


def dtype(ctx):
    return ctx.pick(float, complex)


def tensors(ctx, ds, b, dt, scale=1.0, style=None):
    """list of (Dl,Dr,d) tensors; style 'rank' makes them rank deficient, 'decay' gives decaying spectra,
    'zeros' sparse ones"""
    style = style or ctx.pick("plain", "plain", "plain", "rank", "decay", "sparse", "offset")
    out = []
    for n, d in enumerate(ds):
        a = ctx.array((b[n], b[n + 1], d), dt, scale)
        if style == "rank" and b[n + 1] > 1:
            k = ctx.integer(1, b[n + 1] - 1)
            q = ctx.array((k, b[n + 1]), dt)
            a = np.tensordot(a[:, :k, :], q, ([1], [0])).transpose(0, 2, 1)
        elif style == "decay":
            a = a * (0.3 ** np.arange(b[n + 1]))[None, :, None]
        elif style == "sparse":
            a = a * (ctx.rng.random_sample(a.shape) < 0.7)
            a.flat[0] = 1.0
        elif style == "offset":
            a = a + 1.0
        out.append(np.ascontiguousarray(a).astype(dt))
    v = dense.lvec(out)
    nrm = np.linalg.norm(v)
    if not nrm > 1e-8 * max(1e-300, np.prod([np.max(np.abs(t)) for t in out])):
        # (nearly) vanishing state: fall back to a plain one
        return tensors(ctx, ds, b, dt, scale, "plain")
    return out


def swept(ts, Z=1.0):
    """MPS object from a tensor list, swept into canonical form, norm and phase kept in the object"""
    m = mpslib.MPS(ts)
    m._Z = 1.0
    m.position(0)
    m.position(len(m))
    if Z != 1.0:
        m *= Z
    return m


def state(ctx, ds=None, Dmax=6, dt=None, norm=None, pos=None, kind=None, style=None, over=True, **kw):
    """random swept MPS: (mps, ds, reference vector computed from the raw tensors)"""
    ds = ds if ds is not None else dims(ctx, **kw)
    dt = dt or dtype(ctx)
    b = bonds(ctx, ds, Dmax, kind)
    ts = tensors(ctx, ds, b, dt, scale=ctx.pick(1.0, 1.0, 0.1, 3.0), style=style)
    m = mpslib.MPS(ts)
    m._Z = 1.0
    v = dense.lvec(ts)
    # MPS.__init__ normalises the (1x1) centre matrix only, so the state is the plain product
    m.position(0)
    # one sweep makes the state canonical; with a single one the bonds may exceed the rank, and centre matrices may be rectangular
    if not (over and ctx.flag(0.25)):
        m.position(len(m))
    norm = norm or ctx.pick("unit", "free", "scaled")
    if norm == "unit":
        c = 1.0 / abs(m._Z)
        m._Z *= c
        v = v * c
    elif norm == "scaled":
        c = ctx.pick(0.3, -2.0, 1.7) if dt is float else ctx.pick(0.4 - 0.8j, -1.1, 1j)
        m._Z = m._Z * c
        v = v * c
    p = ctx.integer(0, len(ds)) if pos is None else pos
    m.position(p)
    ctx.sig("N=%d" % len(ds), "d=%s" % "".join(map(str, ds)), "b=%s" % b, np.dtype(dt).name, norm, "pos=%d" % p)
    return m, ds, v


def canonical_errors(m):
    """largest deviation from the mixed canonical form"""
    e = 0.0
    for n, t in enumerate(m.tensors):
        e = max(e, dense.left_iso(t) if n < m.pos else dense.right_iso(t))
    return e


def bdims(m):
    """bond dimensions; the centre matrix may be rectangular right after a truncating move, in which case the
    number of states kept on the centre bond is its smaller side"""
    out = [t.shape[0] for t in m.tensors] + [m.tensors[-1].shape[1]]
    out[m.pos] = min(m._mat.shape)
    return out


def cell(ctx, N=None, D=None, d=None, dt=None, decay=None, maxgap=0.9):
    """injective unit cell of an infinite MPS: list of (D,D,d) tensors with a well separated dominant eigenvalue"""
    N = N or ctx.integer(1, 3)
    D = D or ctx.size(3, 6, 14)
    dt = dt or dtype(ctx)
    d = d or ctx.pick(2, 2, 3)
    ds = d if isinstance(d, list) else [d] * N
    decay = decay or ctx.pick(1.0, 1.0, 0.7, 0.5)
    for _ in range(50):
        ts = [ctx.array((D, D, ds[n]), dt) * (decay ** np.arange(D))[None, :, None] for n in range(N)]
        if ctx.flag(0.3):
            ts = [t + 0.5 for t in ts]
        sc = ctx.pick(1.0, 0.3, 2.0)
        ts = [t * sc for t in ts]
        _, l, r, gap = dense.fixed_points(ts)
        if gap < maxgap:
            return ts, dt
    return ts, dt
