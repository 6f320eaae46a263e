"""C05: MPS arithmetic against vector arithmetic."""
import numpy as np
import dense, long, gen
from common import Skip
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

RULE = ("random expressions (binary +,-, in-place +=, scalar *,/ from both sides and in place, negation, conjugation, copies) over 2-3 random "
        "finite states with equal local dimensions, mixed dtypes, centre positions, norms and phases; after every operation the dense vector of "
        "the result and of all operands is recomputed; results are additionally swept and compared again; long chains of 9-40 sites against contraction references of the harness")
ASSUMPTIONS = ["-= is not defined separately by the class, Python falls back to a-b",
               "scalars on the left are Python numbers (numpy scalars are documented to return arrays)"]


def near(ctx, m, v, what, ref, tol=1e-9):
    ctx.close(dense.vec(m), v, what, tol=tol, scale=ref)


def scalar(ctx):
    return ctx.pick(2, -1, -0.7, 0.3 - 0.4j, 1j, 1.5, ctx.rng.uniform(0.2, 3), complex(ctx.rng.normal(), ctx.rng.normal()))


def expression(ctx):
    ds = gen.dims(ctx, maxdim=300)
    N = len(ds)
    pool = []
    for _ in range(ctx.integer(2, 3)):
        m, _, v = gen.state(ctx, ds, Dmax=4)
        pool.append([m, v])
    for step in range(ctx.integer(2, 6)):
        i, j = ctx.integer(0, len(pool) - 1), ctx.integer(0, len(pool) - 1)
        a, va = pool[i]
        b, vb = pool[j]
        op = ctx.pick("add", "add", "sub", "iadd", "isub", "mul", "rmul", "div", "imul", "idiv", "neg", "copy", "conj", "conj!", "move", "sum3")
        ref = np.linalg.norm(va) + np.linalg.norm(vb)
        before = [(dense.vec(m), m.pos) for m, _ in pool]
        changed = None
        res = want = None
        c = scalar(ctx)
        if op == "add":
            res, want = a + b, va + vb
        elif op == "sum3":
            res, want = a + c * b + a, 2 * va + c * vb
        elif op == "sub":
            res, want = a - b, va - vb
        elif op == "mul":
            res, want = a * c, c * va
        elif op == "rmul":
            res, want = c * a, c * va
        elif op == "div":
            res, want = a / c, va / c
        elif op == "neg":
            res, want = -a, -va
        elif op == "conj":
            res, want = a.conjugate(), np.conj(va)
        elif op == "copy":
            res, want = a.copy(), va
        elif op in ("iadd", "isub", "imul", "idiv"):
            if i == j:
                continue
            changed = i
            x = a
            if op == "iadd":
                x += b
                ctx.check(x.Dmax >= max(x.D), "limit %r below the bond dimensions %s after +=" % (x.Dmax, x.D))
                nv = va + vb
            elif op == "isub":
                x -= b
                nv = va - vb
            elif op == "imul":
                x *= c
                nv = va * c
            else:
                x /= c
                nv = va / c
            pool[i] = [x, nv]
            near(ctx, x, nv, "%s (dtypes %s %s)" % (op, a.dtype, b.dtype), ref)
        elif op == "conj!":
            a.conj()
            changed = i
            pool[i] = [a, np.conj(va)]
            near(ctx, a, np.conj(va), "conj() in place", np.linalg.norm(va))
        else:
            a.position(ctx.integer(0, N))
            near(ctx, a, va, "position", np.linalg.norm(va))
        ctx.count("operations " + op)
        if res is not None:
            near(ctx, res, want, "%s with c=%s, centres %d,%d of %d, dtypes %s %s" % (op, c, a.pos, b.pos, N, a.dtype, b.dtype), ref * max(1, abs(c)))
        for k, (m, _) in enumerate(pool):
            if k != changed and op != "move":
                ctx.close(dense.vec(m), before[k][0], "%s changed an operand" % op, tol=1e-13)
                ctx.check(m.pos == before[k][1], "%s moved the centre of an operand" % op)
        if res is not None:
            if np.linalg.norm(want) > 1e-6 * ref:
                q = res.copy()
                q.position(0)
                near(ctx, q, want, "%s then sweep left" % op, ref * max(1, abs(c)), tol=1e-8)
                q.position(N)
                near(ctx, q, want, "%s then sweep right" % op, ref * max(1, abs(c)), tol=1e-8)
                if ctx.flag() and max(q.D) < 30:
                    pool.append([q, want])
        elif changed is not None and np.linalg.norm(pool[i][1]) > 1e-6 * ref:
            x, nv = pool[i]
            x.position(0)
            x.position(N)
            near(ctx, x, nv, "%s then sweep" % op, ref, tol=1e-8)
            if max(x.D) > 30:
                x.position(0, schmidt_thresh=1e-12)
        elif changed is not None:
            return
    ctx.sig("steps", step, N)


def dtypes(ctx):
    """mixed real/complex operands in either order keep the imaginary part and report a fitting dtype"""
    ds = gen.dims(ctx, maxdim=200)
    N = len(ds)
    a, _, va = gen.state(ctx, ds, Dmax=3, dt=float, norm="unit")
    b, _, vb = gen.state(ctx, ds, Dmax=3, dt=complex, norm="unit")
    if ctx.flag():
        a, va, b, vb = b, vb, a, va
    c = a + b
    ctx.close(dense.vec(c), va + vb, "mixed dtype sum", tol=1e-9)
    ctx.check(np.dtype(c.dtype) == np.dtype(complex), "mixed dtype sum reports dtype %s" % c.dtype)
    z = complex(0.3, 0.8)
    d = a * z + b
    ctx.close(dense.vec(d), va * z + vb, "sum with a complex prefactor", tol=1e-9)
    d = b + z * a
    ctx.close(dense.vec(d), va * z + vb, "sum with a complex prefactor", tol=1e-9)
    r = gen.state(ctx, ds, Dmax=3, dt=float, norm="unit")
    e = r[0] * z
    ctx.check(np.dtype(e.dtype) == np.dtype(complex), "complex multiple of a real state reports dtype %s" % e.dtype)
    f = e + r[0]
    ctx.close(dense.vec(f), r[2] * (1 + z), "sum after a complex multiple", tol=1e-9)
    ctx.check(np.dtype(r[0].dtype) == np.dtype(float), "operand dtype changed")


def copies(ctx):
    m, ds, v = gen.state(ctx)
    N = len(ds)
    m.Dmax = ctx.integer(5, 40)
    c = m.copy()
    ctx.close(dense.vec(c), v, "copy", tol=1e-9)
    for f in ("pos", "D", "d", "Dmax", "obc", "dtype"):
        ctx.check(getattr(c, f) == getattr(m, f), "copy: %s is %s, source has %s" % (f, getattr(c, f), getattr(m, f)))
    x, y, vy = (c, m, v) if ctx.flag() else (m, c, v)
    k = ctx.pick("tensor", "scale", "move", "gate", "mat", "truncate")
    if k == "tensor":
        x[ctx.integer(0, N - 1)][...] = 0.123
    elif k == "scale":
        x *= 3.0
    elif k == "move":
        x.position(0 if x.pos else N)
    elif k == "gate":
        s = ctx.integer(0, N - 1)
        x.applyOneSiteGate(ctx.array((ds[s], ds[s]), x.dtype), s)
    elif k == "mat":
        x._mat[...] = 7.0
    else:
        x.position(0 if x.pos > N // 2 else N, D=1)
    ctx.close(dense.vec(y), vy, "changing one of source/copy (%s) changed the other" % k, tol=1e-9)
    ctx.sig(k, x is c)


def copies_infinite(ctx):
    N, D, d = ctx.integer(1, 4), ctx.integer(1, 4), ctx.integer(2, 3)
    dt = gen.dtype(ctx)
    m = mpslib.MPS.random(N, D, [d] * N, False, dtype=dt)
    m *= ctx.pick(1.0, 0.4)
    c = m.copy()
    for f in ("pos", "D", "d", "Dmax", "obc", "dtype"):
        ctx.check(getattr(c, f) == getattr(m, f), "copy of an infinite state: %s is %s, source has %s" % (f, getattr(c, f), getattr(m, f)))
    ref = dense.chain(dense.full_tensors(m)) * m._Z
    ctx.close(dense.chain(dense.full_tensors(c)) * c._Z, ref, "copy of an infinite state", tol=1e-12)
    ctx.close(c._connector, m._connector, "copy: connector", tol=1e-12)
    c[ctx.integer(0, N - 1)][...] = 0.3
    c._mat[...] = 1.0
    c._connector[...] = 5.0
    ctx.close(dense.chain(dense.full_tensors(m)) * m._Z, ref, "changing a copy changed an infinite state", tol=1e-12)
    ctx.check(not np.allclose(m._connector, 5.0), "changing a copy changed the connector of its source")
    ctx.sig(N, D, d, np.dtype(dt).name)


def refused(ctx):
    ds = gen.dims(ctx, maxdim=200)
    a, _, va = gen.state(ctx, ds, Dmax=3)
    kind = ctx.pick("length", "dimension")
    es = list(ds)
    if kind == "length":
        es = es + [2] if ctx.flag() or len(es) == 2 else es[:-1]
    else:
        es[ctx.integer(0, len(es) - 1)] += ctx.integer(1, 2)
    b, _, vb = gen.state(ctx, es, Dmax=3)
    for f in (lambda: a + b, lambda: a - b, lambda: b + a):
        try:
            f()
        except Exception:
            ctx.count("incompatible sums refused")
            ctx.check(True, "")
        else:
            ctx.check(False, "states with local dimensions %s and %s were added" % (ds, es))
    for bad in ("x", [1, 2], None, np.ones(2)):
        for g in (lambda: a * bad, lambda: a / bad):
            try:
                r = g()
            except TypeError:
                ctx.count("non-scalar factors refused")
            except Exception:
                pass
            else:
                ctx.check(not isinstance(r, mpslib.MPS) or isinstance(bad, str), "factor %r accepted" % (bad,))
    ctx.sig(kind, str(ds), str(es))


def lists(ctx):
    """list-level helpers: addMPS with factors and directsum"""
    ds = gen.dims(ctx, maxdim=300)
    dta, dtb = gen.dtype(ctx), gen.dtype(ctx)
    ba, bb = gen.bonds(ctx, ds, 4), gen.bonds(ctx, ds, 4)
    ta, tb = gen.tensors(ctx, ds, ba, dta), gen.tensors(ctx, ds, bb, dtb)
    va, vb = dense.lvec(ta), dense.lvec(tb)
    za, zb = ctx.rng.uniform(-2, 2), ctx.rng.uniform(-2, 2)
    if dta is complex or dtb is complex:
        za = za * np.exp(1j * ctx.rng.uniform(0, 6))
    t0 = [x.copy() for x in ta + tb]
    out = mf.addMPS(ta, za, tb, zb)
    ctx.close(dense.lvec(out), za * va + zb * vb, "addMPS(Z1=%s, Z2=%s)" % (za, zb), tol=1e-9,
              scale=np.linalg.norm(za * va) + np.linalg.norm(zb * vb))
    ctx.check([t.shape[0] for t in out][1:] == [x + y for x, y in zip(ba, bb)][1:-1], "addMPS: bond dimensions")
    ctx.check(all(np.array_equal(x, y) for x, y in zip(ta + tb, t0)), "addMPS changed its input")
    # cyclic chains: tr(A..A) adds
    k, d = ctx.integer(1, 4), ctx.integer(1, 3)
    n = ctx.integer(1, 3)
    pa = [ctx.array((ctx.integer(1, 1) * k, k, d), dta) for _ in range(n)]
    l = ctx.integer(1, 3)
    pb = [ctx.array((l, l, d), dtb) for _ in range(n)]
    out = mf.addMPS(pa, za, pb, zb, obc=False)
    tr = lambda ts: np.einsum("aPa->P", dense.chain(ts))
    ctx.close(tr(out), za * tr(pa) + zb * tr(pb), "addMPS(obc=False)", tol=1e-9, scale=1.0)
    m1, m2 = ctx.array((ctx.integer(1, 4), ctx.integer(1, 4)), dta), ctx.array((ctx.integer(1, 4), ctx.integer(1, 4)), dtb)
    s = mf.directsum(m1, m2)
    want = np.zeros((m1.shape[0] + m2.shape[0], m1.shape[1] + m2.shape[1]), complex)
    want[:m1.shape[0], :m1.shape[1]] = m1
    want[m1.shape[0]:, m1.shape[1]:] = m2
    ctx.close(s, want, "directsum", tol=1e-14)
    ctx.sig(str(ds), np.dtype(dta).name, np.dtype(dtb).name, n, k, l)


CASES = [("expression", expression, 350, 6000), ("dtypes", dtypes, 100, 1500), ("copies", copies, 200, 3000),
         ("copies-infinite", copies_infinite, 80, 1000), ("refused", refused, 80, 1000), ("lists", lists, 150, 3000),
         ("long-arithmetic", long.arithmetic, 40, 800)]
