"""Reference computations on long matrix-product chains, linear in the length.  Nothing in this file calls the code under test.
A chain is a list of (Dl,Dr,d) tensors with open ends; the represented vector is the plain product of the tensors."""
import numpy as np
import dense


def full(m):
    """chain represented by a finite MPS object, norm and phase included"""
    ts = dense.full_tensors(m)
    ts[0] = ts[0] * m._Z
    return ts


def _mat(t):
    """(Dl,Dr,d) -> (Dl*d, Dr)"""
    return np.transpose(t, (0, 2, 1)).reshape(t.shape[0] * t.shape[2], t.shape[1])


def norm(ts):
    """norm of the represented vector by a QR sweep (accurate for nearly cancelling sums)"""
    r = np.eye(ts[0].shape[0])
    scale = 1.0
    for t in ts:
        t = np.tensordot(r, t, ([1], [0]))
        q, r = np.linalg.qr(_mat(t))
        n = np.linalg.norm(r)
        if n == 0:
            return 0.0
        scale *= n
        r = r / n
    return scale


def plus(a, b, ca=1.0, cb=1.0):
    """ca*a+cb*b as a direct sum"""
    out = []
    N = len(a)
    for n in range(N):
        x, y = a[n], b[n]
        if n == 0:
            x, y = ca * x, cb * y
        l = 1 if n == 0 else x.shape[0] + y.shape[0]
        r = 1 if n == N - 1 else x.shape[1] + y.shape[1]
        t = np.zeros((l, r, x.shape[2]), dtype=np.result_type(x, y))
        t[:x.shape[0], :x.shape[1]] += x
        t[l - y.shape[0]:, r - y.shape[1]:] += y
        out.append(t)
    return out


def diff(a, b):
    """|a-b| relative to |b|"""
    return norm(plus(a, b, 1.0, -1.0)) / norm(b)


def ov(a, b, ops=None):
    """sum of a_in * op[in,out] * conj(b_out); ops maps sites to matrices"""
    e = np.ones((1, 1))
    for n in range(len(a)):
        t = a[n]
        if ops and n in ops:
            t = np.tensordot(t, ops[n], ([2], [0]))
        e = np.tensordot(np.tensordot(e, t, ([0], [0])), np.conj(b[n]), ([0, 2], [0, 2]))
    return e[0, 0]


def expect(a, ops):
    return ov(a, a, ops) / ov(a, a)


def schmidts(ts):
    """Schmidt coefficients of the normalised chain on all N+1 bonds"""
    N = len(ts)
    rs = [None] * (N + 1)
    right = [np.asarray(t) for t in ts]
    c = np.ones((1, 1))
    for n in range(N - 1, -1, -1):
        t = np.tensordot(right[n], c, ([1], [0])).transpose(0, 2, 1)
        q, r = np.linalg.qr(t.reshape(t.shape[0], -1).conj().T)
        right[n] = q.conj().T.reshape(-1, t.shape[1], t.shape[2])
        c = r.conj().T
        c = c / np.linalg.norm(c)
    rs[0] = np.ones(1)
    c = np.ones((1, 1))
    for n in range(N):
        t = np.tensordot(c, right[n], ([1], [0]))
        u, s, v = np.linalg.svd(_mat(t), full_matrices=False)
        s = s / np.linalg.norm(s)
        rs[n + 1] = s
        c = np.diag(s).dot(v)
    return rs


def bdims(ts):
    return [t.shape[0] for t in ts] + [ts[-1].shape[1]]


def apply1(ts, site, g):
    """g[in,out] on one site"""
    out = list(ts)
    out[site] = np.tensordot(ts[site], g, ([2], [0]))
    return out


def apply2(ts, site, g):
    """g[in1,in2,out1,out2] on two neighbouring sites, exact"""
    a, b = ts[site], ts[site + 1]
    t = np.tensordot(a, b, ([1], [0]))                       # l s r t
    t = np.tensordot(t, g, ([1, 3], [0, 1]))                 # l r s' t'
    t = np.transpose(t, (0, 2, 1, 3))
    l, s, r, u = t.shape
    x, y, z = np.linalg.svd(t.reshape(l * s, r * u), full_matrices=False)
    out = list(ts)
    out[site] = (x * y).reshape(l, s, -1).transpose(0, 2, 1)
    out[site + 1] = z.reshape(-1, r, u)
    return out


def applympo(ts, mpo):
    """mpo tensors (Ml,Mr,in,out)"""
    out = []
    for t, w in zip(ts, mpo):
        x = np.tensordot(t, w, ([2], [2]))                   # l r ml mr out
        x = np.transpose(x, (0, 2, 1, 3, 4))
        out.append(x.reshape(x.shape[0] * x.shape[1], x.shape[2] * x.shape[3], x.shape[4]))
    return out


def opchain(mpo):
    """an open MPO read as a chain of dimension d*d per site"""
    return [np.asarray(w).reshape(w.shape[0], w.shape[1], -1) for w in mpo]


def hsum(ds, onsite, bond, dtype=float):
    """chain (d*d per site) of sum_j onsite(j) + sum_j sum_k A_k(j) B_k(j+1); bond(j) lists pairs (A,B)"""
    N = len(ds)
    terms = [list(bond(j)) if bond else [] for j in range(N - 1)]
    out = []
    for j in range(N):
        nl = 1 if j == 0 else 2 + len(terms[j - 1])
        nr = 1 if j == N - 1 else 2 + len(terms[j])
        I = np.eye(ds[j])
        w = np.zeros((nl, nr, ds[j], ds[j]), dtype=dtype)
        # states: 0 = nothing yet, 1..k = half a bond, last = done
        start, done = 0, nr - 1
        h = onsite(j) if onsite else 0 * I
        if j < N - 1:
            w[start, 0] = I
            for k, (a, b) in enumerate(terms[j]):
                w[start, 1 + k] = a
        w[start, done] = w[start, done] + h
        if j > 0:
            for k, (a, b) in enumerate(terms[j - 1]):
                w[1 + k, done] = b
            w[nl - 1, done] = I
        out.append(w)
    return out


def expect_mpo(ts, mpo):
    """<psi|O|psi>/<psi|psi> with O[in,out] given by MPO tensors"""
    e = np.ones((1, 1, 1))
    for t, w in zip(ts, mpo):
        x = np.tensordot(e, t, ([0], [0]))                   # b m r in
        x = np.tensordot(x, w, ([1, 3], [0, 2]))             # b r mr out
        e = np.tensordot(x, np.conj(t), ([0, 3], [0, 2]))    # r mr b'
        e = np.transpose(e, (0, 2, 1))
    return e[0, 0, 0] / ov(ts, ts)
