"""Dense reference computations.  Nothing in this file calls the code under test."""
import numpy as np
import itertools

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


# ---- states -----------------------------------------------------------------------------
def chain(tensors):
    """contract a list of (Dl,Dr,d) tensors with open ends: array (Dl, prod d, Dr)"""
    t = np.asarray(tensors[0])
    out = np.transpose(t, (0, 2, 1))
    for t in tensors[1:]:
        o = np.tensordot(out, np.asarray(t), ([2], [0]))       # l, P, r, s
        o = np.transpose(o, (0, 1, 3, 2))
        out = o.reshape(o.shape[0], o.shape[1] * o.shape[2], o.shape[3])
    return out


def full_tensors(mps):
    """tensors of an MPS object with the centre matrix absorbed (own implementation)"""
    ts = [np.array(t) for t in mps.tensors]
    pos = mps.pos
    if pos < len(ts):
        ts[pos] = np.tensordot(mps._mat, ts[pos], ([1], [0]))
    else:
        ts[-1] = np.transpose(np.tensordot(ts[-1], mps._mat, ([1], [0])), (0, 2, 1))
    return ts


def vec(mps):
    """the vector a finite MPS object represents, norm and phase included"""
    v = chain(full_tensors(mps))
    if v.shape[0] != 1 or v.shape[2] != 1:
        raise ValueError("not an open chain")
    return v[0, :, 0] * mps._Z


def lvec(tensors):
    v = chain(tensors)
    return v[0, :, 0]


def schmidt(v, ds, n):
    """descending Schmidt coefficients of the normalised vector across bond n"""
    dl = int(np.prod(ds[:n])) if n else 1
    s = np.linalg.svd(v.reshape(dl, -1), compute_uv=False)
    return s / np.linalg.norm(s)


def left_iso(t):
    m = np.tensordot(np.conj(t), t, ([0, 2], [0, 2]))
    return np.max(np.abs(m - np.eye(m.shape[0])))


def right_iso(t):
    m = np.tensordot(t, np.conj(t), ([1, 2], [1, 2]))
    return np.max(np.abs(m - np.eye(m.shape[0])))


# ---- operators: matrices are indexed [in, out] as in the code base ------------------------
def apply(M, v):
    """v_in -> v_out for an operator stored [in,out]"""
    return v @ M


def expect(M, v):
    return (v @ M) @ np.conj(v)


def embed(op, site, ds):
    dl = int(np.prod(ds[:site])) if site else 1
    dr = int(np.prod(ds[site + 1:])) if site + 1 < len(ds) else 1
    return np.kron(np.kron(np.eye(dl), op), np.eye(dr))


def embed2(op, site, ds):
    """op: (d1*d2, d1*d2) on sites site, site+1"""
    dl = int(np.prod(ds[:site])) if site else 1
    dr = int(np.prod(ds[site + 2:])) if site + 2 < len(ds) else 1
    return np.kron(np.kron(np.eye(dl), op), np.eye(dr))


def string(ops, ds):
    """kron of one operator per site"""
    out = np.eye(1)
    for o in ops:
        out = np.kron(out, o)
    return out


def mpo_dense(mpo, lrow=None, rcol=None):
    """contract MPO tensors (Ml,Mr,in,out) to a dense [in,out] matrix; open ends must be 1 unless row/col given"""
    ts = [np.asarray(mpo[n]) for n in range(len(mpo))]
    if lrow is not None:
        ts[0] = ts[0][lrow:lrow + 1] if lrow != -1 else ts[0][-1:]
    if rcol is not None:
        ts[-1] = ts[-1][:, rcol:rcol + 1]
    out = None
    for t in ts:
        if out is None:
            out = np.transpose(t, (0, 2, 3, 1))                 # l,i,o,r
            continue
        o = np.tensordot(out, t, ([3], [0]))                    # l,I,O,r,i,o
        o = np.transpose(o, (0, 1, 4, 2, 5, 3))
        out = o.reshape(o.shape[0], o.shape[1] * o.shape[2], o.shape[3] * o.shape[4], o.shape[5])
    if out.shape[0] != 1 or out.shape[3] != 1:
        raise ValueError("MPO has open auxiliary legs %s" % (out.shape,))
    return out[0, :, :, 0]


def mpo_dense_full(mpo):
    """(Ml, in, out, Mr)"""
    out = None
    for n in range(len(mpo)):
        t = np.asarray(mpo[n])
        if out is None:
            out = np.transpose(t, (0, 2, 3, 1))
            continue
        o = np.tensordot(out, t, ([3], [0]))
        o = np.transpose(o, (0, 1, 4, 2, 5, 3))
        out = o.reshape(o.shape[0], o.shape[1] * o.shape[2], o.shape[3] * o.shape[4], o.shape[5])
    return out


def expm_herm(H, tau):
    """exp(tau*H) for hermitian H by diagonalisation"""
    e, u = np.linalg.eigh(H)
    return (u * np.exp(tau * e)) @ u.conj().T


def expm(A):
    """general matrix exponential: scaling and squaring of a Taylor series"""
    A = np.asarray(A, dtype=complex)
    n = max(0, int(np.ceil(np.log2(max(np.linalg.norm(A, 1), 1e-16)))) + 4)
    B = A / 2.0 ** n
    E = np.eye(A.shape[0], dtype=complex)
    T = E.copy()
    for k in range(1, 22):
        T = T @ B / k
        E = E + T
    for _ in range(n):
        E = E @ E
    return E


# ---- models, [in,out] indexing; all are built from explicit local operators ---------------
SX = np.array([[0, 1], [1, 0]], float)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.array([[1, 0], [0, -1]], float)


def heff_one(L, W, R):
    """effective one-site matrix [in,out] over (ket l, ket r, s) -> (bra l, bra r, s')"""
    t = np.einsum("abm,mnst,cdn->acsbdt", L, W, R, optimize=True)
    n1 = t.shape[0] * t.shape[1] * t.shape[2]
    n2 = t.shape[3] * t.shape[4] * t.shape[5]
    return t.reshape(n1, n2)


def heff_bond(L, R):
    t = np.einsum("abm,cdm->acbd", L, R)
    return t.reshape(t.shape[0] * t.shape[1], -1)


def env_left(kets, mpo, bras, L):
    for a, w, b in zip(kets, mpo, bras):
        L = np.einsum("abm,acs,mnst,bdt->cdn", L, a, w, np.conj(b), optimize=True)
    return L


def env_right(kets, mpo, bras, R):
    for a, w, b in reversed(list(zip(kets, mpo, bras))):
        R = np.einsum("cdn,acs,mnst,bdt->abm", R, a, w, np.conj(b), optimize=True)
    return R


def transfer_matrix(kets, bras):
    """matrix acting on row vectors x[(a,a')] from the left: y = x T, T[(a,a'),(b,b')]"""
    T = None
    for a, b in zip(kets, bras):
        t = np.einsum("abs,cds->acbd", a, np.conj(b))
        t = t.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
        T = t if T is None else T @ t
    return T


# ---- infinite states ---------------------------------------------------------------------
def full_tensors_inf(mps):
    """cell tensors of an infinite MPS object with centre matrix and connector absorbed"""
    ts = full_tensors(mps)
    if mps.pos == len(ts):
        ts[-1] = np.transpose(np.tensordot(ts[-1], mps._connector, ([1], [0])), (0, 2, 1))
    else:
        ts[0] = np.tensordot(mps._connector, ts[0], ([1], [0]))
    return ts


def fixed_points(ts):
    """dominant eigenvalue and the left and right eigenvectors (as (ket,bra) matrices) of the cell transfer operator;
    also the modulus of the subleading eigenvalue relative to the dominant one"""
    T = transfer_matrix(ts, ts)
    D = ts[0].shape[0]
    e, v = np.linalg.eig(T)
    i = np.argmax(np.abs(e))
    r = v[:, i].reshape(D, D)
    f, w = np.linalg.eig(T.T)
    l = w[:, np.argmax(np.abs(f))].reshape(D, D)
    r = r / np.trace(r)
    l = l / np.trace(l)
    ab = np.sort(np.abs(e))
    gap = ab[-2] / ab[-1] if len(ab) > 1 else 0.0
    return e[i], l, r, gap


def rdm_inf(ts, start, k):
    """reduced density matrix of sites start..start+k-1 of the infinite state, [in(ket), out(bra)], trace one"""
    N = len(ts)
    cell = [ts[(start + n) % N] for n in range(N)]
    _, l, r, _ = fixed_points(cell)
    # right fixed point after k sites: cell starting at (start+k)
    cell2 = [ts[(start + k + n) % N] for n in range(N)]
    _, _, r, _ = fixed_points(cell2)
    blk = chain([ts[(start + n) % N] for n in range(k)])
    rho = np.einsum("ab,aPc,bQd,cd->PQ", l, blk, np.conj(blk), r, optimize=True)
    return rho / np.trace(rho)


def fidelity_inf(a, b):
    """spectral radius of the mixed cell transfer operator of the normalised states"""
    ea = np.max(np.abs(np.linalg.eigvals(transfer_matrix(a, a))))
    eb = np.max(np.abs(np.linalg.eigvals(transfer_matrix(b, b))))
    em = np.max(np.abs(np.linalg.eigvals(transfer_matrix(a, b))))
    return em / np.sqrt(ea * eb)


def schmidt_inf(ts):
    """descending Schmidt coefficients across the cell boundary of the infinite state"""
    _, l, r, _ = fixed_points(ts)
    # amplitude matrix: sqrt(l)^T sqrt(r)
    def root(x):
        x = (x + x.conj().T) / 2
        e, u = np.linalg.eigh(x)
        return (u * np.sqrt(np.clip(e, 0, None))) @ u.conj().T
    s = np.linalg.svd(root(l).T @ root(r), compute_uv=False)
    return s / np.linalg.norm(s)
