"""Plane-wave model Hamiltonians with an exactly prescribed space group.

The eigenvectors computed here are the ground truth the monitors compare irrep's
results with: they are known in full double precision, in the G-sphere order of this
module, before any file is written."""
import itertools
import numpy as np
from .su2 import SIG, cart_rotation, spin_lift

TWOMHBAR2 = 0.262465831            # 2m/hbar^2, 1/(eV Ang^2), VASP's value
RY = 13.605693
HA = 2 * RY
BOHR_A = 0.529177210903


def reclat(lat):
    return 2 * np.pi * np.linalg.inv(np.asarray(lat)).T


def ball(B, kf, kmax):
    """All integer G with |k+G| (cartesian) < kmax.  Rows."""
    A = 2 * np.pi * np.linalg.inv(B).T         # direct lattice rows
    n = [int(np.ceil(kmax * np.linalg.norm(A[i]) / (2 * np.pi) + abs(kf[i]))) + 1 for i in range(3)]
    g = np.array(np.meshgrid(*[np.arange(-m, m + 1) for m in n], indexing="ij")).reshape(3, -1).T
    K = (g + kf) @ B
    sel = np.einsum("ij,ij->i", K, K) < kmax ** 2
    return g[sel]


class Field:
    """Symmetrised periodic fields on a G-ball, stored on a dense box."""

    def __init__(self, box):
        self.n = np.array(box)
        self.shape = tuple(2 * self.n + 1)

    def idx(self, Q):
        return tuple((Q + self.n).T)

    def inside(self, Q):
        return (np.abs(Q) <= self.n).all(axis=-1)


class Model:
    def __init__(self, lattice, ops, rng, spinor, qmax, v0=6.0, soc=1.0, trbreak=False, invperiod=None):
        """ops: coset representatives [(R,t)] in direct coords.  qmax: cartesian cutoff of
        the potential's Fourier components (1/Ang)."""
        self.lat = np.asarray(lattice, float)
        self.B = reclat(self.lat)
        self.ops = ops
        self.spinor = spinor
        self.trbreak = trbreak
        q2 = np.sort((ball(self.B, np.zeros(3), 1.1 * qmax) @ self.B) ** 2 @ np.ones(3))
        while np.abs(q2 - qmax ** 2).min() < 1e-7 * qmax ** 2:
            qmax *= 1.0003
        Q = ball(self.B, np.zeros(3), qmax)
        box = np.abs(Q).max(axis=0)
        self.n = box
        shape = tuple(2 * box + 1)
        Qc = Q @ self.B
        q2 = np.einsum("ij,ij->i", Qc, Qc)
        dec = 1.0 / (1.0 + 3.0 * q2 / qmax ** 2)
        ncomp = 1 + (3 if trbreak else 0)
        V = np.zeros((ncomp,) + shape, complex)
        I = tuple((Q + box).T)
        raw = np.zeros((ncomp,) + shape, complex)
        raw[(slice(None),) + I] = (rng.normal(size=(ncomp, len(Q))) + 1j * rng.normal(size=(ncomp, len(Q)))) * dec
        rev = (slice(None), slice(None, None, -1), slice(None, None, -1), slice(None, None, -1))
        raw = 0.5 * (raw + raw[rev].conj())        # real fields
        for R, t in ops:
            RiT = np.linalg.inv(R).T
            gQ = np.round(Q @ RiT.T).astype(int)     # rows R^{-T} Q
            ph = np.exp(2j * np.pi * gQ @ np.asarray(t))
            J = tuple((gQ + box).T)
            V[(0,) + I] += raw[(0,) + J] * ph
            if trbreak:
                # vector field F(g r) = W F(r):  F_{RiT Q} e^{2 pi i gQ.t} = W F_Q
                O = cart_rotation(R, self.lat)
                W = O * (np.linalg.det(O) if spinor else 1.0)   # axial for spin, polar for orbital
                Fj = raw[(slice(1, 4),) + J] * ph
                V[(slice(1, 4),) + I] += W.T @ Fj
        V /= len(ops)
        # fix overall strength so that small groups do not get a much stronger potential
        nrm = np.sqrt(np.mean(np.abs(V[0][I]) ** 2)) + 1e-12
        ref = np.sqrt(np.mean(dec ** 2))
        V[0] *= v0 * 0.5 * ref / nrm
        V[0][tuple(box)] = 0
        if trbreak:
            nf = np.sqrt(np.mean(np.abs(V[(slice(1, 4),) + I]) ** 2))
            self.trnull = nf < 1e-9
            V[1:] *= (0.35 * v0 * 0.5 * ref / (nf + 1e-12)) if not self.trnull else 0.0
        self.V = V
        self.soc = soc

    def hamiltonian(self, kf, G):
        kf = np.asarray(kf, float)
        K = (G + kf) @ self.B
        n = len(G)
        D = G[:, None, :] - G[None, :, :]
        ok = (np.abs(D) <= self.n).all(axis=2)
        Dc = np.where(ok[..., None], D, 0)
        I = tuple(np.moveaxis(Dc + self.n, 2, 0))
        Vm = np.where(ok, self.V[0][I], 0)
        kin = np.einsum("ij,ij->i", K, K) / TWOMHBAR2
        H0 = Vm.copy()
        if self.trbreak and not self.spinor:
            for a in range(3):
                Fa = np.where(ok, self.V[1 + a][I], 0)
                H0 = H0 + Fa * (K[:, None, a] + K[None, :, a]) / max(1e-9, np.sqrt((K ** 2).sum(1).mean()))
        H0 = 0.5 * (H0 + H0.conj().T)
        H0[np.diag_indices(n)] += kin
        if not self.spinor:
            return H0
        X = np.cross(K[:, None, :], K[None, :, :])
        sc = self.soc / max(1e-9, (K ** 2).sum(1).mean())
        Hs = np.einsum("gha,ast->sgth", 1j * sc * Vm[..., None] * X, SIG)
        if self.trbreak:
            for a in range(3):
                Fa = np.where(ok, self.V[1 + a][I], 0)
                Hs += np.einsum("gh,st->sgth", Fa, SIG[a])
        H = Hs.reshape(2 * n, 2 * n)
        H[:n, :n] += H0
        H[n:, n:] += H0
        return 0.5 * (H + H.conj().T)

    def solve(self, kf, ecut, nb=None):
        """Eigenstates on the sphere |k+G|^2/TWOMHBAR2 < ecut.  Returns a KData."""
        G = ball(self.B, np.asarray(kf, float), np.sqrt(ecut * TWOMHBAR2))
        H = self.hamiltonian(kf, G)
        E, V = np.linalg.eigh(H)
        kd = KData()
        kd.k = np.asarray(kf, float)
        kd.G = G
        kd.E_all = E
        nb = len(E) if nb is None else min(nb, len(E))
        kd.E = E[:nb].copy()
        kd.C = V[:, :nb].T.copy()                 # rows = bands
        kd.spinor = self.spinor
        return kd


class KData:
    def levels(self, tol=1e-6):
        b = [0] + [i + 1 for i in range(len(self.E) - 1) if self.E[i + 1] - self.E[i] > tol] + [len(self.E)]
        return list(zip(b[:-1], b[1:]))

    def regauge(self, rng, norms=True, tol=1e-6):
        """Random unitary inside every level, random norm and phase of every state."""
        for a, b in self.levels(tol):
            m = b - a
            Z = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
            Qm, _ = np.linalg.qr(Z)
            self.C[a:b] = Qm @ self.C[a:b]
        if norms:
            # any norm, or close to one (augmented or truncated waves)
            x = rng.uniform(0.5, 2.0, len(self.C))
            self.C *= (x if x[0] > 1 else 1 + .008 * (x - 1))[:, None]
        return self


def op_matrix(kd, R, t, S, rows=None, kd2=None):
    """<psi_m(k2)| {R|t} psi_n(k)> for states kd (k) and kd2 (R^{-T}k + integer), in
    full; S acts on the spinor.  kd2 None: the same k (little group)."""
    kd2 = kd if kd2 is None else kd2
    RiT = np.round(np.linalg.inv(np.asarray(R, float)).T).astype(int)
    k = kd.k
    kr = RiT @ k
    dk = kr - kd2.k
    dki = np.round(dk).astype(int)
    assert np.abs(dk - dki).max() < 1e-6, "operation does not map k to k2"
    Gr = kd.G @ RiT.T + dki
    look = {tuple(g): i for i, g in enumerate(kd2.G)}
    idx = np.array([look[tuple(g)] for g in Gr])
    ph = np.exp(-2j * np.pi * ((kd.G @ RiT.T + kr) @ np.asarray(t, float)))
    n1, n2 = len(kd.G), len(kd2.G)
    C = kd.C if rows is None else kd.C[rows]
    D = kd2.C if rows is None else kd2.C[rows]
    C = C / np.linalg.norm(C, axis=1)[:, None]
    D = D / np.linalg.norm(D, axis=1)[:, None]
    if not kd.spinor:
        X = np.zeros((len(C), n2), complex)
        X[:, idx] = C * ph
        return D.conj() @ X.T
    up, dn = C[:, :n1] * ph, C[:, n1:] * ph
    X = np.zeros((len(C), 2 * n2), complex)
    X[:, idx] = S[0, 0] * up + S[0, 1] * dn
    X[:, n2 + idx] = S[1, 0] * up + S[1, 1] * dn
    return D.conj() @ X.T


def in_little_group(R, k, tol=1e-8):
    d = np.linalg.inv(np.asarray(R, float)).T @ k - k
    return np.abs(d - np.round(d)).max() < tol


def pick_ecut(B, kpts, target_npw, vol, rng=None, gap=2e-3):
    """A cutoff (eV, with TWOMHBAR2) near the one giving target_npw waves, placed in a
    gap between shells at every k so that no plane wave sits on the border."""
    kmax = (6 * np.pi ** 2 * target_npw / vol) ** (1 / 3.)
    e0 = kmax ** 2 / TWOMHBAR2
    es = []
    for k in kpts:
        G = ball(B, np.asarray(k, float), kmax * 1.35)
        K = (G + k) @ B
        es.append(np.einsum("ij,ij->i", K, K) / TWOMHBAR2)
    es = np.sort(np.concatenate(es))
    lo = es[(es > 0.75 * e0) & (es < 1.6 * e0)]
    mids, w = [], []
    for a, b in zip(lo[:-1], lo[1:]):
        if b - a > gap * e0:
            mids.append(0.5 * (a + b))
    if not mids and len(lo) < 2:
        return float(e0 * 1.01)
    if not mids:
        i = np.argmax(np.diff(lo))
        return 0.5 * (lo[i] + lo[i + 1])
    mids = np.array(mids)
    return float(mids[np.argmin(np.abs(mids - e0))])
