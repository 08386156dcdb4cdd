"""Independent SU(2)/SO(3) helpers (quaternion based; no expm, no eigen-decomposition)."""
import numpy as np

SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]], complex)
SZ = np.array([[1, 0], [0, -1]], complex)
SIG = np.array([SX, SY, SZ])


def so3_to_su2(O):
    """One of the two SU(2) lifts of the proper rotation O (3x3 cartesian)."""
    K = np.array([
        [O[0, 0] + O[1, 1] + O[2, 2], O[2, 1] - O[1, 2], O[0, 2] - O[2, 0], O[1, 0] - O[0, 1]],
        [O[2, 1] - O[1, 2], O[0, 0] - O[1, 1] - O[2, 2], O[0, 1] + O[1, 0], O[0, 2] + O[2, 0]],
        [O[0, 2] - O[2, 0], O[0, 1] + O[1, 0], O[1, 1] - O[0, 0] - O[2, 2], O[1, 2] + O[2, 1]],
        [O[1, 0] - O[0, 1], O[0, 2] + O[2, 0], O[1, 2] + O[2, 1], O[2, 2] - O[0, 0] - O[1, 1]]]) / 3.0
    w, v = np.linalg.eigh(K)
    q = v[:, -1]
    if q[0] < 0:
        q = -q
    return q[0] * np.eye(2) - 1j * (q[1] * SX + q[2] * SY + q[3] * SZ)


def su2_to_so3(S):
    Si = S.conj().T
    return np.array([[0.5 * np.trace(SIG[a] @ S @ SIG[b] @ Si).real for b in range(3)] for a in range(3)])


def cart_rotation(R, lattice):
    """Cartesian matrix of the operation x -> R x in direct coords, lattice rows."""
    A = np.asarray(lattice).T
    return A @ np.asarray(R, float) @ np.linalg.inv(A)


def spin_lift(R, lattice):
    O = cart_rotation(R, lattice)
    if np.linalg.det(O) < 0:
        O = -O
    return so3_to_su2(O)
