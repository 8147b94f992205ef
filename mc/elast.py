"""Reference elasticity: fourth-rank tensors, rotations, crystal classes."""
import itertools
import math

import numpy as np

VM = np.array([[0, 5, 4], [5, 1, 3], [4, 3, 2]])
PAIR = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def full(C):
    """C_ijkl from the Voigt matrix"""
    C = np.asarray(C, dtype=float)
    return C[VM[:, :, None, None], VM[None, None, :, :]]


def voigt(T):
    return np.array([[T[i, j, k, l] for (k, l) in PAIR] for (i, j) in PAIR])


def compliance4(C):
    """S_ijkl, by inverting in the Mandel basis (a true 6-D tensor basis)"""
    w = np.array([1, 1, 1, math.sqrt(2), math.sqrt(2), math.sqrt(2)])
    M = np.asarray(C, dtype=float) * w[:, None] * w[None, :]
    S = np.linalg.inv(M) / w[:, None] / w[None, :]
    return S[VM[:, :, None, None], VM[None, None, :, :]]


def rotate(T, R):
    return np.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, T, optimize=True)


def rotation(axis, angle):
    a = np.asarray(axis, dtype=float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K.dot(K)


# generators of the Laue classes, in the standard settings
PI = math.pi
GEN = {
    'cubic': [rotation([0, 0, 1], PI / 2), rotation([1, 1, 1], 2 * PI / 3)],
    'hexagonal': [rotation([0, 0, 1], PI / 3), rotation([1, 0, 0], PI)],
    'trigonal_high': [rotation([0, 0, 1], 2 * PI / 3), rotation([1, 0, 0], PI)],
    'trigonal_low': [rotation([0, 0, 1], 2 * PI / 3)],
    'tetragonal_high': [rotation([0, 0, 1], PI / 2), rotation([1, 0, 0], PI)],
    'tetragonal_low': [rotation([0, 0, 1], PI / 2)],
    'orthorhombic': [rotation([0, 0, 1], PI), rotation([1, 0, 0], PI)],
    'monoclinic': [rotation([0, 1, 0], PI)],
    'triclinic': [],
}


def group(name):
    G = [np.eye(3)]
    new = True
    while new:
        new = False
        for g in list(G):
            for h in GEN[name]:
                x = g.dot(h)
                if not any(np.allclose(x, y) for y in G):
                    G.append(x)
                    new = True
    return G


def symmetrise(C, name):
    """projection of a tensor on the class: the mean over the group"""
    if name not in _PROJ:
        G = group(name)
        P = np.zeros((36, 36))
        for k in range(36):
            m = np.zeros(36)
            m[k] = 1.
            T = full(m.reshape(6, 6))
            P[:, k] = (sum(voigt(rotate(T, g)) for g in G) / len(G)).ravel()
        _PROJ[name] = P
    return _PROJ[name].dot(np.asarray(C, dtype=float).ravel()).reshape(6, 6)


_PROJ = {}


def generic(seed=0, scale=1.):
    """a positive definite tensor without symmetry (deterministic)"""
    k = np.arange(36).reshape(6, 6)
    A = np.sin(1.7 * (k + 1) + 0.9 * seed + 0.13 * k ** 2)
    A = (A + A.T) / 2.
    d = np.diag([220., 190., 250., 70., 60., 80.])
    d[:3, :3] += 75. * (1 - np.eye(3))
    return scale * (d + 14. * A * (1. + 0.25 * (seed % 3)))


def stable(C):
    return np.linalg.eigvalsh((C + C.T) / 2.).min() > 0


def averages(C):
    """3 x 4: Voigt, Reuss, Hill of K, E, G, nu"""
    c, s = full(C), compliance4(C)
    kv = np.einsum('iijj', c) / 9.
    gv = (3. * np.einsum('ijij', c) - np.einsum('iijj', c)) / 30.
    kr = 1. / np.einsum('iijj', s)
    gr = 15. / 2. / (3. * np.einsum('ijij', s) - np.einsum('iijj', s))
    out = []
    for k, g in ((kv, gv), (kr, gr), ((kv + kr) / 2., (gv + gr) / 2.)):
        out.append([k, 9 * k * g / (3 * k + g), g, (3 * k - 2 * g) / (2 * (3 * k + g))])
    return np.array(out)


def direction(theta, phi):
    return np.array([math.sin(theta) * math.cos(phi), math.sin(theta) * math.sin(phi), math.cos(theta)])


def normal(theta, phi, chi):
    """unit vector at angle chi from e_theta towards e_phi"""
    et = np.array([math.cos(theta) * math.cos(phi), math.cos(theta) * math.sin(phi), -math.sin(theta)])
    ep = np.array([-math.sin(phi), math.cos(phi), 0.])
    return math.cos(chi) * et + math.sin(chi) * ep


def young(S, n):
    return 1. / np.einsum('ijkl,i,j,k,l', S, n, n, n, n)


def lincomp(S, n):
    return np.einsum('ijkk,i,j', S, n, n)


def shear(S, n, m):
    return 1. / (4. * np.einsum('ijkl,i,j,k,l', S, n, m, n, m))


def poisson(S, n, m):
    return -np.einsum('ijkl,i,j,k,l', S, n, n, m, m) / np.einsum('ijkl,i,j,k,l', S, n, n, n, n)


def christoffel(C, n):
    return np.einsum('ijkl,j,l->ik', full(C), n, n)


def speeds(C, rho, n):
    """km/s, ascending, C in GPa"""
    w = np.linalg.eigvalsh(christoffel(C, n))
    return np.sqrt(w * 1e9 / rho) / 1000.


def transverse_extremes(S, n):
    """((Gmin, Gmax), (numin, numax)) over all normals m of n, exactly: both
    quadratic forms in m, restricted to the plane normal to n"""
    n = n / np.linalg.norm(n)
    k = np.argmin(np.abs(n))
    e = np.zeros(3)
    e[k] = 1.
    u = np.cross(n, e)
    u /= np.linalg.norm(u)
    P = np.array([u, np.cross(n, u)])
    A = np.einsum('ijkl,i,k,aj,bl->ab', S, n, n, P, P)
    B = np.einsum('ijkl,i,j,ak,bl->ab', S, n, n, P, P)
    a = np.linalg.eigvalsh((A + A.T) / 2.)
    b = np.linalg.eigvalsh((B + B.T) / 2.)
    d = np.einsum('ijkl,i,j,k,l', S, n, n, n, n)
    return (1. / (4. * a[1]), 1. / (4. * a[0])), (-b[1] / d, -b[0] / d)


def lattice(n):
    """every direction of the integer lattice |h| <= n (one of each +/- pair)"""
    out = []
    for h in itertools.product(range(-n, n + 1), repeat=3):
        if h <= (0, 0, 0) or math.gcd(math.gcd(abs(h[0]), abs(h[1])), abs(h[2])) != 1:
            continue
        out.append(np.array(h) / math.sqrt(sum(x * x for x in h)))
    return out


def angles(n):
    t = math.acos(max(-1., min(1., n[2])))
    return t, math.atan2(n[1], n[0])


# ---- vectorised over directions (N, 3)
def sphere(step):
    """degrees; half sphere"""
    th = np.radians(np.arange(0., 180. + 1e-9, step))
    ph = np.radians(np.arange(0., 180. - 1e-9, step))
    t, p = np.meshgrid(th, ph, indexing='ij')
    t, p = t.ravel(), p.ravel()
    return np.stack([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)], 1), t, p


def fields(C, rho, D, t, p):
    """E, LC (TPa^-1), Gmin, Gmax, numin, numax, speeds for all directions"""
    S = compliance4(C)
    s11 = np.einsum('ijkl,ni,nj,nk,nl->n', S, D, D, D, D, optimize=True)
    lc = np.einsum('ijkk,ni,nj->n', S, D, D, optimize=True)
    et = np.stack([np.cos(t) * np.cos(p), np.cos(t) * np.sin(p), -np.sin(t)], 1)
    ep = np.stack([-np.sin(p), np.cos(p), 0 * p], 1)
    P = np.stack([et, ep], 1)
    A = np.einsum('ijkl,ni,nk,naj,nbl->nab', S, D, D, P, P, optimize=True)
    B = np.einsum('ijkl,ni,nj,nak,nbl->nab', S, D, D, P, P, optimize=True)

    def eig2(M):
        m = (M[:, 0, 0] + M[:, 1, 1]) / 2.
        d = np.sqrt(((M[:, 0, 0] - M[:, 1, 1]) / 2.) ** 2 + ((M[:, 0, 1] + M[:, 1, 0]) / 2.) ** 2)
        return m - d, m + d
    a0, a1 = eig2(A)
    b0, b1 = eig2(B)
    out = {'E': 1. / s11, 'LC': 1000. * lc, 'Gmin': 1 / (4 * a1), 'Gmax': 1 / (4 * a0), 'numin': -b1 / s11, 'numax': -b0 / s11}
    if rho:
        G = np.einsum('ijkl,nj,nl->nik', full(C), D, D, optimize=True)
        w = np.sqrt(np.linalg.eigvalsh(G) * 1e9 / rho) / 1000.
        out['vs1'], out['vs2'], out['vp'] = w[:, 0], w[:, 1], w[:, 2]
    return out
