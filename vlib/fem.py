"""Independent reference discretisation: exact 1-D integrals by Gauss quadrature, tensor products, no code shared
with the library.  Natural ordering: x fastest, then y, then z; components interleaved; velocity then pressure."""
import numpy as np
import scipy.sparse as sp

GX, GW = np.polynomial.legendre.leggauss(4)


def npts(n, per):
    """pressure points / velocity points per direction"""
    return (n - 1 if per else n), (2 * (n - 1) if per else 2 * n - 1)


def one_d(n, per, L):
    """1-D matrices for the fine (velocity) and coarse (pressure) hat functions."""
    npr, nv = npts(n, per)
    h = L / (2 * (n - 1))
    hp = 2 * h
    ne = 2 * (n - 1)
    M, K, D = (np.zeros((nv, nv)) for _ in range(3))      # phi_i phi_j ; phi_i' phi_j' ; phi_i' phi_j
    C, DC = np.zeros((nv, npr)), np.zeros((nv, npr))      # phi_i psi_j ; phi_i' psi_j
    Mp = np.zeros((npr, npr))
    for e in range(ne):
        I = [e % nv, (e + 1) % nv] if per else [e, e + 1]
        ec = e // 2
        J = [ec % npr, (ec + 1) % npr] if per else [ec, ec + 1]
        for g, w in zip(GX, GW):
            x = (g + 1) / 2 * h
            wt = w * h / 2
            ph, dp = [1 - x / h, x / h], [-1 / h, 1 / h]
            xc = (e % 2) * h + x
            ps = [1 - xc / hp, xc / hp]
            for a in range(2):
                for b in range(2):
                    M[I[a], I[b]] += wt * ph[a] * ph[b]
                    K[I[a], I[b]] += wt * dp[a] * dp[b]
                    D[I[a], I[b]] += wt * dp[a] * ph[b]
                    C[I[a], J[b]] += wt * ph[a] * ps[b]
                    DC[I[a], J[b]] += wt * dp[a] * ps[b]
                    Mp[J[a], J[b]] += wt * ps[a] * ps[b]
    return dict(M=M, K=K, D=D, C=C, DC=DC, Mp=Mp)


def kron(mats):
    """mats[d] for d = x, y, z; x fastest"""
    r = sp.csr_matrix(mats[0])
    for m in mats[1:]:
        r = sp.kron(sp.csr_matrix(m), r, format='csr')
    return r


def comp(S, ndof, i, j):
    E = sp.csr_matrix(([1.], ([i], [j])), shape=(ndof, ndof))
    return sp.kron(S, E, format='csr')


class Ref:
    def __init__(self, n, per=None, L=None):
        self.n = list(n)
        self.dim = d = len(n)
        self.per = [bool(p) for p in (per or [0] * d)]
        self.L = [float(l) for l in (L or [1.] * d)]
        self.o = [one_d(self.n[i], self.per[i], self.L[i]) for i in range(d)]
        self.npr = [npts(self.n[i], self.per[i])[0] for i in range(d)]
        self.nv = [npts(self.n[i], self.per[i])[1] for i in range(d)]
        self.NV, self.NP = int(np.prod(self.nv)), int(np.prod(self.npr))
        self.h = [self.L[i] / (2 * (self.n[i] - 1)) for i in range(d)]
        self.N = self.NV * d + self.NP

    def mass(self):
        return kron([o['M'] for o in self.o])

    def pmass(self):
        return kron([o['Mp'] for o in self.o])

    def grads(self, i, j):
        """int d_i(phi_row) d_j(phi_col)"""
        m = []
        for k, o in enumerate(self.o):
            if k == i and k == j:
                m.append(o['K'])
            elif k == i:
                m.append(o['D'])
            elif k == j:
                m.append(o['D'].T)
            else:
                m.append(o['M'])
        return kron(m)

    def lap(self):
        S = sum(self.grads(i, i) for i in range(self.dim))
        return sp.kron(S, sp.eye(self.dim), format='csr')

    def strain(self):
        """int 2 D(u) : D(v)"""
        d = self.dim
        S = sum(self.grads(i, i) for i in range(d))
        A = sp.kron(S, sp.eye(d), format='csr')
        for r in range(d):
            for c in range(d):
                A = A + comp(self.grads(c, r), d, r, c)   # d_c(phi_row) d_r(phi_col)
        return A.tocsr()

    def vmass(self):
        return sp.kron(self.mass(), sp.eye(self.dim), format='csr')

    def G(self):
        """velocity row, pressure column: - int psi d_d(phi)"""
        d = self.dim
        R = None
        for c in range(d):
            S = kron([o['DC'] if k == c else o['C'] for k, o in enumerate(self.o)])
            e = sp.csr_matrix(([1.], ([c], [0])), shape=(d, 1))
            T = sp.kron(S, e, format='csr')
            R = T if R is None else R + T
        return (-R).tocsr()

    def stokes(self, kind):
        K = self.lap() if kind == 'lap' else self.strain()
        G = self.G()
        return sp.bmat([[K, G], [-G.T, None]], format='csr')

    def massall(self):
        return sp.block_diag([self.vmass(), self.pmass()], format='csr')

    # ---- geometry of the nodes
    def vcoords(self):
        ax = [np.arange(self.nv[k]) * self.h[k] for k in range(self.dim)]
        g = np.meshgrid(*ax[::-1], indexing='ij')[::-1]
        return np.stack([a.ravel() for a in g], 1)

    def pcoords(self):
        ax = [np.arange(self.npr[k]) * 2 * self.h[k] for k in range(self.dim)]
        g = np.meshgrid(*ax[::-1], indexing='ij')[::-1]
        return np.stack([a.ravel() for a in g], 1)

    def vindex(self):
        ax = [np.arange(self.nv[k]) for k in range(self.dim)]
        g = np.meshgrid(*ax[::-1], indexing='ij')[::-1]
        return np.stack([a.ravel() for a in g], 1)

    def border_masks(self):
        """list of 2*dim boolean arrays over velocity nodes (all False on periodic directions)"""
        I = self.vindex()
        r = []
        for k in range(self.dim):
            for v in (0, self.nv[k] - 1):
                r.append((I[:, k] == v) & (not self.per[k]))
        return r

    def dirichlet(self, bc):
        """bc: 2*dim lists of dim slots (>=0 means prescribed). Returns array (NV, dim) of the border that decides each
        value (-1 = free): borders are applied x-, x+, y-, y+, z-, z+ and the last one prevails."""
        m = self.border_masks()
        r = -np.ones((self.NV, self.dim), int)
        for b in range(2 * self.dim):
            for c in range(self.dim):
                if bc[b][c] >= 0:
                    r[m[b], c] = b
        return r


def q1_1d(m, per, h):
    """1-D matrices of a plain grid of m points"""
    M, K, D = (np.zeros((m, m)) for _ in range(3))
    for e in range(m if per else m - 1):
        I = [e, (e + 1) % m]
        for g, w in zip(GX, GW):
            x = (g + 1) / 2 * h
            ph, dp = [1 - x / h, x / h], [-1 / h, 1 / h]
            for a in range(2):
                for b in range(2):
                    M[I[a], I[b]] += w * h / 2 * ph[a] * ph[b]
                    K[I[a], I[b]] += w * h / 2 * dp[a] * dp[b]
                    D[I[a], I[b]] += w * h / 2 * dp[a] * ph[b]
    return dict(M=M, K=K, D=D)


class Plain(Ref):
    """velocity-only reference on an arbitrary grid (multigrid levels)"""

    def __init__(self, m, per, h):
        self.dim, self.nv, self.per, self.h = len(m), list(m), [bool(p) for p in per], list(h)
        self.NV, self.NP = int(np.prod(m)), 0
        self.o = [q1_1d(m[d], self.per[d], h[d]) for d in range(self.dim)]
        self.N = self.NV * self.dim


def solve_reference(f, kind, own, g, src):
    """direct solution of the discrete Stokes problem; g: boundary values (NV, dim), src: nodal source (NV, dim).
    Returns velocity (NV*dim) and the zero-mean pressure."""
    import scipy.sparse.linalg as spl
    nv = f.NV * f.dim
    A = f.stokes(kind)
    b = np.zeros(f.N)
    b[:nv] = f.vmass() @ src.ravel()
    D = (own >= 0).ravel()
    k = np.ones(f.N)
    k[:nv][D] = 0
    b[:nv][D] = g.ravel()[D]
    A = sp.diags(k) @ A + sp.diags(1 - k)
    one = np.zeros((f.N, 1))
    one[nv:, 0] = 1.
    # bordered system: zero-mean pressure, multiplier absorbs the compatibility defect
    B = sp.bmat([[A, sp.csr_matrix(one)], [sp.csr_matrix(one.T), None]], format='csc')
    x = spl.spsolve(B, np.concatenate([b, [0.]]))
    return x[:nv], x[nv:-1], x[-1], b
