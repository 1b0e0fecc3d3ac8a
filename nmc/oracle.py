"""Independent reference computations (explicit sums; no library code)."""
import functools
import math
from fractions import Fraction
import numpy as np

F = math.factorial


# ---------------------------------------------------------------- Wigner 3j
@functools.lru_cache(maxsize=None)
def w3j(l1, l2, l3, m1, m2, m3):
    """Exact Racah sum, rounded once to double."""
    if m1+m2+m3 != 0 or l3 < abs(l1-l2) or l3 > l1+l2:
        return 0.0
    if abs(m1) > l1 or abs(m2) > l2 or abs(m3) > l3:
        return 0.0
    tmin = max(0, l2-l3-m1, l1-l3+m2)
    tmax = min(l1+l2-l3, l1-m1, l2+m2)
    s = Fraction(0)
    for t in range(tmin, tmax+1):
        d = (F(t)*F(l3-l2+t+m1)*F(l3-l1+t-m2)*F(l1+l2-l3-t) *
             F(l1-t-m1)*F(l2-t+m2))
        s += Fraction((-1)**t, d)
    if s == 0:
        return 0.0
    pre = Fraction(F(l1+l2-l3)*F(l1-l2+l3)*F(-l1+l2+l3), F(l1+l2+l3+1))
    pre *= (F(l1+m1)*F(l1-m1)*F(l2+m2)*F(l2-m2)*F(l3+m3)*F(l3-m3))
    sq = pre*s*s
    v = math.sqrt(sq)
    sign = (1 if s > 0 else -1)*(-1 if (l1-l2-m3) % 2 else 1)
    return sign*v


# ------------------------------------------------- spin-weighted harmonics
def wigner_small_d(l, m, mp, beta):
    """d^l_{m mp}(beta) by the explicit sum."""
    c, s = np.cos(beta/2), np.sin(beta/2)
    out = np.zeros_like(beta, dtype=float)
    pre = math.sqrt(F(l+m)*F(l-m)*F(l+mp)*F(l-mp))
    for k in range(max(0, mp-m), min(l+mp, l-m)+1):
        den = F(l+mp-k)*F(k)*F(m-mp+k)*F(l-m-k)
        out = out + ((-1)**(m-mp+k)*(pre/den) *
                     c**(2*l+mp-m-2*k)*s**(m-mp+2*k))
    return out


def sYlm(s, l, m, theta, phi):
    """Spin-weighted harmonic, Condon-Shortley, s=0 the usual Y_lm."""
    if l < abs(s) or l < abs(m):
        return np.zeros(np.shape(theta), dtype=complex)
    d = wigner_small_d(l, m, -s, np.asarray(theta, float))
    return ((-1)**s*math.sqrt((2*l+1)/(4*math.pi)) *
            d*np.exp(1j*m*np.asarray(phi, float)) * 1.0)


def alm_index(lmax):
    """[(l, m)] in healpy order (m-major)."""
    return [(l, m) for m in range(lmax+1) for l in range(m, lmax+1)]


class SHT(object):
    """Dense synthesis/analysis matrices at given pixels with given weights.

    Convention (HEALPix): spin 0: T = sum a Y; spin s>0:
    Q + iU = -sum (E + iB) {}_sY_lm, Q - iU = -sum (E - iB) {}_{-s}Y_lm
    up to the parity sign of the library for odd spins, which is the sign
    for which E of spin 1 is minus the gradient potential.
    """
    def __init__(self, theta, phi, weight, lmax):
        self.theta, self.phi = np.asarray(theta), np.asarray(phi)
        self.w = np.asarray(weight)*np.ones(len(self.theta))
        self.lmax = lmax
        self.lm = alm_index(lmax)
        self._y = {}

    def Y(self, s):
        """[npix, 2*? ] matrices for all l and m in -l..l as dict."""
        if s not in self._y:
            self._y[s] = {(l, m): sYlm(s, l, m, self.theta, self.phi)
                          for l in range(self.lmax+1)
                          for m in range(-l, l+1)}
        return self._y[s]

    def full(self, alm):
        """a_lm for m>=0 of a real field -> dict over all m."""
        out = {}
        for (l, m), a in zip(self.lm, alm):
            if m == 0:
                out[(l, 0)] = complex(a).real+0j
            else:
                out[(l, m)] = complex(a)
                out[(l, -m)] = (-1)**m*np.conj(complex(a))
        return out

    def synth(self, alms, s):
        """alms: [ncomp, nlm] -> maps [ncomp, npix]."""
        if s == 0:
            Y = self.Y(0)
            T = np.zeros(len(self.theta), complex)
            for lm, a in self.full(alms[0]).items():
                if a != 0:
                    T += a*Y[lm]
            return np.array([T.real])
        Y = self.Y(s)
        e, b = self.full(alms[0]), self.full(alms[1])
        P = np.zeros(len(self.theta), complex)
        for lm in e:
            x = e[lm]+1j*b[lm]
            if x != 0:
                P += x*Y[lm]
        P = -P
        return np.array([P.real, P.imag])

    def anal(self, maps, s):
        """maps: [ncomp, npix] -> alms [ncomp, nlm] with the weights."""
        maps = np.asarray(maps)
        if s == 0:
            Y = self.Y(0)
            return np.array([[np.sum(self.w*maps[0]*np.conj(Y[lm]))
                              for lm in self.lm]])
        Yp, Ym = self.Y(s), self.Y(-s)
        P = maps[0]+1j*maps[1]
        M = maps[0]-1j*maps[1]
        sg = (-1)**s
        e, b = [], []
        for lm in self.lm:
            ap = np.sum(self.w*P*np.conj(Yp[lm]))
            am = sg*np.sum(self.w*M*np.conj(Ym[lm]))
            e.append(-(ap+am)/2)
            b.append(-(ap-am)/2j)
        return np.array([e, b])

    # matrices (real degrees of freedom handled by the caller)
    def anal_matrix(self, s):
        """complex [ncomp*nlm, ncomp*npix]"""
        n = len(self.theta)
        if s == 0:
            Y = self.Y(0)
            return np.array([self.w*np.conj(Y[lm]) for lm in self.lm])
        Yp, Ym = self.Y(s), self.Y(-s)
        sg = (-1)**s
        nl = len(self.lm)
        A = np.zeros((2*nl, 2*n), complex)
        for i, lm in enumerate(self.lm):
            ap = self.w*np.conj(Yp[lm])
            am = sg*self.w*np.conj(Ym[lm])
            A[i, :n] = -(ap+am)/2
            A[i, n:] = -(1j*ap-1j*am)/2
            A[nl+i, :n] = -(ap-am)/2j
            A[nl+i, n:] = -(1j*ap+1j*am)/2j
        return A

    def iterated(self, maps, s, n_iter):
        a = self.anal(maps, s)
        for _ in range(n_iter):
            d = self.synth(a, s)-maps
            a = a-self.anal(d, s)
        return a


def alm2cl(a, b, lmax):
    """m-average of a b* for real fields in healpy order."""
    l = np.concatenate([np.arange(m, lmax+1) for m in range(lmax+1)])
    p = (np.asarray(a)*np.conj(b)).real[:len(l)]*2
    p[:lmax+1] /= 2
    return np.bincount(l, p, lmax+1)/(2*np.arange(lmax+1)+1)


# -------------------------------------------------- curved coupling matrices
@functools.lru_cache(maxsize=None)
def wfac(l1, l2, l3, s, pure):
    """Coupling of multipole l3 into l2 by mask multipole l1, spin s.

    Pure version: the pure-E/B estimator of a spin-2 field applies
    D(W Y) instead of W D(Y); expanding gives the extra spin-1 and
    scalar mask-derivative terms below (Smith 2006; Grain et al. 2009)."""
    w = w3j(l2, l3, l1, s, -s, 0)
    if pure and s == 2 and l2 >= 2:
        f1 = 2*math.sqrt(l1*(l1+1.)/((l2+2.)*(l2-1.)))
        f2 = math.sqrt((l1+2.)*(l1+1.)*l1*(l1-1.) /
                       ((l2+2.)*(l2+1.)*l2*(l2-1.))) if l1 >= 2 else 0.
        w += (f1*w3j(l2, l3, l1, 1, -2, 1) + f2*w3j(l2, l3, l1, 0, -2, 2))
    return w


@functools.lru_cache(maxsize=None)
def wtensor(s, pure, lmax, lmask):
    """[l1, l2, l3] factors."""
    T = np.zeros((lmask+1, lmax+1, lmax+1))
    for l2 in range(lmax+1):
        for l3 in range(lmax+1):
            for l1 in range(abs(l2-l3), min(l2+l3, lmask)+1):
                T[l1, l2, l3] = wfac(l1, l2, l3, s, pure)
    T.setflags(write=False)
    return T


def xi_curved(pcl, lmax, s1, s2, parity=None, p1=0, p2=0):
    """[l2, l3] sum_l1 pcl (2l1+1)/4pi w1 w2; parity of l1+l2+l3 or None."""
    lmask = len(pcl)-1
    w = np.asarray(pcl)*(2*np.arange(lmask+1)+1)/(4*np.pi)
    T = wtensor(s1, p1, lmax, lmask)*wtensor(s2, p2, lmax, lmask)
    if parity is not None:
        a, b, c = np.indices(T.shape)
        T = np.where((a+b+c) % 2 == parity, T, 0)
    return np.einsum('a,abc->bc', w, T)


def smalld_table(lmax, m, n, x):
    """[l, x] of d^l_{mn}, upward recursion from l = max(|m|, |n|)."""
    out = np.zeros((lmax+1, len(x)))
    l0 = max(abs(m), abs(n))
    if l0 > lmax:
        return out
    if l0 == m and m > 20:
        # closed form through logarithms
        with np.errstate(divide="ignore"):
            out[l0] = (-1)**(m-n)*np.exp(
                0.5*(math.lgamma(2*m+1)-math.lgamma(m+n+1)
                     - math.lgamma(m-n+1)) +
                0.5*(m+n)*np.log((1+x)/2)+0.5*(m-n)*np.log((1-x)/2))
    else:
        out[l0] = wigner_small_d(l0, m, n, np.arccos(x))
    for l in range(l0, lmax):
        if l == 0:
            out[1] = x
            continue
        a = (2*l+1)*(l*(l+1.)*x-m*n)*out[l]
        b = (l+1.)*math.sqrt((l*l-m*m)*(l*l-n*n))
        out[l+1] = (a-b*out[l-1])/(l*math.sqrt(
            ((l+1.)**2-m*m)*((l+1.)**2-n*n)))
    return out


_GL = {}


def gl_bound(pcl, lmax, s1, s2, parity=None, p1=0, p2=0):
    return xi_gl(pcl, lmax, s1, s2, parity, p1, p2, bound=True)


def xi_gl(pcl, lmax, s1, s2, parity=None, p1=0, p2=0, bound=False):
    """As xi_curved for large multipoles: products of two 3j symbols summed
    over one multipole are Gauss-Legendre integrals of three Wigner d.
    bound: size of the terms, which sets the rounding of the integral."""
    lmask = len(pcl)-1
    nq = (2*lmax+lmask)//2+2
    if nq not in _GL:
        _GL.clear()
        _GL[nq] = np.polynomial.legendre.leggauss(nq)+({},)
    x, wq, D = _GL[nq]

    def d(l, m, n):
        if (l, m, n) not in D:
            D[l, m, n] = smalld_table(l, m, n, x)
        return D[l, m, n]
    l1 = np.arange(lmask+1.)
    l2 = np.arange(lmax+1.)
    with np.errstate(all="ignore"):
        q2 = np.where(l2 >= 2, 1/np.sqrt((l2+2)*(l2-1)), 0)
        r2 = np.where(l2 >= 2, 1/np.sqrt((l2+2)*(l2+1)*l2*(l2-1)), 0)
    q1 = 2*np.sqrt(l1*(l1+1))
    r1 = np.sqrt(np.maximum((l1+2)*(l1+1)*l1*(l1-1), 0))

    def terms(s, p):
        t = [((s, -s, 0), 1+0*l1, 1+0*l2)]
        if p and s == 2:
            t += [((1, -2, 1), q1, q2), ((0, -2, 2), r1, r2)]
        return t
    w = np.asarray(pcl)*(2*l1+1)/(4*np.pi)
    out = np.zeros((lmax+1, lmax+1))
    if bound:
        for a, u1, u2 in terms(s1, p1):
            for b, v1, v2 in terms(s2, p2):
                out += (np.abs(w)*u1*v1).sum()*(u2*v2)[:, None]
        return out
    for a, u1, u2 in terms(s1, p1):
        for b, v1, v2 in terms(s2, p2):
            for sg in ((1,) if parity is None else (1, -1)):
                c = [sg*k for k in b]
                F = (w*u1*v1) @ d(lmask, a[2], c[2])
                X = 0.5*(d(lmax, a[0], c[0])*(F*wq)) @ d(lmax, a[1], c[1]).T
                X *= (u2*v2)[:, None]
                if parity is None:
                    out += X
                else:
                    out += 0.5*X*(1 if sg > 0 or parity == 0 else -1)
    return out


def mcm_aniso(lmax, s1, w1, s2, w2):
    """[n, l, n, l'] response of pseudo-spectra to spectra for fields weighted
    by P -> w0 P + wa conj(P). w: (alm of w0, None or E/B alms of the spin-2s
    wa); from the triple integrals of spin-weighted harmonics, products of 3j
    symbols as Gauss-Legendre integrals."""
    lmask = int(round(np.sqrt(2*len(w1[0])+0.25)-1.5))
    nq = (2*lmax+lmask)//2+2
    x, wq = np.polynomial.legendre.leggauss(nq)
    D = {}

    def d(l, m, n):
        if (l, m, n) not in D:
            D[l, m, n] = smalld_table(l, m, n, x)
        return D[l, m, n]

    def terms(s, w):
        # (out sign, in sign, spin of weight, spin of sky, weight as
        #  coefficients of (w0, E, B))
        out = []
        for g in ((1, -1) if s else (0,)):
            out.append((g, g, 0, g*s, {0: 1.}))
            if w[1] is not None:
                out.append((g, -g, 2*g*s, -g*s, {1: -1., 2: -1j*g}))
        return out
    c = {}
    for i, a in enumerate([w1[0]]+list([] if w1[1] is None else w1[1])):
        for j, b in enumerate([w2[0]]+list([] if w2[1] is None else w2[1])):
            c[i, j] = alm2cl(a, b, lmask)
    g1, g2 = ((1, -1) if s else (0,) for s in (s1, s2))
    n1, n2 = len(g1), len(g2)
    M = np.zeros((n1*n2, lmax+1, n1*n2, lmax+1), complex)
    l1, lp = np.arange(lmask+1), np.arange(lmax+1)
    for o, i, n, k, w in terms(s1, w1):
        for p, j, m, q, v in terms(s2, w2):
            W = sum(u*np.conj(z)*c[a, b] for a, u in w.items()
                    for b, z in v.items())*(2*l1+1)/(4*np.pi)
            F = W @ d(lmask, -n, -m)
            S, T = n+k, m+q
            X = (-1)**(S+T)*0.5*(d(lmax, S, T)*(F*wq)) @ d(lmax, -k, -q).T
            M[g1.index(o)*n2+g2.index(p), :, g1.index(i)*n2+g2.index(j)] += \
                X*(2*lp+1)

    def basis(s):
        if not s:
            return np.eye(1)
        return np.array([[-1, -1j], [-(-1)**s, (-1)**s*1j]])
    B = np.kron(basis(s1), np.conj(basis(s2)))
    M = np.einsum('ab,blcm,cd->aldm', np.linalg.inv(B), M, B)
    assert np.max(np.abs(M.imag)) < 1e-10*np.max(np.abs(M.real))
    return M.real


def pair_ncls(s1, s2, teb=False):
    if teb:
        return 7
    return (2 if s1 else 1)*(2 if s2 else 1)


def _ss_block(pcl, lmax, s1, s2, P1, P2, xi_curved=xi_curved):
    """[4, 4, l2, l3] block (EE,EB,BE,BB) <- (EE,EB,BE,BB)."""
    sg = (-1)**(s1+s2)
    B = np.zeros((4, 4, lmax+1, lmax+1))
    for i in range(2):           # output component of field 1
        for j in range(2):       # output component of field 2
            pp = sg*xi_curved(pcl, lmax, s1, s2, 0, P1[i], P2[j])
            mm = sg*xi_curved(pcl, lmax, s1, s2, 1, P1[i], P2[j])
            # a_E -> a_E with K+, a_B with K-; a_B -> a_E with -K-
            B[2*i+j, 2*i+j] += pp
            B[2*i+j, 2*(1-i)+(1-j)] += mm if i == j else -mm
    return B


def toeplitz(X, lt, le, dl):
    """Constant-correlation approximation of a symmetric coefficient matrix:
    exact rows/columns up to le, exact band of width dl up to lt, exact
    diagonal; other elements have the correlation of those at the same
    distance from the diagonal in column lt or, if that column is not long
    enough, in column le. Returns the matrix and where it is exact."""
    n = len(X)
    D = np.abs(np.diagonal(X))
    Y, E = np.array(X), np.ones(X.shape, bool)
    for j in range(n):
        for i in range(j+1, n):
            if j <= le or (j <= lt and i-j <= dl):
                continue
            d = i-j
            c = lt if lt+d < n and d != n-1-lt else le
            den = D[c]*D[c+d]
            v = X[c+d, c]*np.sqrt(D[i]*D[j]/den) if den > 0 else 0.
            Y[i, j] = Y[j, i] = v
            E[i, j] = E[j, i] = False
    return Y, E


def mcm_curved(pcl, lmax, s1, s2, pe1=0, pb1=0, pe2=0, pb2=0, teb=False,
               approx=None, xi='xi_curved'):
    """Mode-coupling matrix in the library's layout (l*ncls+icl)."""
    if approx is None:
        xi_curved = globals()[xi]
    else:
        def xi_curved(*a, **k):
            return approx(globals()[xi](*a, **k))
    n = pair_ncls(s1, s2, teb)
    B = np.zeros((n, n, lmax+1, lmax+1))
    smax = max(s1, s2)
    if teb:
        s = s2
        sg = (-1)**s
        B[0, 0] = xi_curved(pcl, lmax, 0, 0)
        B[1, 1] = sg*xi_curved(pcl, lmax, 0, s, None, 0, pe2)
        B[2, 2] = sg*xi_curved(pcl, lmax, 0, s, None, 0, pb2)
        B[3:, 3:] = _ss_block(pcl, lmax, s, s, (pe2, pb2), (pe2, pb2),
                             xi_curved)
        B[1:, :, :s] = 0
        B[1:, :, :, :s] = 0
    elif n == 1:
        B[0, 0] = xi_curved(pcl, lmax, 0, 0)
    else:
        if n == 2:
            sg = (-1)**smax
            pe, pb = (pe1, pb1) if s1 else (pe2, pb2)
            B[0, 0] = sg*xi_curved(pcl, lmax, 0, smax, None, 0, pe)
            B[1, 1] = sg*xi_curved(pcl, lmax, 0, smax, None, 0, pb)
        else:
            B = _ss_block(pcl, lmax, s1, s2, (pe1, pb1), (pe2, pb2),
                          xi_curved)
        B[:, :, :smax] = 0
        B[:, :, :, :smax] = 0
    B = B*(2*np.arange(lmax+1)+1.)
    return np.transpose(B, (2, 0, 3, 1)).reshape((lmax+1)*n, (lmax+1)*n)


# ------------------------------------------------------ Gaussian covariance
_EPS = {(0, 1): 1j, (1, 0): -1j}


def _leg_pair(n1, n2, i1, j1, i2, j2):
    """Coupling of <(i2)(j2)> of two fields into <(i1)(j1)> of their masked
    versions under the narrow-kernel approximation: (kind, amplitude)."""
    if n1 == 1 or n2 == 1:
        return ('0', 1.) if (i1 == i2 and j1 == j2) else ('z', 0.)
    if i1 == i2 and j1 == j2:
        return 'p', 1.
    if i1 != i2 and j1 != j2:
        return 'z', 0.
    # one parity flip: opposite phases for the two legs
    if i1 != i2:
        return 'm', _EPS[(i1, i2)]
    return 'm', -_EPS[(j1, j2)]


def cov_coupled(xi1122, xi1221, spins, clac, clad, clbc, clbd):
    """[la, ia, ib, lb, ic, id] narrow-kernel covariance.

    xi*: dict with '00', '02', 'pp', 'mm' matrices over (la, lb);
    cl*: [ncomp, nl] spectra of the field pairs."""
    n = [2 if s else 1 for s in spins]
    nl = len(xi1122['00'])
    out = np.zeros((nl, n[0], n[1], nl, n[2], n[3]))

    def xi(X, k1, k2):
        k = k1+k2
        if 'z' in k:
            return None, 0.
        if k == '00':
            return X['00'], 1.
        if k in ('0p', 'p0'):
            return X['02'], 1.
        if k == 'pp':
            return X['pp'], 1.
        if k == 'mm':
            return X['mm'], 1.
        return None, 0.

    def sym(x, y):
        return 0.5*(np.outer(x, y)+np.outer(y, x))
    R = [range(k) for k in n]
    for ia in R[0]:
        for ib in R[1]:
            for ic in R[2]:
                for id_ in R[3]:
                    t = np.zeros((nl, nl))
                    for a in R[0]:
                        for b in R[1]:
                            for c in R[2]:
                                for d in R[3]:
                                    for X, (p, q, r, s), cl1, cl2 in (
                                        (xi1122,
                                         ((0, ia, a), (2, ic, c),
                                          (1, ib, b), (3, id_, d)),
                                         clac[c+n[2]*a], clbd[d+n[3]*b]),
                                        (xi1221,
                                         ((0, ia, a), (3, id_, d),
                                          (1, ib, b), (2, ic, c)),
                                         clad[d+n[3]*a], clbc[c+n[2]*b])):
                                        k1, a1 = _leg_pair(
                                            n[p[0]], n[q[0]], p[1], q[1],
                                            p[2], q[2])
                                        k2, a2 = _leg_pair(
                                            n[r[0]], n[s[0]], r[1], s[1],
                                            r[2], s[2])
                                        x, f = xi(X, k1, k2)
                                        if x is None:
                                            continue
                                        t += (a1*a2).real*x*sym(
                                            cl1[:nl], cl2[:nl])
                    out[:, ia, ib, :, ic, id_] = t
    return out


def xi_set(pcl, lmax, xi='xi_curved'):
    """The four coupling coefficients of the curved covariance."""
    xi_curved = globals()[xi]
    s = {'00': xi_curved(pcl, lmax, 0, 0),
         '02': xi_curved(pcl, lmax, 0, 2),
         'pp': xi_curved(pcl, lmax, 2, 2, 0),
         'mm': xi_curved(pcl, lmax, 2, 2, 1)}
    return s
