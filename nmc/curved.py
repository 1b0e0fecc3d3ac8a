"""Explicit curved-sky reference: dense harmonic transforms on a pixelisation,
masking, purification and deprojection as defined."""
import numpy as np
from . import oracle as O


class Sky(object):
    def __init__(self, theta, phi, w, lmax, lmax_mask=None):
        self.lmax = lmax
        self.lm = lmax if lmax_mask is None else lmax_mask
        self.big = O.SHT(theta, phi, w, max(self.lmax, self.lm))
        self.w = self.big.w
        self.npix = len(self.big.theta)
        self._m = {}

    @classmethod
    def healpix(cls, nside, lmax, lmax_mask=None):
        import healpy as hp
        th, ph = hp.pix2ang(nside, np.arange(12*nside**2))
        return cls(th, ph, 4*np.pi/len(th), lmax, lmax_mask)

    def l_of(self, lmax):
        return np.array([l for l, m in O.alm_index(lmax)])

    def _sht(self, lmax):
        for q in range(-3, 4):
            self.big.Y(q)
        s = object.__new__(O.SHT)
        s.__dict__.update(self.big.__dict__)
        s.lmax, s.lm = lmax, O.alm_index(lmax)
        return s

    def _mats(self, s, lmax):
        """Real-linear analysis and synthesis matrices.

        analysis: complex [nc*nlm, nc*npix]; synthesis: given complex alms,
        real part of S @ alms."""
        k = (s, lmax)
        if k not in self._m:
            h = self._sht(lmax)
            A = h.anal_matrix(s)
            nl = len(h.lm)
            nc = 2 if s else 1
            # synthesis is the adjoint of analysis up to weights: maps =
            # Re(conj(A/w)^T * alm * mult) with mult 1 (m=0) or 2
            mult = np.array([1. if m == 0 else 2. for l, m in h.lm])
            W = np.tile(self.w, nc)
            S = (A/W[None, :]).conj().T*np.tile(mult, nc)[None, :]
            self._m[k] = (A, S, nl, nc)
        return self._m[k]

    def m2a(self, maps, s, lmax=None, n_iter=0):
        A, S, nl, nc = self._mats(s, self.lmax if lmax is None else lmax)
        v = np.asarray(maps).reshape(nc*self.npix)
        a = A @ v
        for _ in range(n_iter):
            a = a-A @ ((S @ a).real-v)
        return a.reshape(nc, nl)

    def a2m(self, alm, s, lmax=None):
        A, S, nl, nc = self._mats(s, self.lmax if lmax is None else lmax)
        return (S @ np.asarray(alm).ravel()).real.reshape(nc, self.npix)

    def cl(self, a, b):
        """[na*nb, lmax+1] pseudo-spectra"""
        return np.array([O.alm2cl(x, y, self.lmax) for x in a for y in b])

    def pure(self, mask, maps, task, n_iter=0, n_iter_mask=0, alm_mask=None):
        """Spin-2 maps (unmasked) -> coefficients; task=(pure E, pure B).

        a^X_lm = int P* [mask-derivative weighted harmonics]: the mask enters
        as spin-0, spin-1 (eth W) and spin-2 (eth eth W) windows."""
        alm = self.m2a(maps*mask, 2, n_iter=n_iter)
        if not any(task):
            return alm
        if alm_mask is None:
            alm_mask = self.m2a(mask[None], 0, self.lm, n_iter_mask)[0]
        l = self.l_of(self.lm)
        w1 = self.a2m([-np.sqrt(l*(l+1.))*alm_mask, 0*alm_mask], 1, self.lm)
        n2 = np.sqrt(np.maximum((l+2.)*(l+1)*l*(l-1.), 0))
        w2 = self.a2m([n2*alm_mask, 0*alm_mask], 2, self.lm)
        rot = lambda w: np.array([w[0]*maps[0]+w[1]*maps[1],
                                  w[0]*maps[1]-w[1]*maps[0]])
        p1 = self.m2a(rot(w1), 1, n_iter=n_iter)
        m0 = rot(w2)
        p0 = np.array([self.m2a(m[None], 0, n_iter=n_iter)[0] for m in m0])
        l = self.l_of(self.lmax)
        ok = l >= 2
        ll = np.where(ok, l, 2)
        f1 = np.where(ok, 2/np.sqrt((ll+2.)*(ll-1)), 0)
        f0 = np.where(ok, 1/np.sqrt((ll+2.)*(ll+1)*ll*(ll-1)), 0)
        for i in range(2):
            if task[i]:
                alm[i] = alm[i]+f1*p1[i]+f0*p0[i]
        return alm

    def dot(self, a, b):
        return np.sum(np.asarray(a)*np.asarray(b)*self.w[None, :])


class HpSky(Sky):
    """The same at resolutions where matrices do not fit, through healpy."""
    def __init__(self, nside, lmax, lmax_mask=None):
        self.nside = nside
        self.lmax = lmax
        self.lm = lmax if lmax_mask is None else lmax_mask
        self.npix = 12*nside**2
        self.w = np.full(self.npix, 4*np.pi/self.npix)

    def l_of(self, lmax):
        import healpy as hp
        return hp.Alm.getlm(lmax)[0]

    def _m2a(self, v, s, lmax):
        import healpy as hp
        if s == 0:
            return hp.map2alm(v[0], lmax=lmax, iter=0)[None]
        return np.array(hp.map2alm_spin(v, s, lmax=lmax))

    def m2a(self, maps, s, lmax=None, n_iter=0):
        lmax = self.lmax if lmax is None else lmax
        v = np.array(maps, float).reshape(-1, self.npix)
        a = self._m2a(v, s, lmax)
        for _ in range(n_iter):
            a = a-self._m2a(self.a2m(a, s, lmax)-v, s, lmax)
        return a

    def a2m(self, alm, s, lmax=None):
        import healpy as hp
        lmax = self.lmax if lmax is None else lmax
        a = [np.array(x, complex) for x in alm]
        if s == 0:
            return hp.alm2map(a[0], self.nside, lmax=lmax)[None]
        return np.array(hp.alm2map_spin(a, self.nside, s, lmax))


class RingSky(Sky):
    """The same on equidistant rings of nph pixels, through one FFT per ring
    and the Wigner d recursion in l."""
    def __init__(self, theta, phi0, nph, w, lmax):
        self.theta, self.phi0, self.nph = np.asarray(theta), phi0, nph
        self.x = np.cos(self.theta)
        self.wr = np.asarray(w)
        self.lmax = self.lm = lmax
        self.npix = len(theta)*nph
        self.w = np.repeat(self.wr, nph)
        self._d = {}

    def l_of(self, lmax):
        return np.array([l for l, m in O.alm_index(lmax)])

    def d(self, lmax, m, n):
        """(-1)^n sqrt((2l+1)/4pi) d^l_{m,-n}: [l, ring]"""
        k = (lmax, m, n)
        if k not in self._d:
            if len(self._d)*lmax*len(self.x) > 4e7:
                self._d.clear()
            self._d[k] = (-1)**n*O.smalld_table(lmax, m, -n, self.x)*np.sqrt(
                (2*np.arange(lmax+1)+1)/(4*np.pi))[:, None]
        return self._d[k]

    def _m2a(self, v, s, lmax):
        v = v.reshape(-1, len(self.x), self.nph)
        f = v[0] if s == 0 else v[0]+1j*v[1]
        Fp = np.fft.fft(f, axis=1)*self.wr[:, None]
        Fm = np.fft.fft(np.conj(f), axis=1)*self.wr[:, None]
        a = np.zeros((len(v), (lmax+1)*(lmax+2)//2), complex)
        i = 0
        for m in range(lmax+1):
            ph = np.exp(-1j*m*self.phi0)
            n = lmax+1-m
            ap = (self.d(lmax, m, s) @ Fp[:, m % self.nph])[m:]*ph
            if s == 0:
                a[0, i:i+n] = ap
            else:
                am = (-1)**s*(self.d(lmax, m, -s) @ Fm[:, m % self.nph])[
                    m:]*ph
                a[0, i:i+n] = -(ap+am)/2
                a[1, i:i+n] = -(ap-am)/2j
            i += n
        return a

    def m2a(self, maps, s, lmax=None, n_iter=0):
        lmax = self.lmax if lmax is None else lmax
        v = np.array(maps, float).reshape(-1, self.npix)
        a = self._m2a(v, s, lmax)
        for _ in range(n_iter):
            a = a-self._m2a(self.a2m(a, s, lmax)-v, s, lmax)
        return a

    def a2m(self, alm, s, lmax=None):
        lmax = self.lmax if lmax is None else lmax
        H = np.zeros((len(self.x), self.nph), complex)
        e = np.array(alm[0], complex)
        b = np.array(alm[1], complex) if s else 0*e
        e[:lmax+1], b[:lmax+1] = e[:lmax+1].real, b[:lmax+1].real
        i = 0
        for m in range(lmax+1):
            n = lmax+1-m
            E, B = e[i:i+n], b[i:i+n]
            i += n
            ph = np.exp(1j*m*self.phi0)
            H[:, m % self.nph] += ((E+1j*B) @ self.d(lmax, m, s)[m:])*ph
            if m:
                # d_{-m,-s} = (-1)^(s-m) d_{m,s}
                H[:, -m % self.nph] += (-1)**s*np.conj(ph)*(
                    (np.conj(E)+1j*np.conj(B)) @ self.d(lmax, m, -s)[m:])
        f = np.fft.ifft(H, axis=1)*self.nph
        if s == 0:
            return f.real.reshape(1, -1)
        return -np.array([f.real, f.imag]).reshape(2, -1)


class PointSky(RingSky):
    """Analysis of isolated points, each with its own azimuth."""
    def __init__(self, theta, phi, lmax):
        RingSky.__init__(self, theta, 0., 1, np.ones(len(theta)), lmax)
        self.phi = np.asarray(phi)

    def _m2a(self, v, s, lmax):
        f = v[0] if s == 0 else v[0]+1j*v[1]
        a = np.zeros((len(v), (lmax+1)*(lmax+2)//2), complex)
        i = 0
        for m in range(lmax+1):
            n, ph = lmax+1-m, np.exp(-1j*m*self.phi)
            ap = (self.d(lmax, m, s) @ (f*ph))[m:]
            if s == 0:
                a[0, i:i+n] = ap
            else:
                am = (-1)**s*(self.d(lmax, m, -s) @ (np.conj(f)*ph))[m:]
                a[0, i:i+n] = -(ap+am)/2
                a[1, i:i+n] = -(ap-am)/2j
            i += n
        return a
