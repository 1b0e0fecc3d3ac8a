"""Independent flat-sky reference: explicit Fourier sums on the pixel grid."""
import numpy as np


class Grid(object):
    """Fourier modes of an nx x ny patch; arrays have shape [ny, nx]."""
    def __init__(self, nx, ny, lx, ly):
        self.nx, self.ny, self.lx, self.ly = nx, ny, lx, ly
        ix, iy = np.arange(nx), np.arange(ny)
        sx = np.where(2*ix <= nx, ix, ix-nx)
        sy = np.where(2*iy <= ny, iy, iy-ny)
        self.kx = np.tile(sx*2*np.pi/lx, (ny, 1))
        self.ky = np.tile((sy*2*np.pi/ly)[:, None], (1, nx))
        self.k = np.sqrt(self.kx**2+self.ky**2)
        self.dell = min(2*np.pi/lx, 2*np.pi/ly)
        kmax = np.sqrt((2*np.pi/lx*(nx//2))**2+(2*np.pi/ly*(ny//2))**2)
        n = 0
        while (n+1)*self.dell <= kmax:
            n += 1
        self.n_ell = n
        r = (self.k/self.dell).astype(int)
        self.ring = np.where(r < n, r, -1)
        self.pix = lx*ly/(nx*ny)
        # Fourier matrix [mode, pixel]
        x, y = np.meshgrid(np.arange(nx), np.arange(ny))
        ph = (np.outer(ix, np.arange(nx))*2*np.pi/nx)
        Ex = np.exp(-1j*ph)                       # [kx, x]
        Ey = np.exp(-1j*np.outer(iy, np.arange(ny))*2*np.pi/ny)
        self.Ex, self.Ey = Ex, Ey
        self.norm = lx*ly/(2*np.pi*nx*ny)
        self.nyq = ((2*ix == nx)[None, :] | (2*iy == ny)[:, None])
        self.half = np.tile(2*ix <= nx, (ny, 1))

    def ft(self, m):
        """Explicit transform of maps [..., ny, nx]."""
        return self.norm*np.einsum('ay,...yx,bx->...ab', self.Ey,
                                   np.asarray(m), self.Ex)

    def ift(self, a):
        """Inverse (complex result)."""
        return (1./(self.norm*self.nx*self.ny))*np.einsum(
            'ay,...ab,bx->...yx', self.Ey.conj(), np.asarray(a),
            self.Ex.conj())

    def phi(self):
        c = np.where(self.k > 0, self.kx/np.where(self.k > 0, self.k, 1), 1.)
        s = np.where(self.k > 0, self.ky/np.where(self.k > 0, self.k, 1), 0.)
        return np.arctan2(s, c)

    def conj_extend(self, a):
        """Fill the modes with kx<0 from the conjugates of the others."""
        a = np.array(a)
        jx = (-np.arange(self.nx)) % self.nx
        jy = (-np.arange(self.ny)) % self.ny
        ref = a[..., jy, :][..., jx].conj()
        return np.where(self.half, a, ref)

    def rot(self, q, s):
        """[2, ny, nx] Q/U coefficients -> E/B (s=0: unchanged)."""
        if s == 0:
            return q
        sig = -(1j**s)
        c, d = np.cos(s*self.phi()), np.sin(s*self.phi())
        return np.array([sig*(q[0]*c-q[1]*d), sig*(q[0]*d+q[1]*c)])

    def unrot(self, e, s):
        if s == 0:
            return e
        sig = -((-1j)**s)
        c, d = np.cos(s*self.phi()), np.sin(s*self.phi())
        return np.array([sig*(e[0]*c+e[1]*d), sig*(-e[0]*d+e[1]*c)])

    def anal(self, maps, s):
        """Maps [nmaps, ny, nx] -> full-plane E/B (or T) coefficients."""
        return self.conj_extend(self.rot(self.ft(maps), s))

    def bands(self, l0, lf):
        """Band index of every mode (-1: none); half-open intervals."""
        b = -np.ones((self.ny, self.nx), int)
        for i, (a, z) in enumerate(zip(l0, lf)):
            b[(self.k >= a) & (self.k < z)] = i
        return b

    def cut(self, cx, cy):
        """Modes removed by the ell_x/ell_y ranges."""
        return (((self.kx >= cx[0]) & (self.kx <= cx[1])) |
                ((self.ky >= cy[0]) & (self.ky <= cy[1])))

    def pcl(self, a, b, l0, lf, cx=(1, -1), cy=(1, -1)):
        """Band-averaged products of coefficients [na], [nb] -> [na*nb, nb]"""
        ib = np.where(self.cut(cx, cy), -1, self.bands(l0, lf))
        out = np.zeros((len(a)*len(b), len(l0)))
        for i in range(len(a)):
            for j in range(len(b)):
                p = (a[i]*b[j].conj()).real
                for z in range(len(l0)):
                    m = ib == z
                    if m.any():
                        out[i*len(b)+j, z] = p[m].sum()/m.sum()
        return out*4*np.pi**2/(self.lx*self.ly)

    def mask_power(self, m1, m2):
        return (self.ft(m1)*self.ft(m2).conj()).real

    def mcm(self, m1, m2, s1, s2, l0, lf, cx=(1, -1), cy=(1, -1), pure1=(0, 0),
            pure2=(0, 0), teb=False, beam=None):
        """Explicit double sum over modes.

        Returns M[nb, n, ny*nx(mode), n]: contribution of the spectra at each
        Fourier mode to each band (with beam product beam(k))."""
        P = self.mask_power(m1, m2)
        n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
        N = self.nx*self.ny
        iy, ix = np.divmod(np.arange(N), self.nx)
        dy = (iy[:, None]-iy[None, :]) % self.ny
        dx = (ix[:, None]-ix[None, :]) % self.nx
        mp = P[dy, dx]
        if beam is not None:
            mp = mp*beam(self.k.ravel())[None, :]
        ib = np.where(self.cut(cx, cy), -1, self.bands(l0, lf)).ravel()
        k, phi = self.k.ravel(), self.phi().ravel()
        kr = np.zeros((N, N))
        ok = k > 0
        kr[ok] = (k[None, :]/k[ok][:, None])**2
        kr[0, 0] = 1

        def leg(s, pure):
            """[out comp, in comp, k1, k2] rotation of one field"""
            if s == 0:
                return np.ones((1, 1, N, N))
            d = s*(phi[:, None]-phi[None, :])
            R = np.zeros((2, 2, N, N))
            for o in range(2):
                if pure[o]:
                    R[o, o] = kr
                else:
                    R[o, o] = np.cos(d)
                    R[o, 1-o] = -np.sin(d) if o == 0 else np.sin(d)
            return R

        def block(A, B):
            M = np.einsum('acxy,bdxy,xy->xabycd', A, B, mp)
            M = M.reshape(N, A.shape[0]*B.shape[0], N, -1)
            return self.bandavg(M, ib, len(l0))
        if not teb:
            return block(leg(s1, pure1), leg(s2, pure2))
        out = np.zeros((len(l0), 7, N, 7))
        T, E = leg(0, (0, 0)), leg(s2, pure2)
        out[:, :1, :, :1] = block(T, T)
        out[:, 1:3, :, 1:3] = block(T, E)
        out[:, 3:, :, 3:] = block(E, E)
        return out

    def mcm_big(self, m1, m2, s1, s2, l0, lf, cx=(1, -1), cy=(1, -1),
                pure1=(0, 0), pure2=(0, 0), beam=None):
        """As mcm, accumulated row by row (two fields only)."""
        P = self.mask_power(m1, m2)
        N = self.nx*self.ny
        iy, ix = np.divmod(np.arange(N), self.nx)
        bm = np.ones(N) if beam is None else beam(self.k.ravel())
        ib = np.where(self.cut(cx, cy), -1, self.bands(l0, lf)).ravel()
        k, phi = self.k.ravel(), self.phi().ravel()
        n1, n2 = (2 if s1 else 1), (2 if s2 else 1)

        def leg(i, s, pure):
            if s == 0:
                return np.ones((1, 1, N))
            c, d = np.cos(s*(phi[i]-phi)), np.sin(s*(phi[i]-phi))
            R = np.array([[c, -d], [d, c]])
            if k[i] > 0:
                kr = (k/k[i])**2
            else:
                kr = (np.arange(N) == 0)*1.
            for o in range(2):
                if pure[o]:
                    R[o] = 0
                    R[o, o] = kr
            return R
        out = np.zeros((len(l0), n1*n2, N, n1*n2))
        for b in range(len(l0)):
            rows = np.where(ib == b)[0]
            for i in rows:
                mp = bm*P[(iy[i]-iy) % self.ny, (ix[i]-ix) % self.nx]
                out[b] += np.einsum(
                    'acy,bdy,y->abycd', leg(i, s1, pure1),
                    leg(i, s2, pure2), mp).reshape(n1*n2, N, n1*n2)
            out[b] /= max(len(rows), 1)
        return out*4*np.pi**2/(self.lx*self.ly)**2

    def bandavg(self, M, ib, nb):
        out = np.zeros((nb,)+M.shape[1:])
        for b in range(nb):
            m = ib == b
            if m.any():
                out[b] = M[m].sum(axis=0)/m.sum()
        return out*4*np.pi**2/(self.lx*self.ly)**2

    def to_rings(self, M):
        out = np.zeros(M.shape[:2]+(self.n_ell, M.shape[3]))
        r = self.ring.ravel()
        for i in range(self.n_ell):
            out[:, :, i] = M[:, :, r == i].sum(axis=2)
        return out

    def to_bands(self, M, l0, lf):
        b = self.bands(l0, lf).ravel()
        out = np.zeros(M.shape[:2]+(len(l0), M.shape[3]))
        for i in range(len(l0)):
            out[:, :, i] = M[:, :, b == i].sum(axis=2)
        return out

    # ------------------------------------------------------- purification
    def synth(self, e, s):
        """Coefficients -> maps (real)."""
        return self.ift(self.conj_extend(self.unrot(np.asarray(e), s))).real

    def pure(self, W, maps, pe, pb):
        """Spin-2 maps (not multiplied by W) -> coefficients, of which E (B)
        are -(1/k^2) int P dd(W e^{-ikx}) if pe (pb), d = d_x + i d_y."""
        out = self.anal(W*maps, 2)
        if not (pe or pb):
            return out
        w = self.ft(W)
        D = lambda f: self.ift(self.conj_extend(f*w)).real
        kx, ky = self.kx, self.ky
        d1 = D(1j*kx)+1j*D(1j*ky)
        d2 = D(ky**2-kx**2)-2j*D(kx*ky)
        P = maps[0]+1j*maps[1]
        k2 = np.where(self.k > 0, self.k**2, 1.)
        kc = kx+1j*ky

        def extra(p, a, b, kc):
            x = -(2*(-1j*kc)*self.ft(p*a)+self.ft(p*b))/k2
            return np.where(self.k > 0, x, 0)
        pl = extra(P, d1, d2, kc)
        mi = extra(P.conj(), d1.conj(), d2.conj(), kc.conj())
        ex = self.conj_extend(np.array([(pl+mi)/2, (pl-mi)/2j]))
        if pe:
            out[0] += ex[0]
        if pb:
            out[1] += ex[1]
        return out

    def matrix(self, f, n):
        """Matrix of a linear map-domain function on n maps, columns =
        unit impulses; rows flattened."""
        cols = []
        for c in range(n):
            for p in range(self.nx*self.ny):
                a = np.zeros((n, self.nx*self.ny))
                a[c, p] = 1
                cols.append(np.ravel(f(a.reshape(n, self.ny, self.nx))))
        return np.array(cols).T

    def cov_op(self, C, s1, s2):
        """[n1*N, n2*N] covariance of two fields with spectra C[n1, n2, ny,
        nx] (times nothing: <a(x) b(y)>)."""
        n2 = 2 if s2 else 1

        def f(maps):
            b = self.anal(maps, s2)
            a = np.einsum('ijyx,jyx->iyx', C, b)
            return self.synth(a, s1)
        return self.matrix(f, n2)/self.pix
