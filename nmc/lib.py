"""Small helpers to drive the public API of the library."""
import numpy as np
import pymaster as nmt
from astropy.wcs import WCS
from . import oracle as O


def car_wcs(nth, nph, dec_sign=1, ra_sign=-1, ra0=0., theta0=0., ny=None,
            nx=None, phi_start=0.):
    """Clenshaw-Curtis CAR geometry: nth intervals pole to pole, nph around.

    theta0: index of the first (northernmost) ring, ny rings, nx columns.
    Pixel order on disk follows the signs of the axes.
    """
    dth, dph = 180./nth, 360./nph
    ny = nth+1 if ny is None else ny
    nx = nph if nx is None else nx
    w = WCS(naxis=2)
    w.wcs.ctype = ['RA---CAR', 'DEC--CAR']
    w.wcs.cdelt = [ra_sign*dph, dec_sign*dth]
    w.wcs.crval = [ra0, 0.]
    # declination of the first row on disk
    dec_n = 90.-theta0*dth
    dec_s = dec_n-(ny-1)*dth
    first = dec_n if dec_sign < 0 else dec_s
    # crpix: 1-based pixel where dec == 0
    cy = 1+(0.-first)/(dec_sign*dth)
    # first column (on disk) has RA such that lowest RA is phi_start
    ra_lo, ra_hi = phi_start, phi_start+(nx-1)*dph
    firstx = ra_lo if ra_sign > 0 else ra_hi
    cx = 1+(ra0-firstx)/(ra_sign*dph)
    w.wcs.crpix = [cx, cy]
    return w, (ny, nx)


class CarGrid(object):
    """Full-sky CC grid with exact quadrature (weights computed here)."""
    def __init__(self, nth, nph):
        self.nth, self.nph = nth, nph
        self.wcs, self.shape = car_wcs(nth, nph, dec_sign=-1, ra_sign=1)
        th = np.arange(nth+1)*np.pi/nth
        ph = np.arange(nph)*2*np.pi/nph
        self.theta = np.repeat(th, nph)
        self.phi = np.tile(ph, nth+1)
        self.w = np.repeat(cc_weights(nth)*2*np.pi/nph, nph)

    def sht(self, lmax):
        return O.SHT(self.theta, self.phi, self.w, lmax)


def cc_weights(n):
    """Clenshaw-Curtis weights for integral over cos(theta), n intervals."""
    w = np.zeros(n+1)
    # interpolatory weights at theta_j = j pi / n
    for j in range(n+1):
        c = 1. if j in (0, n) else 2.
        s = 0.
        for k in range(n//2+1):
            b = 1. if (2*k == n or k == 0) else 2.
            s += b*np.cos(2*k*j*np.pi/n)/(1-4.*k*k)
        w[j] = c*s/n
    return w


def real_ylm(l, m, theta, phi):
    """Real harmonics: m=0, m>0 cosine, m<0 sine."""
    y = O.sYlm(0, l, abs(m), theta, phi)
    if m == 0:
        return y.real
    return np.sqrt(2)*(y.real if m > 0 else y.imag)


def one_bin(lmax, l0=None):
    l0 = 2 if l0 is None else l0
    return nmt.NmtBin.from_edges(np.array([min(l0, lmax)]),
                                 np.array([lmax+1]))


def all_bins(lmax):
    """Single-multipole bands from 0 to lmax."""
    e = np.arange(lmax+1)
    return nmt.NmtBin(ells=e, bpws=e, weights=np.ones(lmax+1), lmax=lmax)


class Scheme(object):
    """A curved-sky band scheme together with its definition."""
    def __init__(self, lmax, bpws, ells=None, weights=None, f_ell=None):
        self.lmax = lmax
        self.ells = np.arange(lmax+1) if ells is None else np.asarray(ells)
        self.bpws = np.asarray(bpws)
        n = len(self.ells)
        self.w_in = np.ones(n) if weights is None else np.asarray(weights)
        self.f_in = np.ones(n) if f_ell is None else np.asarray(f_ell)
        self.nb = int(max(self.bpws))+1
        self.bands = []
        for b in range(self.nb):
            ii = [i for i in range(n) if self.bpws[i] == b
                  and self.ells[i] <= lmax]
            tot = sum(self.w_in[i] for i in ii)
            self.bands.append([(int(self.ells[i]), self.w_in[i]/tot,
                                self.f_in[i]) for i in ii])
        self.nmt = nmt.NmtBin(ells=self.ells, bpws=self.bpws,
                              weights=self.w_in.astype(float),
                              f_ell=self.f_in.astype(float), lmax=lmax)

    @property
    def W(self):
        """[nb, lmax+1]: binning operator (with prefactor)."""
        A = np.zeros((self.nb, self.lmax+1))
        for b, ls in enumerate(self.bands):
            for l, w, f in ls:
                A[b, l] += w*f
        return A

    @property
    def U(self):
        """[lmax+1, nb]: unbinning operator (with prefactor)."""
        A = np.zeros((self.lmax+1, self.nb))
        for b, ls in enumerate(self.bands):
            for l, w, f in ls:
                A[l, b] += 1./f
        return A


CONFIGS = {
    # name: (s1, s2, pure1(e,b), pure2(e,b), teb)
    "00": (0, 0, (0, 0), (0, 0), False),
    "02": (0, 2, (0, 0), (0, 0), False),
    "20": (2, 0, (0, 0), (0, 0), False),
    "22": (2, 2, (0, 0), (0, 0), False),
    "11": (1, 1, (0, 0), (0, 0), False),
    "12": (1, 2, (0, 0), (0, 0), False),
    "02B": (0, 2, (0, 0), (0, 1), False),
    "2B2B": (2, 2, (0, 1), (0, 1), False),
    "22B": (2, 2, (0, 0), (0, 1), False),
    "teb": (0, 2, (0, 0), (0, 0), True),
    "teb1": (0, 1, (0, 0), (0, 0), True),
    "tebB": (0, 2, (0, 0), (0, 1), True),
}


def ncls_of(cfg):
    s1, s2, _, _, teb = CONFIGS[cfg]
    return 7 if teb else (2 if s1 else 1)*(2 if s2 else 1)


def smooth_masks(nside, seed, n=2):
    """Positive masks with some zeros, generic."""
    npix = 12*nside**2
    rng = np.random.RandomState(seed)
    out = []
    for i in range(n):
        m = 0.2+rng.rand(npix)
        m[rng.permutation(npix)[:npix//6]] = 0
        out.append(m)
    return out


def cfg_fields(cfg, masks, lmax, maps=None, beams=(None, None), lmax_mask=None,
               same=False, **kw):
    """Fields of one configuration on HEALPix masks (maps None: mask-only)."""
    s1, s2, p1, p2, teb = CONFIGS[cfg]
    maps = maps or (None, None)
    # what a beam holds beyond lmax is irrelevant
    beams = [b if b is None else np.concatenate([b, x]) for b, x in
             zip(beams, ([7., -3.], [0.5]))]
    f1 = nmt.NmtField(masks[0], maps[0], spin=s1, lmax=lmax,
                      lmax_mask=lmax_mask or lmax, beam=beams[0],
                      purify_e=bool(p1[0]), purify_b=bool(p1[1]), **kw)
    if same and s1 == s2 and p1 == p2:
        return f1, f1
    f2 = nmt.NmtField(masks[1], maps[1], spin=s2, lmax=lmax,
                      lmax_mask=lmax_mask or lmax, beam=beams[1],
                      purify_e=bool(p2[0]), purify_b=bool(p2[1]), **kw)
    return f1, f2


def pairmat(A, n):
    """Expand an operator over multipoles to the interleaved layout."""
    return np.kron(A, np.eye(n))


class WspModel(object):
    """What a workspace must do, from its matrix, beams and bins."""
    def __init__(self, M, beam, scheme, n, norm='MASTER', w2=None):
        self.M, self.beam, self.s, self.n = M, beam, scheme, n
        self.norm, self.w2 = norm, w2
        self.lmax = scheme.lmax

    def coupler(self):
        return self.M*np.repeat(self.beam, self.n)[None, :]

    def binned(self):
        W, U = pairmat(self.s.W, self.n), pairmat(self.s.U, self.n)
        if self.norm == 'FKP':
            return self.w2*np.eye(self.n*self.s.nb)
        return W @ self.coupler() @ U

    def cond(self):
        return np.linalg.cond(self.binned())

    def couple(self, cl):
        return (self.coupler() @ cl[:, :self.lmax+1].T.ravel()).reshape(
            -1, self.n).T

    def decoupler(self):
        return np.linalg.inv(self.binned()) @ pairmat(self.s.W, self.n)

    def decouple(self, cl, bias=0., noise=0.):
        d = (cl[:, :self.lmax+1]-bias-noise)
        return (self.decoupler() @ d.T.ravel()).reshape(-1, self.n).T

    def windows(self):
        w = self.decoupler() @ self.coupler()
        return w.reshape(self.s.nb, self.n, self.lmax+1, self.n
                         ).transpose(1, 0, 3, 2)


def to_old_layout(src, dst, norm=True):
    """The earlier layout of curved-sky workspaces: a table per bandpower.

    norm: also drop the normalisation keyword (MASTER).
    """
    from astropy.io import fits
    with fits.open(src) as h:
        out = []
        for x in h:
            if x.name != "BANDPOWERS":
                out.append(x.copy())
                if norm and x.name == "WSP_PRIMARY":
                    del out[-1].header["NORM_TYPE"]
                continue
            t = x.data
            nb = x.header["N_BANDS"]
            rows = [np.where(t["BAND"] == i)[0] for i in range(nb)]
            s = fits.BinTableHDU.from_columns([fits.Column(
                "NELL", "1J", array=np.array([len(r) for r in rows],
                                             dtype=np.int32))],
                name="BINS_SUMMARY")
            s.header["N_BANDS"] = nb
            s.header["ELL_MAX"] = x.header["ELL_MAX"]
            out.append(s)
            for i, r in enumerate(rows):
                out.append(fits.BinTableHDU.from_columns([
                    fits.Column("ELLS", "1J", array=t["ELLS"][r]),
                    fits.Column("WEIGHTS", "1D", array=t["WEIGHTS"][r]),
                    fits.Column("F_ELL", "1D", array=t["F_ELL"][r])],
                    name="BINS_BAND_%d" % (i+1)))
        fits.HDUList(out).writeto(dst, overwrite=True)


def to_dense_layout(src, dst):
    """The layout with one row per multipole (negative: in no bandpower)."""
    from astropy.io import fits
    with fits.open(src) as h:
        t = h["BANDPOWERS"].data
        lm = h["BANDPOWERS"].header["ELL_MAX"]
        if len(set(t["ELLS"])) != len(t):
            return False
        new = {"BAND": np.full(lm+1, -1, dtype=np.int32),
               "ELLS": np.full(lm+1, -1, dtype=np.int32),
               "WEIGHTS": np.zeros(lm+1), "F_ELL": np.zeros(lm+1)}
        for k in new:
            new[k][t["ELLS"]] = t[k]
        x = fits.BinTableHDU.from_columns(
            [fits.Column(k, "1J" if k in ("BAND", "ELLS") else "1D",
                         array=new[k]) for k in new],
            header=h["BANDPOWERS"].header, name="BANDPOWERS")
        h["BANDPOWERS"] = x
        h.writeto(dst, overwrite=True)
    return True
