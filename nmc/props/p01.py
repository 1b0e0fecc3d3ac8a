"""P01: curved-sky mode-coupling matrices."""
import itertools
import numpy as np

LEVEL = "exploration"
RULE = ("Every combination within the bound of (spin pair or TEB, E/B "
        "purification flags, lmax, mask lmax) with, as mask pair, every "
        "single harmonic of both masks (m=0: the auto-spectrum is a unit "
        "impulse at that multipole; the matrix is linear in the mask "
        "spectrum, so impulses span all masks) plus unequal generic masks; "
        "the whole stored matrix is compared with the explicit Wigner-3j "
        "sum.  End-to-end cases send every unit-impulse sky harmonic "
        "(component, l, m, real/imag) through field construction on an "
        "exact-quadrature grid and compare the summed pseudo-spectra with "
        "the matrix column. big: band limits up to 767 and unequal mask band "
        "limits, every spin pair and flags, every element against the "
        "Gauss-Legendre form of the sum. Non-trivial: matrix has a non-zero "
        "element.")
ASSUMES = ["at lmax > 100 the oracle is the Gauss-Legendre integral of "
           "Wigner d functions (equal to the exact 3j sums at small lmax)",
           "the 3j oracle (exact rational Racah sum) and dense spin-weighted "
           "harmonics are the definition"]
MIN_EVAL = 500

SPINS_Q = [(0, 0), (0, 2), (2, 0), (2, 2), (0, 1), (1, 1), (1, 2), (2, 1),
           (0, 3), (3, 2), (2, 4), (3, 3), (1, 0)]
NOPURE = (0, 0, 0, 0)


def configs(tier):
    for s1, s2 in (SPINS_Q if tier == "quick" else
                   [(a, b) for a in range(6) for b in range(6)]):
        yield s1, s2, False, NOPURE
    for s in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
        yield 0, s, True, NOPURE
    for f in itertools.product((0, 1), repeat=4):
        if any(f):
            yield 2, 2, False, f
    for a, b in ((0, 1), (1, 0), (1, 1)):
        yield 0, 2, False, (0, 0, a, b)
        yield 2, 0, False, (a, b, 0, 0)
        yield 0, 2, True, (0, 0, a, b)
    if tier != "quick":
        for a, b in ((0, 1), (1, 0), (1, 1)):
            for s in (1, 3):
                yield 2, s, False, (a, b, 0, 0)
                yield s, 2, False, (0, 0, a, b)


def cases(tier, seed):
    sizes = [(2, 4, 4), (4, 7, 9), (4, 6, 3), (2, 5, 5)]
    if tier != "quick":
        sizes = [(2, l, k) for l in range(1, 7) for k in (1, 2, 3, 5)] + \
            [(4, 11, 11), (4, 9, 12), (4, 12, 6), (8, 23, 23), (8, 20, 25)]
    for nside, lmax, lmask in sizes:
        for s1, s2, teb, pure in configs(tier):
            if max(s1, s2) > lmax:
                continue
            if nside == 8 and (s1, s2) not in SPINS_Q and not teb:
                continue
            if nside == 8 and any(pure) and pure not in (
                    (0, 1, 0, 1), (1, 0, 0, 1), (1, 1, 1, 1), (0, 0, 0, 1)):
                continue
            yield dict(t="mcm", nside=nside, lmax=lmax, lmask=lmask,
                       s1=s1, s2=s2, teb=teb, pure=list(pure))
    # larger multipoles: recursion accuracy
    for s1, s2 in ((0, 0), (0, 2), (2, 2)):
        yield dict(t="mcm", nside=16, lmax=40 if tier == "quick" else 47,
                   lmask=40 if tier == "quick" else 47, s1=s1, s2=s2,
                   teb=False, pure=[0]*4, sparse=1)
    if tier != "quick":
        yield dict(t="mcm", nside=16, lmax=40, lmask=47, s1=2, s2=2,
                   teb=False, pure=[0, 1, 0, 1], sparse=1)
    # multipoles of real analyses (whole matrix, by Gauss-Legendre sums)
    big = [(64, 150, 180), (64, 140, 100)] if tier == "quick" else \
        [(64, 150, 180), (64, 140, 100), (128, 383, 250), (256, 600, 767),
         (256, 767, 500)]
    for nside, lmax, lmask in big:
        for s1, s2, teb, pure in (
                (0, 0, False, NOPURE), (0, 2, False, NOPURE),
                (2, 2, False, NOPURE), (1, 3, False, NOPURE),
                (2, 2, False, (0, 1, 0, 1)), (2, 2, False, (1, 1, 0, 1)),
                (0, 2, True, (0, 0, 0, 1)), (0, 1, True, NOPURE),
                (0, 5, False, NOPURE), (4, 7, False, NOPURE),
                (6, 6, False, NOPURE), (9, 2, False, (0, 0, 0, 1)),
                (0, 6, True, NOPURE), (2, 5, False, (1, 1, 0, 0)),
                (2, 0, False, (1, 0, 0, 0))):
            yield dict(t="big", nside=nside, lmax=lmax, lmask=lmask, s1=s1,
                       s2=s2, teb=teb, pure=list(pure))
    # end to end
    e2e = [(0, 0, NOPURE), (0, 2, NOPURE), (2, 2, NOPURE), (1, 1, NOPURE),
           (0, 3, NOPURE), (2, 0, NOPURE), (2, 1, NOPURE),
           (2, 2, (0, 1, 0, 1)), (2, 2, (1, 0, 1, 0)), (2, 2, (1, 1, 1, 1)),
           (0, 2, (0, 0, 1, 1)), (2, 2, (0, 1, 0, 0)), (2, 2, (1, 0, 0, 1))]
    dims = [(5, 6), (5, 4)] if tier == "quick" else [(5, 6), (6, 4), (6, 8),
                                                     (3, 7)]
    for lmax, lmask in dims:
        for s1, s2, pure in e2e:
            yield dict(t="e2e", lmax=lmax, lmask=lmask, s1=s1, s2=s2,
                       pure=list(pure))
        yield dict(t="e2eteb", lmax=lmax, lmask=lmask, s=2, pure=[0, 0])
        yield dict(t="e2eteb", lmax=lmax, lmask=lmask, s=2, pure=[0, 1])
        yield dict(t="e2eteb", lmax=lmax, lmask=lmask, s=1, pure=[0, 0])


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def run_mcm(case, ctx):
    import pymaster as nmt
    import healpy as hp
    from nmc import oracle as O, lib as L
    nside, lmax, lmask = case["nside"], case["lmax"], case["lmask"]
    s1, s2, teb = case["s1"], case["s2"], case["teb"]
    pe1, pb1, pe2, pb2 = case["pure"]
    npix = 12*nside**2
    th, ph = hp.pix2ang(nside, np.arange(npix))
    rng = np.random.RandomState(1000+ctx.seed)
    masks = []
    ls = range(lmask+1)
    if case.get("sparse"):
        ls = (0, 1, lmask//2, lmask)
    if lmask > 15 and not case.get("sparse"):
        ls = range(0, lmask+1, 3)
    for l1 in ls:
        y = L.real_ylm(l1, 0, th, ph) if l1 < 30 else hp.alm2map(
            _unit(l1, lmask), nside, lmax=lmask)
        masks.append((y, y, "Y%d0" % l1))
    g1 = rng.rand(npix)
    g2 = rng.rand(npix)
    masks.append((g1, g1, "generic"))
    masks.append((g1, g2-0.3, "generic-pair"))
    b = L.one_bin(lmax, max(2, s1, s2))
    for m1, m2, name in masks:
        f1 = nmt.NmtField(m1, None, spin=s1, lmax=lmax, lmax_mask=lmask,
                          purify_e=bool(pe1), purify_b=bool(pb1))
        f2 = f1
        if (m2 is not m1) or s1 != s2 or (pe1, pb1) != (pe2, pb2):
            f2 = nmt.NmtField(m2, None, spin=s2, lmax=lmax, lmax_mask=lmask,
                              purify_e=bool(pe2), purify_b=bool(pb2))
        w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb)
        M = w.get_coupling_matrix()
        a1, a2 = f1.get_mask_alms(), f2.get_mask_alms()
        pcl = O.alm2cl(a1, a2, lmask)
        W = O.mcm_curved(pcl, lmax, s1, s2, pe1, pb1, pe2, pb2, teb)
        ctx.evaluated(name, M, nontrivial=np.any(W != 0))
        ctx.close("mcm", M, W, rtol=1e-9, scale=_scale(W, pcl),
                  detail="mask %s" % name)
    ctx.sample(dict(case, mask=name, mcm00=M[-1].tolist()[:8]))


def big_masks(nside, lmask, seed):
    """Survey-like, white-noise and single-multipole mask pairs."""
    import healpy as hp
    npix = 12*nside**2
    rng = np.random.RandomState(1100+seed)
    z, ph = np.cos(hp.pix2ang(nside, np.arange(npix))[0]), \
        hp.pix2ang(nside, np.arange(npix))[1]
    cut = ((np.cos(3*ph)+z > 0.2)*(1+0.3*rng.rand(npix)))
    yield "cut", cut, np.exp(-z)*(np.abs(z) > 0.1)
    yield "noise", rng.rand(npix)-0.4, None
    for l1 in (lmask, lmask-1, 2):
        yield "Y%d0" % l1, hp.alm2map(_unit(l1, lmask), nside,
                                      lmax=lmask), None


def run_big(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    nside, lmax, lmask = case["nside"], case["lmax"], case["lmask"]
    s1, s2, teb = case["s1"], case["s2"], case["teb"]
    pe1, pb1, pe2, pb2 = case["pure"]
    b = L.one_bin(lmax, max(2, s1, s2))
    for name, m1, m2 in big_masks(nside, lmask, ctx.seed):
        kw = dict(lmax=lmax, lmax_mask=lmask, n_iter_mask=0)
        f1 = nmt.NmtField(m1, None, spin=s1, purify_e=bool(pe1),
                          purify_b=bool(pb1), **kw)
        f2 = nmt.NmtField(m1 if m2 is None else m2, None, spin=s2,
                          purify_e=bool(pe2), purify_b=bool(pb2), **kw)
        M = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb
                                         ).get_coupling_matrix()
        pcl = O.alm2cl(f1.get_mask_alms(), f2.get_mask_alms(), lmask)
        W = O.mcm_curved(pcl, lmax, s1, s2, pe1, pb1, pe2, pb2, teb,
                         xi="xi_gl")
        E = np.abs(O.mcm_curved(pcl, lmax, s1, s2, pe1, pb1, pe2, pb2, teb,
                                xi="gl_bound"))
        ctx.evaluated(name, M[::17, ::13], nontrivial=np.any(W != 0))
        ctx.add("elements", M.size)
        # rounding of the integral is relative to the size of its terms
        tol = 1e-12*E+1e-12*np.abs(W)+1e-14*_scale(W, pcl)
        ctx.close("big", (M-W)/tol, 0*M, atol=1.,
                  detail="mask %s (difference over tolerance)" % name)


def _scale(W, pcl):
    return max(np.max(np.abs(W)), 0.01*np.max(np.abs(pcl)), 1e-300)


def _unit(l, lmax):
    import healpy as hp
    a = np.zeros(hp.Alm.getsize(lmax), complex)
    a[hp.Alm.getidx(lmax, l, 0)] = 1
    return a


def _grid_masks(lmask, seed):
    """Band-limited masks on an exact-quadrature grid."""
    from nmc import lib as L
    rng = np.random.RandomState(seed)
    return rng


def sky_basis(lmax, ncomp, smin):
    for c in range(ncomp):
        for l in range(lmax+1):
            for m in range(l+1):
                for part in ((1.0,) if m == 0 else (1.0, 1j)):
                    yield c, l, m, part


def e2e_response(ctx, case, s1, s2, pure, grid, lmax, lmask, mk1, mk2,
                 extra1=None, extra2=None):
    """Sum over the sky's m of the pseudo-spectra of unit-power skies."""
    import pymaster as nmt
    from nmc import oracle as O
    S = grid.sht(lmax)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    idx = O.alm_index(lmax)
    pe1, pb1, pe2, pb2 = pure

    def field(mk, s, c, l, m, part, pe, pb, extra):
        alm = np.zeros((2 if s else 1, len(idx)), complex)
        # unit variance: <|a_lm|^2>=1; real and imaginary parts carry 1/2
        alm[c, idx.index((l, m))] = part*(1.0 if m == 0 else np.sqrt(0.5))
        mp = S.synth(alm, s).reshape((-1,)+grid.shape)
        return nmt.NmtField(mk, mp, spin=s, wcs=grid.wcs, lmax=lmax,
                            lmax_mask=lmask, n_iter=0, n_iter_mask=0,
                            purify_e=bool(pe), purify_b=bool(pb),
                            **(extra or {}))
    R = np.zeros((n1*n2, lmax+1, n1*n2, lmax+1))
    cache1, cache2 = {}, {}
    for l in range(lmax+1):
        for m in range(l+1):
            for part in ((1.0,) if m == 0 else (1.0, 1j)):
                F1 = [field(mk1, s1, c, l, m, part, pe1, pb1, extra1)
                      for c in range(n1)] if l >= s1 else None
                F2 = [field(mk2, s2, c, l, m, part, pe2, pb2, extra2)
                      for c in range(n2)] if l >= s2 else None
                if F1 is None or F2 is None:
                    continue
                for c1 in range(n1):
                    for c2 in range(n2):
                        cl = nmt.compute_coupled_cell(F1[c1], F2[c2])
                        R[:, :, c1*n2+c2, l] += cl
                        ctx.add("skies")
    return R


def run_e2e(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    lmax, lmask, s1, s2 = (case[k] for k in ("lmax", "lmask", "s1", "s2"))
    pure = case["pure"]
    nth = 2*lmax+lmask+4
    grid = L.CarGrid(nth, 2*lmax+lmask+2+(lmask % 2))
    rng = np.random.RandomState(7+ctx.seed)
    mk = []
    for _ in range(2):
        m = 0.7+np.zeros(grid.theta.size)
        for l in range(lmask+1):
            for mm in range(-l, l+1):
                m = m+0.3*rng.randn()/(1+l)*L.real_ylm(l, mm, grid.theta,
                                                       grid.phi)
        mk.append(m.reshape(grid.shape))
    same = (s1 == s2) and pure[:2] == pure[2:]
    R = e2e_response(ctx, case, s1, s2, pure, grid, lmax, lmask, *mk)
    f1 = nmt.NmtField(mk[0], None, spin=s1, wcs=grid.wcs, lmax=lmax,
                      lmax_mask=lmask, n_iter_mask=0,
                      purify_e=bool(pure[0]), purify_b=bool(pure[1]))
    f2 = nmt.NmtField(mk[1], None, spin=s2, wcs=grid.wcs, lmax=lmax,
                      lmax_mask=lmask, n_iter_mask=0,
                      purify_e=bool(pure[2]), purify_b=bool(pure[3]))
    w = nmt.NmtWorkspace.from_fields(f1, f2, L.one_bin(lmax,
                                                       max(2, s1, s2)))
    n = R.shape[0]
    M = w.get_coupling_matrix().reshape(lmax+1, n, lmax+1, n)
    M = np.transpose(M, (1, 0, 3, 2))
    ctx.evaluated("e2e", R, nontrivial=np.any(R != 0))
    # multipoles below the larger spin are not covered by the matrix
    s = max(s1, s2)
    ctx.close("e2e", M[:, s:, :, s:], R[:, s:, :, s:], rtol=1e-7,
              detail="matrix vs expectation over unit skies")
    ctx.sample(dict(case, diag=R[0, :, 0, :].diagonal().tolist()))


def run_e2eteb(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    lmax, lmask, s = case["lmax"], case["lmask"], case["s"]
    pe, pb = case["pure"]
    grid = L.CarGrid(2*lmax+lmask+4, 2*lmax+lmask+2+(lmask % 2))
    rng = np.random.RandomState(17+ctx.seed)
    m = 0.7+np.zeros(grid.theta.size)
    for l in range(lmask+1):
        for mm in range(-l, l+1):
            m = m+0.3*rng.randn()/(1+l)*L.real_ylm(l, mm, grid.theta,
                                                   grid.phi)
    m = m.reshape(grid.shape)
    kw = dict(wcs=grid.wcs, lmax=lmax, lmax_mask=lmask, n_iter_mask=0)
    f0 = nmt.NmtField(m, None, spin=0, **kw)
    fs = nmt.NmtField(m, None, spin=s, purify_e=bool(pe), purify_b=bool(pb),
                      **kw)
    b = L.one_bin(lmax, 2)
    M = nmt.NmtWorkspace.from_fields(f0, fs, b, is_teb=True
                                     ).get_coupling_matrix()
    M = M.reshape(lmax+1, 7, lmax+1, 7)
    A = nmt.NmtWorkspace.from_fields(f0, f0, b).get_coupling_matrix()
    B = nmt.NmtWorkspace.from_fields(f0, fs, b).get_coupling_matrix()
    C = nmt.NmtWorkspace.from_fields(fs, fs, b).get_coupling_matrix()
    B = B.reshape(lmax+1, 2, lmax+1, 2)
    C = C.reshape(lmax+1, 4, lmax+1, 4)
    W = np.zeros_like(M)
    W[:, 0, :, 0] = A
    W[:, 1:3, :, 1:3] = B
    W[:, 3:, :, 3:] = C
    ctx.evaluated("teb", M)
    ctx.close("teb-assembly", M, W, rtol=1e-10,
              detail="joint matrix vs separate ones")
