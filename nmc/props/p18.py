"""P18: Toeplitz approximation of the coupling coefficients."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every (l_toeplitz, l_exact, "
             "dl_band) of the parameter space (admissible and not) up to the "
             "bound for every spin pair, on the real code, element by element "
             "against the exact Wigner-3j sums and the definition of the "
             "extrapolation")
RULE = ("every admissible parameter triple x spin pair/TEB x mask spectra "
        "(generic, cross, parity-symmetric, single harmonics); elements "
        "declared exact are compared for all masks, extrapolated ones "
        "wherever the reference diagonal does not vanish; every triple of a "
        "larger box is offered and must be accepted exactly if admissible. "
        "big: band limits of hundreds. Non-trivial: matrix has a non-zero "
        "element.")
ASSUMES = ["elements are declared exact as in Fig. 3 of Louis et al. 2020: "
           "the diagonal, rows and columns up to l_exact, and a band of width "
           "dl_band up to l_toeplitz"]
MIN_EVAL = 2000

CFG = [(0, 0, 0), (0, 2, 0), (2, 0, 0), (2, 2, 0), (0, 1, 0), (1, 1, 0),
       (1, 2, 0), (3, 2, 0), (0, 3, 0), (0, 2, 1), (0, 1, 1), (0, 3, 1)]


def triples(lmax, big=0):
    if big:     # of the sizes used in practice
        yield from ((lmax-1, lmax-1, lmax-1), (lmax//2, lmax//2, lmax//4),
                    (lmax*3//4, lmax//3, lmax//3), (lmax-20, 3, 12),
                    (lmax//3, 7, 0))
        return
    for lt in range(1, lmax):
        for le in range(1, lt+1):
            for dl in range(lmax):
                yield lt, le, dl


def cases(tier, seed):
    sizes = [(2, 5, 5), (4, 7, 9)]
    if tier != "quick":
        sizes += [(2, 3, 3), (2, 4, 6), (4, 8, 5), (4, 11, 11)]
    for nside, lmax, lmask in sizes:
        for s1, s2, teb in CFG:
            if max(s1, s2) <= lmax:
                yield dict(t="mcm", nside=nside, lmax=lmax, lmask=lmask,
                           s1=s1, s2=s2, teb=teb)
        for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2), (0, 2, 2, 2),
                   (0, 0, 2, 2)):
            yield dict(t="cov", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp))
        yield dict(t="cov", nside=nside, lmax=lmax, lmask=lmask,
                   spins=[0]*4, s0=1)
    for k in range(4):
        yield dict(t="refuse", k=k)
    for nside, lmax, lmask in [(64, 120, 130)] if tier == "quick" else \
            [(64, 120, 130), (128, 300, 200)]:
        for s1, s2, teb in CFG[:4]+CFG[5:7]+CFG[9:10]+[
                (0, 5, 0), (4, 7, 0), (6, 6, 0), (8, 1, 0), (0, 6, 1)]:
            yield dict(t="mcm", nside=nside, lmax=lmax, lmask=lmask, s1=s1,
                       s2=s2, teb=teb, big=1)
        for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2)):
            yield dict(t="cov", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp), big=1)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def masks(nside, lmask, seed, big=0):
    import healpy as hp
    if big:
        from nmc.props.p01 import big_masks
        yield from [x for x in big_masks(nside, lmask, seed)][:1]
        return
    from nmc import lib as L
    npix = 12*nside**2
    a, b = L.smooth_masks(nside, 90+seed)
    x = np.array(hp.pix2vec(nside, np.arange(npix)))
    anti = hp.vec2pix(nside, *(-x))
    th, ph = hp.pix2ang(nside, np.arange(npix))
    yield "auto", a, a
    yield "cross", a, b
    yield "even", a+a[anti], a+a[anti]
    yield "odd", a-a[anti], a-a[anti]
    for l in (0, 1, 2, lmask):
        y = L.real_ylm(l, 0, th, ph)
        yield "Y%d" % l, y, y


def approx(lt, le, dl, exact):
    """Definition; exact collects the elements that can be judged."""
    from nmc import oracle as O

    def f(X):
        Y, E = O.toeplitz(X, lt, le, dl)
        D = np.abs(np.diagonal(X))
        s = D[D > 1e-9*D.max()] if D.max() > 0 else []
        # zero for the multipoles below the spin; elsewhere the
        # correlation is not defined when the diagonal vanishes
        nz = np.nonzero(np.any(np.abs(X) > 1e-12*np.abs(X).max(), axis=1))[0]
        if len(nz) and len(s) == len(D)-nz[0]:
            E = np.ones_like(E)
        exact.append(E)
        return Y
    return f


def run_mcm(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    nside, lmax, lmask, s1, s2, teb = (
        case[k] for k in ("nside", "lmax", "lmask", "s1", "s2", "teb"))
    b = L.one_bin(lmax, max(2, s1, s2))
    n = O.pair_ncls(s1, s2, teb)
    big = case.get("big", 0)
    xi = "xi_gl" if big else "xi_curved"
    for name, m1, m2 in masks(nside, lmask, ctx.seed, big):
        kw = dict(lmax=lmax, lmax_mask=lmask)
        f1 = nmt.NmtField(m1, None, spin=s1, **kw)
        f2 = nmt.NmtField(m2, None, spin=s2, **kw)
        pcl = O.alm2cl(f1.get_mask_alms(), f2.get_mask_alms(), lmask)
        full = O.mcm_curved(pcl, lmax, s1, s2, teb=bool(teb), xi=xi)
        sc = max(np.max(np.abs(full)), 1e-3*np.max(np.abs(pcl)))
        for lt, le, dl in [(-1, -1, -1), (0, 0, 0), (-3, 4, 2)]:
            M = nmt.NmtWorkspace.from_fields(
                f1, f2, b, is_teb=bool(teb), l_toeplitz=lt, l_exact=le,
                dl_band=dl).get_coupling_matrix()
            ctx.close("off", M, full, rtol=1e-9, scale=sc)
        for lt, le, dl in triples(lmax, big):
            w = nmt.NmtWorkspace.from_fields(
                f1, f2, b, is_teb=bool(teb), l_toeplitz=lt, l_exact=le,
                dl_band=dl)
            M = w.get_coupling_matrix().reshape(lmax+1, n, lmax+1, n)
            ex = []
            W = O.mcm_curved(pcl, lmax, s1, s2, teb=bool(teb),
                             approx=approx(lt, le, dl, ex), xi=xi).reshape(M.shape)
            E = np.all(ex, axis=0)
            ctx.evaluated([name, lt, le, dl], M, nontrivial=np.any(W != 0))
            d = "%s l_toeplitz=%d l_exact=%d dl_band=%d" % (name, lt, le, dl)
            Y, X = O.toeplitz(np.ones((lmax+1,)*2), lt, le, dl)
            F = full.reshape(M.shape)
            ctx.close("exact", np.where(X[:, None, :, None], M, 0),
                      np.where(X[:, None, :, None], F, 0), rtol=1e-9,
                      scale=sc, detail=d)
            ctx.close("extrapolated", np.where(E[:, None, :, None], M, 0),
                      np.where(E[:, None, :, None], W, 0), rtol=1e-7,
                      scale=sc, detail=d)
            if np.all(E):
                ctx.add("fully judged")


def run_cov(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    nside, lmax, lmask, sp = (case[k] for k in ("nside", "lmax", "lmask",
                                                "spins"))
    mk = L.smooth_masks(nside, 60+ctx.seed, 4)
    kw = dict(lmax=lmax, lmax_mask=lmask)
    f = [nmt.NmtField(m, None, spin=s, **kw) for m, s in zip(mk, sp)]
    b = L.all_bins(lmax)
    wa = nmt.NmtWorkspace.from_fields(f[0], f[1], b, normalization='FKP')
    wb = nmt.NmtWorkspace.from_fields(f[2], f[3], b, normalization='FKP')
    rng = np.random.RandomState(ctx.seed)
    n = [2 if s else 1 for s in sp]
    cls = [rng.rand(n[i]*n[j], lmax+1)+0.1
           for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]

    def pcl(i, j, k, l):
        return O.alm2cl(*[nmt.NmtField(x, None, spin=0, **kw).get_mask_alms()
                          for x in (mk[i]*mk[j], mk[k]*mk[l])], lmask)
    p1, p2 = pcl(0, 2, 1, 3), pcl(0, 3, 1, 2)
    big = case.get("big", 0)
    if big:
        p1, p2 = [O.xi_set(p, lmax, "xi_gl") for p in (p1, p2)]
    else:
        p1, p2 = [O.xi_set(p, lmax) for p in (p1, p2)]
    for lt, le, dl in triples(lmax, big):
        cw = nmt.NmtCovarianceWorkspace.from_fields(
            *f, l_toeplitz=lt, l_exact=le, dl_band=dl,
            spin0_only=bool(case.get("s0")))
        C = nmt.gaussian_covariance(cw, *sp, *cls, wa, wb, coupled=True)
        ex = []
        X = []
        for p in (p1, p2):
            t = approx(lt, le, dl, ex)
            X.append({k: t(v) for k, v in p.items()})
        W = O.cov_coupled(X[0], X[1], sp, *cls)
        W = W.reshape(C.shape)
        E = np.all(ex, axis=0)
        E = np.repeat(np.repeat(E, n[0]*n[1], 0), n[2]*n[3], 1)
        ctx.evaluated([lt, le, dl], C)
        ctx.close("cov", np.where(E, C, 0), np.where(E, W, 0), rtol=1e-8,
                  scale=np.max(np.abs(W)),
                  detail="l_toeplitz=%d l_exact=%d dl_band=%d" % (lt, le, dl))
        if np.all(E):
            ctx.add("fully judged")


def run_refuse(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 5
    m = L.smooth_masks(2, 60+ctx.seed, 1)[0]
    kw = dict(lmax=lmax, lmax_mask=lmax)
    b = L.one_bin(lmax, 2)
    f0 = nmt.NmtField(m, m[None], **kw)
    f2 = nmt.NmtField(m, [m, m], **kw)
    fp = [nmt.NmtField(m, [m, m], purify_e=e, purify_b=p, **kw)
          for e, p in ((True, False), (False, True), (True, True))]
    rg = range(-2, lmax+3)
    k = case["k"]
    for lt, le, dl in itertools.product(rg, rg, rg):
        if (lt+le+dl) % 4 != k:
            continue
        par = dict(l_toeplitz=lt, l_exact=le, dl_band=dl)
        on = lt > 0
        ok = not on or (0 < le <= lt < lmax and 0 <= dl < lmax)
        calls = [("mcm", lambda: nmt.NmtWorkspace.from_fields(
                     f0, f2, b, **par).get_coupling_matrix()),
                 ("cov", lambda: nmt.NmtCovarianceWorkspace.from_fields(
                     f0, f2, **par)),
                 ("full", lambda: nmt.compute_full_master(
                     f0, f0, b, **par))]
        for nm, fn in calls:
            if ok:
                fn()
            else:
                ctx.raises("accepted:"+nm, fn, exc=ValueError,
                           detail=str(par))
            ctx.evaluated([nm, lt, le, dl], ok)
        if not ok:
            continue
        for i, p in enumerate(fp):
            calls = [lambda: nmt.NmtWorkspace.from_fields(p, p, b, **par),
                     lambda: nmt.NmtWorkspace.from_fields(f0, p, b, **par),
                     lambda: nmt.NmtWorkspace.from_fields(p, f2, b, **par)]
            for j in range(4):
                q = [f2]*4
                q[j] = p
                calls.append(lambda q=q: nmt.NmtCovarianceWorkspace
                             .from_fields(*q, **par))
            for j, fn in enumerate(calls):
                if on:
                    ctx.raises("pure", fn, exc=ValueError,
                               detail="%d %d %s" % (i, j, par))
                else:
                    fn()
                ctx.evaluated(["pure", i, j, lt, le, dl], on)
        # anisotropic weights have no Toeplitz approximation
        fa = nmt.NmtField(m+1, [m, m], spin=2, mask_22=m+1, mask_12=0.1*m,
                          **kw)
        for fn in (lambda: nmt.NmtWorkspace.from_fields(fa, f0, b, **par),
                   lambda: nmt.NmtWorkspace.from_fields(fa, fa, b, **par)):
            if on:
                ctx.raises("anisotropic", fn, exc=NotImplementedError,
                           detail=str(par))
            else:
                fn()
            ctx.evaluated(["aniso", lt, le, dl], on)
