"""P06: curved-sky Gaussian covariance."""
import itertools
import numpy as np

LEVEL = "exploration"
RULE = ("All 16 combinations of spin zero/non-zero of the four fields (plus "
        "other spins), with four unequal masks and unequal binnings; for "
        "each, every pair of single-component input spectra of both Wick "
        "terms (the covariance is bilinear in them) with generic multipole "
        "dependence, and for spin 0 every pair of unit-impulse multipoles; "
        "coupled and decoupled results compared element by element with the "
        "narrow-kernel sum using exact Wigner-3j coefficients, including "
        "elements outside every band.big: band limits up to the hundreds. "
        "Non-trivial: expected matrix non-zero.")
ASSUMES = ["binned coupling matrices are those checked by P02; harmonic "
           "coefficients of mask products by P11",
           "sign table of the parity-odd terms as fixed by the repository's "
           "published benchmark (see DESIGN.md)"]
MIN_EVAL = 300


def cases(tier, seed):
    sizes = [(2, 5, 5), (2, 5, 4)] if tier == "quick" else \
        [(2, 5, 5), (2, 5, 4), (2, 5, 7), (4, 9, 9), (4, 11, 8)]
    for nside, lmax, lmask in sizes:
        for sp in itertools.product((0, 2), repeat=4):
            yield dict(t="comp", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp), bins="ab")
        for sp in ((0, 1, 0, 1), (1, 2, 2, 3), (3, 0, 1, 1), (1, 1, 1, 1)):
            yield dict(t="comp", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp), bins="ab")
    for k, bins in enumerate(("cd", "dc", "ef")):
        for sp in ((0, 0, 0, 0), (0, 2, 2, 0), (2, 2, 2, 2), (2, 0, 0, 0)):
            yield dict(t="comp", nside=4, lmax=8+k, lmask=8+k,
                       spins=list(sp), bins=bins)
    for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2), (2, 0, 0, 2)):
        yield dict(t="comp", nside=2, lmax=5, lmask=5, spins=list(sp),
                   bins="aa", norm="FKP")
        yield dict(t="comp", nside=2, lmax=5, lmask=5, spins=list(sp),
                   bins="ab", pure=1, beam=1)
    for l1 in range(6):
        yield dict(t="impulse", nside=2, lmax=5, lmask=5, l1=l1, s0=l1 % 2)
    for sp in ((0, 0), (0, 2), (2, 0), (2, 2)):
        yield dict(t="same", nside=2, lmax=5, lmask=5, spins=list(sp))
    # multipoles of real analyses
    for nside, lmax, lmask in [(64, 150, 180)] if tier == "quick" else \
            [(64, 150, 180), (128, 300, 250), (128, 200, 383)]:
        for sp in ((0, 0, 0, 0), (0, 2, 0, 2), (2, 2, 2, 2)):
            yield dict(t="big", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp))
            yield dict(t="big", nside=nside, lmax=lmax, lmask=lmask,
                       spins=list(sp), width=140)
    for sp in itertools.product((0, 2), repeat=4):
        if len(set(sp)) > 1:
            yield dict(t="big", nside=32, lmax=70, lmask=95, spins=list(sp))
    for d in (1, 2):
        for sp in ((0, 0, 0, 0), (0, 2, 2, 2)):
            yield dict(t="sub", nside=2, lmax=5, lmask=5, spins=list(sp),
                       less=d)


def schemes(lmax, f):
    from nmc import lib as L
    a = np.array([-1, -1]+[(i//2) for i in range(lmax-1)])
    if lmax % 2 == 0:
        a[-1] = -1
    b = np.array([-1, -1]+[(i-1)//2 if i > 0 else -1
                           for i in range(lmax-1)])
    if lmax > 3:
        b[3] = -1   # a gap inside
    b = np.array([-1 if x < 0 else x for x in b])
    u = sorted(set(b[b >= 0]))
    b = np.array([-1 if x < 0 else u.index(x) for x in b])
    l = np.arange(lmax+1)
    return (L.Scheme(lmax, a, weights=1.+0.3*l,
                     f_ell=np.where(l > 0, l*(l+1.)/(2*np.pi), 1.) if f
                     else None),
            L.Scheme(lmax, b, weights=2.-0.1*l, f_ell=1+0.2*l if f else None))


def schemes2(lmax, kind):
    """Bands of unequal lengths, prefactors varying inside every band."""
    from nmc import lib as L
    l = np.arange(lmax+1)
    if kind == "cd":      # long/short
        x, y = l//4, np.where(l < 2, -1, (l-2)//2)
    elif kind == "dc":
        x, y = np.where(l < 2, -1, (l-2)//2), l//4
    else:                 # "ef": long bands containing gaps, shared ends
        x = np.where((l % 3 == 1) | (l > lmax-2), -1, l//4)
        y = np.where(l < 1, -1, (l-1)//3)
    return (L.Scheme(lmax, x, weights=1.+0.3*l, f_ell=0.7+0.4*l),
            L.Scheme(lmax, y, weights=2.-0.1*l, f_ell=1e-4*(1+l)**2))


def setup(case, ctx, f=1):
    import pymaster as nmt
    from nmc import lib as L, oracle as O
    nside, lmax, lmask = case["nside"], case["lmax"], case["lmask"]
    masks = L.smooth_masks(nside, 60+ctx.seed, 4)
    sp = case.get("spins", [0]*4)
    beam = None
    if case.get("beam"):
        beam = np.exp(-0.1*np.arange(lmax+1))
    fl = []
    for m, s in zip(masks, sp):
        fl.append(nmt.NmtField(m, None, spin=s, lmax=lmax, lmax_mask=lmask,
                               beam=beam,
                               purify_b=bool(case.get("pure") and s == 2)))
    sa, sb = schemes(lmax, f)
    if case.get("bins") == "aa":
        sb = sa
    elif case.get("bins") in ("cd", "dc", "ef"):
        sa, sb = schemes2(lmax, case["bins"])
    norm = case.get("norm", "MASTER")
    wa = nmt.NmtWorkspace.from_fields(fl[0], fl[1], sa.nmt,
                                      normalization=norm)
    wb = nmt.NmtWorkspace.from_fields(fl[2], fl[3], sb.nmt,
                                      normalization=norm)
    bb = beam**2 if beam is not None else np.ones(lmax+1)
    A = L.WspModel(wa.get_coupling_matrix(), bb, sa, wa.wsp.ncls, norm,
                   np.mean(masks[0]*masks[1]))
    B = L.WspModel(wb.get_coupling_matrix(), bb, sb, wb.wsp.ncls, norm,
                   np.mean(masks[2]*masks[3]))

    def pcl(i, j, k, l):
        x = nmt.NmtField(masks[i]*masks[j], None, spin=0, lmax=lmax,
                         lmax_mask=lmask).get_mask_alms()
        y = nmt.NmtField(masks[k]*masks[l], None, spin=0, lmax=lmax,
                         lmax_mask=lmask).get_mask_alms()
        return O.alm2cl(x, y, lmask)
    return fl, sa, sb, wa, wb, A, B, pcl


def in_bins(s, n):
    m = np.zeros(s.lmax+1, bool)
    fac = np.zeros(s.lmax+1)
    for b in s.bands:
        for l, w, f in b:
            m[l] = True
            fac[l] = f
    return m, fac


def judge(ctx, key, got, gotc, cov6, A, B, fa, fb, detail=""):
    """Compare decoupled and coupled covariances with the coupled sum."""
    nl, na1, na2, _, nb1, nb2 = cov6.shape
    na, nb = na1*na2, nb1*nb2
    C = cov6.reshape(nl*na, nl*nb)
    want = A.decoupler() @ C @ B.decoupler().T
    cond = max(A.cond(), B.cond())
    ref = np.max(np.abs(want))
    ctx.close(key, got, want, rtol=max(1e-10, 1e-13*cond**2), scale=ref,
              detail=detail+" decoupled")
    if gotc is not None:
        Cf = cov6.reshape(nl, na, nl, nb)*fa[:, None, None, None] * \
            fb[None, None, :, None]
        ctx.close(key+"-coupled", gotc, Cf.reshape(nl*na, nl*nb),
                  rtol=1e-10, detail=detail+" coupled")
    return want


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def run_comp(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O
    fl, sa, sb, wa, wb, A, B, pcl = setup(case, ctx)
    lmax = case["lmax"]
    sp = case["spins"]
    cw = nmt.NmtCovarianceWorkspace.from_fields(*fl)
    X1 = O.xi_set(pcl(0, 2, 1, 3), lmax)
    X2 = O.xi_set(pcl(0, 3, 1, 2), lmax)
    n = [2 if s else 1 for s in sp]
    rng = np.random.RandomState(ctx.seed+3)
    dims = dict(ac=n[0]*n[2], ad=n[0]*n[3], bc=n[1]*n[2], bd=n[1]*n[3])
    _, fa = in_bins(sa, 0)
    _, fb = in_bins(sb, 0)
    base = {k: rng.randn(d, lmax+3) for k, d in dims.items()}
    runs = [("all", base)]
    for k1, k2 in (("ac", "bd"), ("ad", "bc")):
        for i in range(dims[k1]):
            for j in range(dims[k2]):
                c = {k: np.zeros_like(v) for k, v in base.items()}
                c[k1][i] = base[k1][i]
                c[k2][j] = base[k2][j]
                runs.append(("%s%d*%s%d" % (k1, i, k2, j), c))
    for name, c in runs:
        cls = [c["ac"], c["ad"], c["bc"], c["bd"]]
        got = nmt.gaussian_covariance(cw, *sp, *cls, wa, wb)
        gotc = nmt.gaussian_covariance(cw, *sp, *cls, wa, wb, coupled=True)
        cov6 = O.cov_coupled(X1, X2, sp, *cls)
        w = judge(ctx, "cov", got, gotc, cov6, A, B, fa, fb, name)
        ctx.evaluated(name, got, nontrivial=np.any(w != 0))
    # exchanging the pairs transposes
    cw2 = nmt.NmtCovarianceWorkspace.from_fields(fl[2], fl[3], fl[0], fl[1])
    tr = {k: None for k in base}
    tr["ca"] = tp(base["ac"], n[0], n[2])
    tr["da"] = tp(base["ad"], n[0], n[3])
    tr["cb"] = tp(base["bc"], n[1], n[2])
    tr["db"] = tp(base["bd"], n[1], n[3])
    got = nmt.gaussian_covariance(cw, *sp, base["ac"], base["ad"],
                                  base["bc"], base["bd"], wa, wb)
    g2 = nmt.gaussian_covariance(cw2, sp[2], sp[3], sp[0], sp[1], tr["ca"],
                                 tr["cb"], tr["da"], tr["db"], wb, wa)
    ctx.close("transpose", g2, got.T, rtol=1e-9)
    ctx.sample(dict(case, cov00=float(got[0, 0])))


def tp(cl, n1, n2):
    return cl.reshape(n1, n2, -1).transpose(1, 0, 2).reshape(n1*n2, -1)


def run_impulse(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O
    fl, sa, sb, wa, wb, A, B, pcl = setup(case, ctx, f=0)
    lmax = case["lmax"]
    cw = nmt.NmtCovarianceWorkspace.from_fields(*fl,
                                                spin0_only=bool(case["s0"]))
    X1 = O.xi_set(pcl(0, 2, 1, 3), lmax)
    X2 = O.xi_set(pcl(0, 3, 1, 2), lmax)
    _, fa = in_bins(sa, 0)
    _, fb = in_bins(sb, 0)
    z = np.zeros((1, lmax+1))
    for l2 in range(lmax+1):
        for which in (0, 1):
            e1, e2 = z.copy(), z.copy()
            e1[0, case["l1"]] = 1
            e2[0, l2] = 1
            cls = [e1, z, z, e2] if which == 0 else [z, e1, e2, z]
            got = nmt.gaussian_covariance(cw, 0, 0, 0, 0, *cls, wa, wb)
            gotc = nmt.gaussian_covariance(cw, 0, 0, 0, 0, *cls, wa, wb,
                                           coupled=True)
            cov6 = O.cov_coupled(X1, X2, [0]*4, *cls)
            w = judge(ctx, "impulse", got, gotc, cov6, A, B, fa, fb)
            ctx.evaluated([l2, which], got, nontrivial=np.any(w != 0))


def run_same(case, ctx):
    """Default arguments: one pair of fields, one workspace; symmetric."""
    import pymaster as nmt
    from nmc import oracle as O
    c = dict(case, spins=case["spins"]*2, bins="aa")
    fl, sa, sb, wa, wb, A, B, pcl = setup(c, ctx)
    lmax = case["lmax"]
    sp = c["spins"]
    cw = nmt.NmtCovarianceWorkspace.from_fields(fl[0], fl[1])
    X1 = O.xi_set(pcl(0, 0, 1, 1), lmax)
    X2 = O.xi_set(pcl(0, 1, 1, 0), lmax)
    n = [2 if s else 1 for s in sp]
    rng = np.random.RandomState(ctx.seed+4)

    def symm(k):
        a = rng.randn(k, k, lmax+1)
        return (a+a.transpose(1, 0, 2)).reshape(k*k, -1)
    aa, bb = symm(n[0]), symm(n[1])
    ab = rng.randn(n[0]*n[1], lmax+1)
    cls = [aa, ab, tp(ab, n[0], n[1]), bb]
    got = nmt.gaussian_covariance(cw, *sp, *cls, wa)
    gotc = nmt.gaussian_covariance(cw, *sp, *cls, wa, coupled=True)
    _, fa = in_bins(sa, 0)
    cov6 = O.cov_coupled(X1, X2, sp, *cls)
    w = judge(ctx, "same", got, gotc, cov6, A, A, fa, fa)
    ctx.close("symmetric", got, got.T, rtol=1e-9)
    ctx.evaluated("same", got, nontrivial=np.any(w != 0))


def run_big(case, ctx):
    """Realistic multipole range, masks and binnings."""
    import healpy as hp
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    nside, lmax, lmask = case["nside"], case["lmax"], case["lmask"]
    sp = case["spins"]
    n = [2 if s else 1 for s in sp]
    v = np.array(hp.pix2vec(nside, np.arange(12*nside**2)))
    rng = np.random.RandomState(ctx.seed+6)
    masks = []
    for _ in range(4):
        d = rng.randn(3)
        t = v.T @ (d/np.sqrt(np.sum(d**2)))
        masks.append(np.clip((t+0.3)*3, 0, 1)*(1+0.2*rng.rand(t.size)))
    kw = dict(lmax=lmax, lmax_mask=lmask, n_iter_mask=0)
    fl = [nmt.NmtField(m, None, spin=s, **kw) for m, s in zip(masks, sp)]
    l = np.arange(lmax+1)
    sa = L.Scheme(lmax, np.where(l < 2, -1, (l-2)//case.get("width", 12)),
                  weights=1+0.01*l, f_ell=0.7+0.01*l)
    sb = np.where(l < 2, -1, (np.sqrt(l)*1.2).astype(int)-1)
    if "width" in case:
        sb = np.where(l < 2, -1, (l % 5 == 1)*1)
    sb = L.Scheme(lmax, sb, weights=2-0.001*l, f_ell=None)
    wa = nmt.NmtWorkspace.from_fields(fl[0], fl[1], sa.nmt)
    wb = nmt.NmtWorkspace.from_fields(fl[2], fl[3], sb.nmt)
    A, B = [L.WspModel(w.get_coupling_matrix(), np.ones(lmax+1), s,
                       w.wsp.ncls, "MASTER", 1.) for w, s in ((wa, sa),
                                                              (wb, sb))]

    def pcl(i, j, k, m):
        return O.alm2cl(*[nmt.NmtField(masks[a]*masks[b], None, spin=0, **kw
                                       ).get_mask_alms()
                          for a, b in ((i, j), (k, m))], lmask)
    cw = nmt.NmtCovarianceWorkspace.from_fields(*fl)
    X1 = O.xi_set(pcl(0, 2, 1, 3), lmax, "xi_gl")
    X2 = O.xi_set(pcl(0, 3, 1, 2), lmax, "xi_gl")
    cls = [(1+0.3*rng.randn(n[i]*n[j], lmax+1))/(10.+l)**2
           for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
    got = nmt.gaussian_covariance(cw, *sp, *cls, wa, wb)
    gotc = nmt.gaussian_covariance(cw, *sp, *cls, wa, wb, coupled=True)
    cov6 = O.cov_coupled(X1, X2, sp, *cls)
    _, fa = in_bins(sa, 0)
    _, fb = in_bins(sb, 0)
    judge(ctx, "big", got, gotc, cov6, A, B, fa, fb)
    ctx.evaluated("big", got, nontrivial=True)


def run_sub(case, ctx):
    """Workspaces with a lower band limit than the covariance workspace."""
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    lmax, sp = case["lmax"], case["spins"]
    lm2 = lmax-case["less"]
    fl, sa, sb, wa, wb, A, B, pcl = setup(dict(case), ctx)
    cw = nmt.NmtCovarianceWorkspace.from_fields(*fl)
    _, _, _, wa2, _, A2, _, _ = setup(dict(case, lmax=lm2, lmask=lm2), ctx)
    X1 = O.xi_set(pcl(0, 2, 1, 3), lmax)
    X2 = O.xi_set(pcl(0, 3, 1, 2), lmax)
    n = [2 if s else 1 for s in sp]
    rng = np.random.RandomState(ctx.seed+5)
    cls = [rng.randn(n[0]*n[2], lmax+1), rng.randn(n[0]*n[3], lmax+1),
           rng.randn(n[1]*n[2], lmax+1), rng.randn(n[1]*n[3], lmax+1)]
    got = nmt.gaussian_covariance(cw, *sp, *cls, wa2, wb)
    cov6 = O.cov_coupled(X1, X2, sp, *cls)
    C = cov6[:lm2+1].reshape((lm2+1)*n[0]*n[1], -1)
    want = A2.decoupler() @ C @ B.decoupler().T
    ctx.close("sub", got, want, rtol=1e-8)
    ctx.evaluated("sub", got)
