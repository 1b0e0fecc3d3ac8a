"""P17: results do not depend on how the geometry of a map is stored."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every orientation, reference pixel "
             "and azimuth origin of every rectangular geometry in the bound "
             "is built from the same sky and run through fields, spectra, "
             "coupling matrices, covariances and purification; every pair of "
             "a finite family of geometries is compared for equality; every "
             "map size up to the bound is offered as a HEALPix map")
RULE = ("orient: geometries x (2x2 axis directions) x reference pixels x "
        "azimuth origins, every result equal to that of the normalised "
        "storage and to explicit harmonic sums; pairs: all pairs of "
        "geometries against the list of their pixel centres; healpix: every "
        "pixel count; reject: every incompatible variation. Non-trivial: "
        "every comparison.")
ASSUMES = ["pixels within 180 degrees of the reference azimuth (WCS CAR "
           "projection)"]
MIN_EVAL = 2000

#       nth nph t0 ny nx
GEO = [(6, 12, 0, 7, 12), (7, 14, 0, 8, 14), (9, 12, 1, 6, 12),
       (8, 16, 2, 4, 7), (10, 15, 5, 6, 15), (12, 9, 0, 3, 5),
       (13, 26, 4, 4, 25)]


def cases(tier, seed):
    deep = tier != "quick"
    for g in range(len(GEO)):
        for p0 in ((0., 77.3) if not deep else (0., 77.3, 180., 311.)):
            yield dict(t="orient", g=g, p0=p0)
    yield dict(t="pairs", k=0)
    yield dict(t="pairs", k=1)
    for k in range(8):
        yield dict(t="healpix", k=k, top=20000 if not deep else 200000)
    for nth in (6, 13, 30, 41, 180):
        yield dict(t="lmax", nth=nth)
    yield dict(t="reject")
    for k in range(4):
        yield dict(t="full", k=k, top=130 if not deep else 720)


def storages(g, p0):
    """All ways of storing one geometry: (wcs, to-disk function)."""
    from nmc import lib as L
    nth, nph, t0, ny, nx = GEO[g]
    out = []
    for ds, rs in itertools.product((-1, 1), (1, -1)):
        for ref in sorted({nx//2, nx-nx//2-1, max(0, nx//2-1)}):
            if 2*max(ref, nx-1-ref) > nph:
                # further than half a turn from the reference
                continue
            ra0 = p0+ref*360./nph
            for turn in (0., 360., -360.):
                wcs, shape = L.car_wcs(nth, nph, ds, rs, ra0=ra0, theta0=t0,
                                       ny=ny, nx=nx, phi_start=p0)
                # the same reference one turn away
                wcs.wcs.crval = [ra0+turn, 0.]
                out.append(((ds, rs, ref, turn), wcs, lambda a, ds=ds, rs=rs:
                            np.ascontiguousarray(
                                a[..., ::(1 if ds < 0 else -1),
                                  ::(1 if rs > 0 else -1)])))
    return out


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_orient(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    from nmc.curved import Sky
    g, p0 = case["g"], case["p0"]
    nth, nph, t0, ny, nx = GEO[g]
    lmax = 4
    rng = np.random.RandomState(ctx.seed+g)
    m = rng.rand(ny, nx)
    m[rng.rand(ny, nx) < 0.15] = 0
    d = rng.randn(3, ny, nx)
    T = rng.randn(2, 3, ny, nx)
    var = rng.rand(ny, nx)
    th = (t0+np.arange(ny))*np.pi/nth
    ph = np.radians(p0)+np.arange(nx)*2*np.pi/nph
    w = np.repeat(L.cc_weights(nth)[t0:t0+ny]*2*np.pi/nph, nx)
    S = Sky(np.repeat(th, nx), np.tile(ph, ny), w, lmax)
    b = L.all_bins(lmax)
    ref = None
    for name, wcs, o in storages(g, p0):
        mi = nmt.NmtMapInfo(wcs, (ny, nx))
        out = {}
        kw = dict(wcs=wcs, n_iter=0, n_iter_mask=0, lmax=lmax,
                  lmax_mask=lmax)
        f0 = nmt.NmtField(o(m), o(d[:1]), **kw)
        f2 = nmt.NmtField(o(m), o(d[1:]), **kw)
        f1 = nmt.NmtField(o(m), o(d[1:]), spin=1, **kw)
        ft = nmt.NmtField(o(m), o(d[1:]), templates=o(T[:, 1:]), **kw)
        fp = nmt.NmtField(o(m), o(d[1:]), purify_b=True, **kw)
        fi = nmt.NmtField(o(m), o(d[1:]*m), masked_on_input=True, **kw)
        fa = nmt.NmtField(o(m+1), o(d[1:]), spin=2, mask_22=o(m+1.5),
                          mask_12=o(0.5*m), **kw)
        for k, f in (("0", f0), ("2", f2), ("1", f1), ("t", ft), ("p", fp),
                     ("i", fi), ("a", fa)):
            out["alm"+k] = f.get_alms()
            out["map"+k] = f.get_maps()
        out["mask"] = f0.get_mask()
        out["malm"] = f0.get_mask_alms()
        out["pcl"] = nmt.compute_coupled_cell(f0, ft)
        ws = nmt.NmtWorkspace.from_fields(f0, f2, b)
        out["mcm"] = ws.get_coupling_matrix()
        wa = nmt.NmtWorkspace.from_fields(fa, fa, b)
        out["amcm"] = wa.get_coupling_matrix()
        wf = nmt.NmtWorkspace.from_fields(f0, f0, b, normalization='FKP')
        out["fkp"] = wf.decouple_cell(np.ones((1, lmax+1)))
        out["bias"] = nmt.deprojection_bias(f0, ft, np.ones((2, lmax+1)),
                                            n_iter=0)
        out["nbias"] = nmt.uncorr_noise_deprojection_bias(ft, o(var),
                                                          n_iter=0)
        if ref is None:
            ref = out
            first = mi
            ctx.close("alm-explicit", out["alm0"], S.m2a(
                (d[:1]*m).reshape(1, -1), 0), rtol=1e-9)
            ctx.close("alm-explicit", out["alm2"], S.m2a(
                (d[1:]*m).reshape(2, -1), 2), rtol=1e-9)
            ctx.close("alm-explicit", out["alm1"], S.m2a(
                (d[1:]*m).reshape(2, -1), 1), rtol=1e-9)
        for k in ref:
            ctx.close("same:"+k, out[k], ref[k], rtol=1e-8,
                      detail=str(name))
        ctx.check(mi == first and first == mi and not (mi != first),
                  "equal", str(name))
        ctx.evaluated(name, out["alm0"])


def run_lmax(case, ctx):
    """Default band limit: pi over the smallest pixel side."""
    import pymaster as nmt
    from nmc import lib as L
    nth = case["nth"]
    for nph in (nth, 2*nth, 3*nth, 2*nth-1):
        want = max(2*nth, nph)//2
        for ds, rs in itertools.product((-1, 1), (1, -1)):
            for eps in (0., 1e-13, -1e-13):
                w, s = L.car_wcs(nth, nph, ds, rs, ra0=40., theta0=nth//2,
                                 ny=2, nx=3, phi_start=30.)
                w.wcs.cdelt = np.array(w.wcs.cdelt)*(1+eps)
                mi = nmt.NmtMapInfo(w, s)
                ctx.check(mi.get_lmax() == want, "lmax", "%s: %d not %d" % (
                    (nth, nph, eps), mi.get_lmax(), want))
                f = nmt.NmtField(np.ones(s), None, spin=0, wcs=w)
                ctx.check(f.ainfo.lmax == want == f.ainfo_mask.lmax,
                          "lmax-field")
                ctx.evaluated([nph, ds, rs, eps], want)


def run_full(case, ctx):
    """Every full-sky geometry reaching both poles is accepted."""
    import pymaster as nmt
    from nmc import lib as L
    for nth in range(3+case["k"], case["top"], 4):
        for ds, rs in itertools.product((-1, 1), (1, -1)):
            w, s = L.car_wcs(nth, 2*nth, ds, rs, ra0=180.)
            mi = nmt.NmtMapInfo(w, s)
            ctx.check(mi.get_lmax() == nth, "lmax", str(nth))
            ctx.close("poles", [mi.si.theta[0], mi.si.theta[-1]], [0, np.pi],
                      rtol=1e-10)
            ctx.close("area", mi.si.dot_map(np.ones(mi.npix),
                                            np.ones(mi.npix)), 4*np.pi,
                      rtol=1e-10)
            ctx.evaluated([nth, ds, rs], mi.npix)


def run_pairs(case, ctx):
    """Equality against the list of pixel centres."""
    import pymaster as nmt
    from nmc import lib as L
    fam = []
    for nth in (6, 7):
        for nph in (12, 14):
            for t0, ny in ((0, nth+1), (0, 3), (1, 3), (1, 4)):
                for nx in (nph, 5, 6):
                    for p0 in (0., 360./nph, 10.):
                        for ds, rs in ((-1, 1), (1, -1)):
                            w, s = L.car_wcs(nth, nph, ds, rs, theta0=t0,
                                             ny=ny, nx=nx, phi_start=p0,
                                             ra0=p0+(nx//2)*360./nph)
                            key = (nth, nph, t0, ny, nx, round(p0, 6))
                            fam.append((key, nmt.NmtMapInfo(w, s)))
    for ns in (2, 4, 8):
        for _ in range(2):
            fam.append((("hp", ns), nmt.NmtMapInfo(None, (12*ns**2,))))
    for i, (k, a) in enumerate(fam):
        if i % 2 != case["k"]:
            continue
        for q, b in fam:
            ctx.check((a == b) == (k == q), "pair-eq", "%s %s" % (k, q))
            ctx.check((a != b) == (k != q), "pair-ne", "%s %s" % (k, q))
            ctx.evaluated([k, q], k == q)
        for x in (None, 3, "a", a.si):
            ctx.check(not (a == x), "type")


def run_healpix(case, ctx):
    import pymaster as nmt
    good = {12*4**k: 2**k for k in range(1, 17)}
    for n in list(range(case["k"], case["top"], 8)) + (
            [12*4**k+j for k in range(1, 14) for j in (-1, 0, 1)]
            if case["k"] == 0 else []):
        if n in good:
            if n > 1e8:
                continue
            mi = nmt.NmtMapInfo(None, (n,))
            ns = good[n]
            ctx.check(mi.nside == ns and mi.npix == n and
                      mi.get_lmax() == 3*ns-1, "nside", str(n))
            ctx.evaluated(n, ns)
        else:
            ctx.raises("accepted", lambda: nmt.NmtMapInfo(None, (n,)),
                       exc=ValueError, detail=str(n))
            ctx.evaluated(n, nontrivial=True)


def run_reject(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    nth, nph, ny, nx = 10, 20, 6, 12

    def base(**k):
        p = dict(nth=nth, nph=nph, dec_sign=-1, ra_sign=1, theta0=2, ny=ny,
                 nx=nx, phi_start=0., ra0=90.)
        p.update(k)
        return L.car_wcs(**p)
    muts = []
    for i in (0, 1):
        for typ in ("TAN", "CEA", "MER", "SIN"):
            muts.append(("type", lambda w, s, i=i, typ=typ: (
                w.wcs.ctype.__setitem__(i, ("RA---" if i == 0 else "DEC--") +
                                        typ), s)[1]))
    for v in (96., 10., 2e-3, -2e-3, -10., -18., -30., -45., 18.):
        muts.append(("dec0", lambda w, s, v=v: (
            w.wcs.crval.__setitem__(1, v), s)[1]))
    for v in (-2, -1, 1, 2):
        # the reference moved by whole rows along the meridian
        muts.append(("dec0row", lambda w, s, v=v: (
            w.wcs.crval.__setitem__(1, v*w.wcs.cdelt[1]),
            w.wcs.crpix.__setitem__(1, w.wcs.crpix[1]+v), s)[2]))
    for i in (0, 1):
        for f in (1.01, 0.99, 1.1):
            muts.append(("size", lambda w, s, i=i, f=f: (
                w.wcs.cdelt.__setitem__(i, w.wcs.cdelt[i]*f), s)[1]))
    muts.append(("rows", lambda w, s: (12, nx)))
    muts.append(("rows", lambda w, s: (10, nx)))
    muts.append(("cols", lambda w, s: (ny, nph+1)))
    muts.append(("cols", lambda w, s: (ny, nph+5)))
    muts.append(("ndim", lambda w, s: (ny*nx,)))
    muts.append(("ndim", lambda w, s: (2, ny, nx)))
    for v in (-1., 0., 7., 9., 100.):
        muts.append(("rowref", lambda w, s, v=v: (
            w.wcs.crpix.__setitem__(1, w.wcs.crpix[1]+10.+abs(v)), s)[1]))
        muts.append(("rowref", lambda w, s, v=v: (
            w.wcs.crpix.__setitem__(1, w.wcs.crpix[1]-10.-abs(v)), s)[1]))
    for ds, rs in itertools.product((-1, 1), (1, -1)):
        for j, (k, f) in enumerate(muts):
            w, s = base(dec_sign=ds, ra_sign=rs)
            nmt.NmtMapInfo(w, s)  # accepted before
            # (a fresh header: using one fixes the poles it implies)
            w, s = base(dec_sign=ds, ra_sign=rs)
            s2 = f(w, s)
            ctx.raises("reject:"+k, lambda: nmt.NmtMapInfo(w, s2),
                       exc=ValueError, detail="%d %s" % (j, s2))
            ctx.evaluated([ds, rs, j], k)
    # declination of the reference only nominally zero is accepted
    w, s = base()
    w.wcs.crval[1] = 1e-5
    nmt.NmtMapInfo(w, s)
