"""P10: curved-sky field construction: masking, deprojection, transforms."""
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: field construction is linear in "
             "the data, so every unit-impulse map is run for every "
             "configuration in the bound (geometry, spin, template set, "
             "masked_on_input, lite, iterations, lmax) and compared with the "
             "definition computed with explicit harmonic sums")
RULE = ("every unit-impulse map (pixel and component) plus generic data x "
        "HEALPix / CAR x spin 0..2 x template sets (none, one, two, three, "
        "duplicated, linear combinations, vanishing, disjoint from the "
        "mask, very different scales, all tiny, all huge) x masked on input "
        "x lite x n_iter x lmax. big: resolutions up to nside 32 (thorough "
        "128), up to 12 templates; many: up to 70 templates; tol: every "
        "tolerance of the pseudo-inverse against orthogonal templates on "
        "either side of it. Non-trivial: expected map not "
        "identically 0.")
MIN_EVAL = 5000

GEO = ["hp2", "hp2l4", "car"]
SETS = ["none", "one", "two", "three", "dup", "comb", "zero", "zero+", "off",
        "off+", "scaled", "tiny", "huge", "tiny+"]


def cases(tier, seed):
    for nside, lmax, lk in [(32, 95, 70)] if tier == "quick" else \
            [(32, 95, 70), (32, 80, 95), (128, 300, 383)]:
        for s in (0, 1, 2, 3):
            for it in (0, 1, 3):
                yield dict(t="big", nside=nside, lmax=lmax, lk=lk, spin=s,
                           it=it)
            yield dict(t="many", nside=16 if s else 32, spin=s, it=s % 2)
    for s in (0, 1, 2, 5):
        yield dict(t="tol", nside=4, spin=s)
    if tier == "quick":
        for s, it in ((0, 1), (2, 0)):
            yield dict(t="big", nside=128, lmax=200, lk=150, spin=s, it=it)
    for geo in GEO if tier == "quick" else GEO+["hp4"]:
        for s in (0, 1, 2):
            for st in SETS:
                for masked in (0, 1):
                    for it in ((0, 2) if tier == "quick" else (0, 1, 2, 3)):
                        if geo == "car" and it and tier == "quick":
                            continue
                        yield dict(t="field", geo=geo, spin=s, set=st,
                                   masked=masked, it=it)


def run_big(case, ctx):
    """Resolution and number of templates used in practice."""
    import pymaster as nmt
    from nmc.curved import HpSky
    s, it, lmax, lk = case["spin"], case["it"], case["lmax"], case["lk"]
    n = 2 if s else 1
    sky = HpSky(case["nside"], lmax, lk)
    m = mask(ctx, sky.npix)
    rng = np.random.RandomState(ctx.seed+5)
    for nt in (0, 1, 6, 12):
        T = rng.randn(nt, n, sky.npix)
        if nt > 2:
            T[2] = 0.5*T[0]-T[1]
        F = (T*m).reshape(nt, n*sky.npix)
        W = np.tile(sky.w, n)
        d = rng.randn(n, sky.npix)
        want = d*m
        if nt:
            al = np.linalg.pinv((F*W) @ F.T, rcond=1e-9, hermitian=True) @ (
                (F*W) @ want.ravel())
            want = want-(al @ F).reshape(n, -1)
        for mi in (False, True):
            for lite in (False, True):
                f = nmt.NmtField(m, d*m if mi else d, spin=s, n_iter=it,
                                 templates=None if nt == 0 else (
                                     T*m if mi else T), masked_on_input=mi,
                                 lmax=lmax, lmax_mask=lk, lite=lite)
                ctx.close("big:alms", f.get_alms(), sky.m2a(
                    want, s, n_iter=it), rtol=1e-8)
                if not lite:
                    ctx.close("big:maps", f.get_maps(), want, rtol=1e-9)
                ctx.evaluated([nt, mi, lite], f.get_alms())
        ctx.close("big:maskalm", f.get_mask_alms(), sky.m2a(
            m[None], 0, lk, 3)[0], rtol=1e-8)


def run_many(case, ctx):
    """Tens of templates, of amplitudes over four decades, nearly parallel
    pairs among them and exact repetitions."""
    import pymaster as nmt
    from nmc.curved import HpSky
    s, it, nside = case["spin"], case["it"], case["nside"]
    n = 2 if s else 1
    sky = HpSky(nside, 2*nside, 2*nside)
    m = mask(ctx, sky.npix)
    W = np.tile(sky.w, n)
    rng = np.random.RandomState(ctx.seed+15)
    for nt in (8, 17, 33, 50, 70):
        T = rng.randn(nt, n, sky.npix)*10.**(-2*rng.rand(nt, 1, 1))
        T[1] = T[0]*0.5+T[1]*1e-2
        T[3] = T[2]
        T[4] = T[nt-1]-T[5]
        F = (T*m).reshape(nt, n*sky.npix)
        d = rng.randn(n, sky.npix)
        G = np.linalg.pinv((F*W) @ F.T, rcond=1e-11, hermitian=True)
        want = d*m-((G @ ((F*W) @ (d*m).ravel())) @ F).reshape(n, -1)
        for mi in (False, True):
            f = nmt.NmtField(m, d*m if mi else d, spin=s, n_iter=it,
                             templates=T*m if mi else T, masked_on_input=mi,
                             lmax=2*nside, lmax_mask=2*nside, tol_pinv=1e-11)
            ctx.close("many:maps", f.get_maps(), want, rtol=1e-7)
            ctx.close("many:alms", f.get_alms(), sky.m2a(want, s, n_iter=it),
                      rtol=1e-7)
            ctx.close("many:templates", f.get_templates(), T*m, rtol=1e-12)
            g = nmt.NmtField(m, (d*m if mi else d)+np.einsum(
                'i,ijk->jk', rng.randn(nt), T*m if mi else T), spin=s,
                n_iter=it, templates=T*m if mi else T, masked_on_input=mi,
                lmax=2*nside, lmax_mask=2*nside, tol_pinv=1e-11)
            ctx.close("many:invariance", g.get_maps(), want, rtol=1e-6)
            ctx.evaluated([nt, mi], want)


def run_tol(case, ctx):
    """Eigenvalues of the template products below the tolerance, and only
    those, are discarded: orthogonal templates of known norms."""
    import pymaster as nmt
    s, nside = case["spin"], case["nside"]
    n, npix = (2 if s else 1), 12*nside**2
    m = np.ones(npix)
    rng = np.random.RandomState(ctx.seed+25)
    Q = np.linalg.qr(rng.randn(n*npix, 6))[0].T
    d = rng.randn(n, npix)
    for tol in (1., 0.5, 1e-2, 1e-4, 1e-6, 1e-10):
        for nt in (1, 2, 6):
            for gap in (0.5, 2., 30.):
                # amplitudes a^2 = 1, then alternately above and below
                a = np.array([1.]+[np.sqrt(min(tol*(gap if i % 2 else 1/gap),
                                               1.)) for i in range(nt-1)])
                T = (a[:, None]*Q[:nt]).reshape(nt, n, npix)
                keep = a**2 > tol*1.1
                keep[0] = True
                if np.any((~keep) & (a**2 > tol*0.9)):
                    continue
                want = d.ravel()-(Q[:nt][keep] @ d.ravel()) @ Q[:nt][keep]
                f = nmt.NmtField(m, d, spin=s, n_iter=0, templates=T,
                                 tol_pinv=tol)
                ctx.close("tol:maps", f.get_maps(), want.reshape(n, npix),
                          rtol=1e-5 if tol < 1e-8 else 1e-8,
                          detail="tol %g amplitudes %s" % (tol, a.tolist()))
                ctx.evaluated([tol, nt, gap], want)


def geometry(name):
    """(Sky, wcs, shape, lmax, lmax_mask)"""
    from nmc.curved import Sky
    from nmc import lib as L
    if name.startswith("hp"):
        nside = int(name[2])
        lmax = {"hp2": 5, "hp2l4": 4, "hp4": 6}[name]
        lk = {"hp2": 5, "hp2l4": 5, "hp4": 7}[name]
        return (Sky.healpix(nside, lmax, lk), None, (12*nside**2,), lmax, lk)
    g = L.CarGrid(6, 8)
    return (Sky(g.theta, g.phi, g.w, 3, 3), g.wcs, g.shape, 3, 3)


def mask(ctx, n, k=0):
    rng = np.random.RandomState(ctx.seed*7+k)
    m = 0.2+rng.rand(n)
    m[rng.permutation(n)[:n//5]] = 0
    return m


def template_sets(rng, n, npix, m):
    sh = (n, npix)
    t1, t2, t3 = rng.randn(3, *sh)
    off = np.where(m > 0, 0., 1.)*rng.randn(*sh)
    return {"none": None, "one": [t1], "two": [t1, t2], "three": [t1, t2, t3],
            "dup": [t1, t1], "comb": [t1, t2, 2*t1-3*t2],
            "zero": [np.zeros(sh)], "zero+": [t1, np.zeros(sh)],
            "off": [off], "off+": [t2, off], "scaled": [1e3*t1, t2],
            "tiny": [1e-9*t1, 3e-9*t2], "huge": [1e9*t1, 2e9*t2],
            "tiny+": [1e-7*t1, 1e-7*(t1-2*t2), 1e-7*t2]}


def run(case, ctx):
    if case.get("t") == "big":
        return run_big(case, ctx)
    if case.get("t") in ("many", "tol"):
        return globals()["run_"+case["t"]](case, ctx)
    import pymaster as nmt
    sky, wcs, shape, lmax, lk = geometry(case["geo"])
    s, n, npix, it = case["spin"], (2 if case["spin"] else 1), sky.npix, \
        case["it"]
    m = mask(ctx, npix)
    rng = np.random.RandomState(ctx.seed+1)
    T = template_sets(rng, n, npix, m)[case["set"]]
    mi = bool(case["masked"])
    shp = lambda x: np.asarray(x).reshape(np.shape(x)[:-1]+tuple(shape))
    if T is not None:
        Tm = np.array(T)*m
        W = np.tile(sky.w, n)
        F = Tm.reshape(len(T), -1)
        G = np.linalg.pinv((F*W) @ F.T, rcond=1e-9, hermitian=True)
        Tin = Tm if mi else np.array(T)
    data = [rng.randn(n, npix)]
    for c in range(n):
        for p in range(npix):
            a = np.zeros((n, npix))
            a[c, p] = 1
            data.append(a)
    if ctx.tier == "quick" and case["geo"] != "hp2l4":
        data = data[:1]+data[1::3]

    def field(d, **kw):
        return nmt.NmtField(shp(m), shp(d*m if mi else d), spin=s, wcs=wcs,
                            templates=None if T is None else shp(Tin),
                            masked_on_input=mi, n_iter=it, lmax=lmax,
                            lmax_mask=lk, **kw)
    key = case["set"]
    for i, d in enumerate(data):
        want = d*m
        if T is not None:
            pr = (F*W) @ want.ravel()
            al = G @ pr
            want = want-(al @ F).reshape(n, npix)
        f = field(d)
        ctx.close("maps:"+key, f.get_maps(), want, rtol=1e-9, scale=1.)
        alm = sky.m2a(want, s, n_iter=it)
        sc = max(np.abs(alm).max(), 0.1)
        ctx.close("alms:"+key, f.get_alms(), alm, rtol=1e-9, scale=sc)
        fl = field(d, lite=True)
        ctx.close("lite:"+key, fl.get_alms(), alm, rtol=1e-9, scale=sc)
        ctx.evaluated([key, i], want, nontrivial=bool(np.any(want != 0)))
        if T is None:
            continue
        top = np.abs(F*W).sum(axis=1).max()
        ctx.close("orthogonal:"+key, (F*W) @ f.get_maps().ravel(),
                  np.zeros(len(T)), atol=1e-9*(
                      top if "tiny" in key else max(1., top)))
        ctx.close("templates:"+key, f.get_templates(), Tm, rtol=1e-12)
        if i < 4:
            sT = np.max(np.abs(T)) or 1.
            if key == "scaled":
                sT = 1.
            f2 = field(d+(0.7*np.array(T)[0]-1.3*np.array(T)[-1])/sT)
            ctx.close("invariance:"+key, f2.get_maps(), want, rtol=1e-8,
                      scale=10.)
            ctx.close("invariance:"+key, f2.get_alms(), alm, rtol=1e-8,
                      scale=10*sc)
            # fitted amplitudes reproduce what was removed
            rem = np.einsum('i,ijk->jk', f.alphas, Tm)
            ctx.close("alphas:"+key, rem, d*m-want, rtol=1e-8, scale=1.)
        if i < 2:
            ctx.raises("lite-access", fl.get_maps)
            ctx.raises("lite-access", fl.get_templates)
    # mask and its coefficients, mask-only fields
    f = field(data[0])
    am = sky.m2a(m[None], 0, lk, 3)[0]
    for q in (f, f, nmt.NmtField(shp(m), None, spin=s, wcs=wcs, lmax=lmax,
                                 lmax_mask=lk)):
        ctx.close("mask", q.get_mask(), m, rtol=1e-15)
        ctx.close("maskalm", q.get_mask_alms(), am, rtol=1e-10)
    ctx.raises("maskonly", q.get_maps)
    ctx.raises("maskonly", q.get_alms)
    b = nmt.NmtBin.from_edges([2], [lmax+1])
    M = [nmt.NmtWorkspace.from_fields(x, x, b).get_coupling_matrix()
         for x in (f, field(data[0], lite=True), q)]
    ctx.close("maskonly:mcm", M[1], M[0], rtol=1e-12)
    ctx.close("maskonly:mcm", M[2], M[0], rtol=1e-12)
