"""P15: HEALPix mask apodisation against its definition."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every single hole, pair of holes, "
             "single unmasked pixel and band-shaped hole at small resolution, "
             "for every scale and type in the bound, compared with "
             "brute-force angular distances (C1, C2) or with explicit "
             "harmonic smoothing (Smooth)")
RULE = ("nside 1..4 (thorough ..16): every single-pixel hole, every pair of "
        "holes (nside<=2), every single unmasked pixel, unions of rings, "
        "empty, full, non-binary masks x scales from far below a pixel to "
        "180 degrees x C1/C2/Smooth. Scales may be refused only below a "
        "pixel. big, bigsmooth: up to nside 256, few holes, against a tree "
        "search and healpy's transforms. Non-trivial: output differs from the input.")
ASSUMES = ["Smooth: pixels whose centre is within 2.5 theta* must be masked, "
           "those beyond 2.5 theta* + 2 pixel sizes must not; in between the "
           "pixel may or may not overlap the disc",
           "Smooth at nside 1 is refused (limitation of the geometry class)"]
MIN_EVAL = 20000

SC = [0.01, 1., 3.3, 7.1, 11.7, 14.3, 18.9, 26.1, 33.3, 47.9, 61.3, 77.7,
      101.3, 123.1, 149.3, 151.9, 167.1, 180.]


def cases(tier, seed):
    for ns in (1, 2, 4, 8) if tier == "quick" else (1, 2, 4, 8, 16):
        for typ in ("C1", "C2"):
            for a in (SC if ns < 8 or tier != "quick" else SC[3::3]):
                if ns >= 8:
                    for part in range(8 if ns == 16 else 1):
                        yield dict(t="cx", ns=ns, typ=typ, a=a, part=part,
                                   parts=8 if ns == 16 else 1)
                else:
                    yield dict(t="cx", ns=ns, typ=typ, a=a)
    for ns in (64,) if tier == "quick" else (64, 32, 128):
        for typ in ("C1", "C2"):
            for a in (0.7, 1.9, 6.3, 25.):
                yield dict(t="big", ns=ns, typ=typ, a=a)
    for ns, a in [(64, 0.9), (64, 1.9), (32, 4.), (128, 0.13), (256, 0.06)] + (
            [] if tier == "quick" else [(128, 0.9), (128, 0.4), (32, 1.9)]):
        yield dict(t="bigsmooth", ns=ns, a=a)
    for ns in (2, 4) if tier == "quick" else (2, 4, 8):
        for a in (0.2, 3.7, 9.1, 13.3, 17.9, 29., 45., 71.9, 90., 140., 180.):
            yield dict(t="smooth", ns=ns, a=a)


def geom(ns):
    import healpy as hp
    v = np.array(hp.pix2vec(ns, np.arange(12*ns**2))).T
    return v, np.clip(v @ v.T, -1, 1)


def masks_of(ns, ctx, part=None, parts=1):
    import healpy as hp
    N = 12*ns**2
    rng = np.random.RandomState(ctx.seed)
    vals = 0.2+rng.rand(N)
    for p in range(N):
        if part is not None and p % parts != part:
            continue
        if ns == 8 and ctx.tier == "quick" and p % 5:
            continue
        m = np.full(N, 0.7)
        m[p] = 0
        yield "hole%d" % p, m
        if ns <= 4:
            yield "only%d" % p, (m == 0)*vals
            yield "val%d" % p, np.where(m == 0, 0, vals)
    if part:
        return
    if ns <= 2:
        for p, q in itertools.combinations(range(N), 2):
            m = vals.copy()
            m[[p, q]] = 0
            yield "pair%d,%d" % (p, q), m
    z = np.round(hp.pix2vec(ns, np.arange(N))[2], 9)
    for i, x in enumerate(np.unique(z)):
        yield "cap%d" % i, np.where(z <= x, 0, vals)
        yield "ring%d" % i, np.where(z == x, 0, vals)
    yield "full", np.ones(N)
    yield "empty", np.zeros(N)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def run_big(case, ctx):
    """Survey-like masks at a resolution used in practice."""
    import healpy as hp
    import pymaster as nmt
    from scipy.spatial import cKDTree
    ns, typ, a = case["ns"], case["typ"], case["a"]
    npix = 12*ns**2
    v = np.array(hp.pix2vec(ns, np.arange(npix))).T
    rng = np.random.RandomState(ctx.seed+15)
    lo = np.degrees(np.arcsin(v[:, 2]))
    stars = np.zeros(npix, bool)
    stars[rng.permutation(npix)[:npix//400]] = True
    for name, zero in (("galaxy", np.abs(lo) < 20), ("stars", stars),
                       ("patch", v @ np.array([0.6, 0., 0.8]) < 0.8),
                       ("caps", np.abs(lo) > 40),
                       ("one", np.arange(npix) == npix//3)):
        m = np.where(zero, 0, 1+0.3*rng.rand(npix))
        m[zero & (rng.rand(npix) < 0.3)] = -0.1*(name == "caps")
        d = cKDTree(v[m <= 0]).query(v)[0]        # chord
        x = np.sqrt(0.5*d**2/(1-np.cos(np.radians(a))))
        f = x-np.sin(2*np.pi*x)/(2*np.pi) if typ == "C1" else \
            0.5*(1-np.cos(np.pi*x))
        want = m*np.where(m <= 0, 1, np.where(x < 1, f, 1))
        got = nmt.mask_apodization(m, a, apotype=typ)
        # zeros in, zeros out; negative values count as zero
        want, got = np.where(m <= 0, 0, want), np.where(m < 0, 0, got)
        ctx.close("big:"+typ, got, want, rtol=0, atol=1e-8, detail="%s a=%g"
                  % (name, a))
        ctx.evaluated([name], got)


def run_bigsmooth(case, ctx):
    """Smoothing at practical resolutions, few masked pixels."""
    import healpy as hp
    import pymaster as nmt
    ns, a = case["ns"], case["a"]
    npix, lmax = 12*ns**2, 3*ns-1
    v = np.array(hp.pix2vec(ns, np.arange(npix))).T
    pixel = np.degrees(np.sqrt(4*np.pi/npix))
    l = np.arange(lmax+1)
    beam = np.exp(-0.5*l*(l+1.)*np.radians(a)**2)
    rng = np.random.RandomState(ctx.seed+16)

    def K(x):
        al = hp.map2alm(x, lmax=lmax, iter=3)
        return hp.alm2map(hp.almxfl(al, beam), ns, lmax=lmax)
    for zs in ([npix//3], [5, npix-1], [npix//2+3])[:1 if ns > 128 else 3]:
        m = 0.2+rng.rand(npix)
        m[zs] = 0
        got = nmt.mask_apodization(m, a, apotype="Smooth")
        d = np.degrees(np.arccos(np.clip(v @ v[zs].T, -1, 1))).min(axis=1)
        keep = d > 2.5*a+2*pixel
        maybe = np.where((d > 2.5*a-1e-6) & ~keep)[0]
        ok = m > 0
        # only where the undecided pixels matter
        near = ok & (d < 6*a+4*pixel)
        base = m*K(m*keep)
        sc = np.abs(got).max()
        G = np.zeros((near.sum(), len(maybe)))
        for i, q in enumerate(maybe):
            e = np.zeros(npix)
            e[q] = m[q]
            G[:, i] = (m*K(e))[near]
        res = (got-base)[near]
        q = np.linalg.lstsq(G, res, rcond=1e-9)[0]
        res = res-G @ q
        ctx.check(np.all(np.abs(res) <= 1e-7*sc), "Smooth:big", lambda:
                  "%s a=%g residual %g of %g" % (zs, a, np.abs(res).max(),
                                                 sc))
        e = np.zeros(npix)
        e[maybe] = m[maybe]*q
        far = got-base-m*K(e)
        ctx.check(np.all(np.abs(far[ok]) <= 1e-6*sc), "Smooth:bigfar",
                  lambda: "%s a=%g residual %g of %g" % (
                      zs, a, np.abs(far[ok]).max(), sc))
        ctx.check(not np.any(got[zs]), "Smooth:zeros")
        ctx.evaluated(zs, got)


def run_cx(case, ctx):
    import pymaster as nmt
    ns, typ, a = case["ns"], case["typ"], case["a"]
    v, c = geom(ns)
    pixel = np.degrees(np.sqrt(4*np.pi/(12*ns**2)))
    for name, m in masks_of(ns, ctx, case.get("part"),
                            case.get("parts", 1)):
        m0 = m.copy()
        try:
            got = nmt.mask_apodization(m, a, apotype=typ)
        except RuntimeError as e:
            if not ctx.check(a < 0.5*pixel, typ+":refused",
                             "%s a=%g: %s" % (name, a, e)):
                return
            ctx.evaluated([name, "refused"], nontrivial=False)
            continue
        zero = m <= 0
        want = m.copy()
        if zero.any():
            x = np.sqrt(np.maximum(1-c[:, zero].max(axis=1), 0) /
                        (1-np.cos(np.radians(a))))
            if typ == "C1":
                f = x-np.sin(2*np.pi*x)/(2*np.pi)
            else:
                f = 0.5*(1-np.cos(np.pi*x))
            want = m*np.where(zero, 1, np.where(x < 1, f, 1))
        ctx.close(typ, got, want, rtol=0, atol=1e-9, detail="%s a=%g" % (
            name, a))
        ctx.check(np.array_equal(m, m0), "input-modified", name)
        ctx.check(not np.any(got[zero]), typ+":zeros", name)
        ctx.check(np.all(got <= m), typ+":grows", name)
        ctx.evaluated(name, got, nontrivial=not np.array_equal(got, m))
    if case.get("part"):
        return
    one = np.ones(12*ns**2)
    ctx.check(np.array_equal(nmt.mask_apodization(one, 0., apotype=typ),
                             one), "zero-scale")
    ctx.raises("negative", lambda: nmt.mask_apodization(one, -1.,
                                                        apotype=typ))
    ctx.raises("type", lambda: nmt.mask_apodization(one, a, apotype="C3"))


def run_smooth(case, ctx):
    import pymaster as nmt
    from nmc.curved import Sky
    ns, a = case["ns"], case["a"]
    lmax = 3*ns-1
    v, c = geom(ns)
    ang = np.degrees(np.arccos(c))
    pixel = np.degrees(np.sqrt(4*np.pi/(12*ns**2)))
    S = Sky.healpix(ns, lmax)
    A, B, _, _ = S._mats(0, lmax)
    l = S.l_of(lmax)
    beam = np.exp(-0.5*l*(l+1.)*np.radians(a)**2)
    I = np.eye(len(v))
    K = A.copy()
    for _ in range(3):
        K = K-A @ ((B @ K).real-I)
    K = (B @ (beam[:, None]*K)).real
    import itertools as it
    for name, m in it.islice(masks_of(ns, ctx), 0, None, 1 if ns == 2 else
                             (2 if ns == 4 else 9)):
        m0 = m.copy()
        try:
            got = nmt.mask_apodization(m, a, apotype="Smooth")
        except RuntimeError as e:
            if not ctx.check(a < 0.5*pixel, "Smooth:refused",
                             "%s a=%g: %s" % (name, a, e)):
                return
            ctx.evaluated([name, "refused"], nontrivial=False)
            continue
        zero = m <= 0
        ctx.check(np.array_equal(m, m0), "input-modified", name)
        ctx.check(not np.any(got[zero]), "Smooth:zeros", name)
        d = ang[:, zero].min(axis=1) if zero.any() else np.full(len(m), 999.)
        tie = np.abs(d-2.5*a) < 1e-6
        keep = d > 2.5*a+2*pixel
        maybe = ((d > 2.5*a) | tie) & ~keep
        ok = ~zero
        res = got[ok]-m[ok]*(K[ok] @ (m*keep))
        sc = max(np.abs(got).max(), np.abs(K @ m).max(), 1e-12)
        if maybe.any() and ok.any():
            # which of the undecided pixels were masked must be 0 or 1
            G = m[ok][:, None]*K[np.ix_(ok, maybe)]*m[maybe][None]
            q, _, rk, sv = np.linalg.lstsq(G, res, rcond=1e-9)
            full = sv[-1] > 1e-4*sc
            if full:
                ctx.check(np.all(np.minimum(np.abs(q), np.abs(q-1)) < 1e-6),
                          "Smooth:partial", "%s a=%g %s" % (name, a, q))
                q = np.round(q)
            res = res-G @ q
        else:
            full = True
        ctx.check(np.all(np.abs(res) <= 1e-8*sc), "Smooth",
                  lambda: "%s a=%g residual %g of %g" % (
                      name, a, np.abs(res).max(), sc))
        ctx.evaluated(name, got, nontrivial=not np.array_equal(got, m))
        ctx.add("discs_resolved", int(full))
