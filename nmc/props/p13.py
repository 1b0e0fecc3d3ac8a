"""P13: E/B purification on curved and flat skies."""
import numpy as np
from nmc.props.p10 import geometry, mask as cmask, template_sets
from nmc.props.p22 import GEOM, mask as fmask, bands

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: purified coefficients are bilinear "
             "in mask and map, so every pair of unit-impulse mask and "
             "unit-impulse map is run for every purification choice on small "
             "skies and compared with the defining operators; on "
             "exact-quadrature grids every E-mode impulse under every "
             "band-limited mask must have zero pure B (and vice versa)")
RULE = ("curved: every unit-impulse Q/U map x masks (generic and unit "
        "impulses) x purification choices x templates / masked on input / "
        "lite x (lmax, lmax_mask); flat: every (impulse mask, impulse map) "
        "on small grids; nulltest: every band-limited mask mode x every E "
        "or B sky mode. big: nside 32, 64 (thorough 128) and Fourier grids of "
        "thousands of pixels, weights over 12 decades. Maps and mask have "
        "different numbers of iterations. Non-trivial: purified differs from ordinary "
        "result.")
ASSUMES = ["at Nyquist frequencies the positive wavenumber is used"]
MIN_EVAL = 3000


def cases(tier, seed):
    T = (0, 1), (1, 0), (1, 1)
    for geo in ("hp2", "hp2l4", "car"):
        for task in T:
            for it in (0, 2):
                for k in range(3 if tier == "quick" else 12):
                    yield dict(t="curved", geo=geo, task=task, it=it, part=k,
                               of=3 if tier == "quick" else 12)
            for st in ("one", "two", "dup", "off+"):
                for masked in (0, 1):
                    yield dict(t="ctemp", geo=geo, task=task, set=st,
                               masked=masked)
    for nside, lmax, lk in [(32, 95, 70)] if tier == "quick" else \
            [(32, 95, 70), (32, 80, 95), (128, 300, 383), (64, 191, 150)]:
        for task in T:
            for it in (0, 2):
                yield dict(t="big", nside=nside, lmax=lmax, lk=lk, task=task,
                           it=it)
    if tier == "quick":
        yield dict(t="big", nside=64, lmax=191, lk=180, task=(1, 1), it=0)
        yield dict(t="big", nside=64, lmax=150, lk=191, task=(0, 1), it=1)
    for n in [(48, 35)] if tier == "quick" else [(48, 35), (61, 80)]:
        for geo in GEOM:
            yield dict(t="bigflat", n=n, geo=geo)
    gr = [(3, 5), (5, 3), (4, 3), (3, 4), (4, 4)]
    if tier != "quick":
        gr += [(5, 5), (7, 3), (2, 3), (6, 5), (1, 4), (5, 1)]
    for n in gr:
        for geo in GEOM:
            for task in T:
                yield dict(t="flat", n=n, geo=geo, task=task)
    for lmax, lk in ((3, 3), (4, 2), (2, 4)) if tier == "quick" else \
            ((3, 3), (4, 2), (2, 4), (4, 5), (5, 4), (6, 2)):
        yield dict(t="null", lmax=lmax, lk=lk)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def run_curved(case, ctx):
    import pymaster as nmt
    sky, wcs, shape, lmax, lk = geometry(case["geo"])
    npix, it, task = sky.npix, case["it"], case["task"]
    im = 1-it % 2            # the mask's own number of iterations
    shp = lambda x: np.asarray(x).reshape(np.shape(x)[:-1]+tuple(shape))
    masks = [cmask(ctx, npix), cmask(ctx, npix, 1)]
    for p in range(case["part"], npix, case["of"]*(
            5 if ctx.tier == "quick" else 1)):
        a = np.zeros(npix)
        a[p] = 1
        masks.append(a)
    rng = np.random.RandomState(ctx.seed+2)
    for j, m in enumerate(masks):
        am = sky.m2a(m[None], 0, lk, im)[0]
        step = (3 if j < 2 else 9) if ctx.tier == "quick" else \
            (1 if j < 2 else 4)
        for c in range(2):
            for p in range((case["part"]+j) % step, npix+step, step):
                a = np.zeros((2, npix))
                if p < npix:
                    a[c, p] = 1
                else:
                    a = rng.randn(2, npix)
                want = sky.pure(m, a, task, it, im, am)
                plain = sky.m2a(a*m, 2, n_iter=it)
                kw = dict(spin=2, wcs=wcs, purify_e=bool(task[0]),
                          purify_b=bool(task[1]), n_iter=it, n_iter_mask=im,
                          lmax=lmax, lmax_mask=lk)
                f = nmt.NmtField(shp(m), shp(a), **kw)
                sc = max(np.abs(am).max()*lk**2, 1e-3)
                ctx.close("curved:alms", f.get_alms(), want, rtol=1e-10,
                          scale=sc)
                ctx.close("curved:maps", f.get_maps(), sky.a2m(want, 2),
                          rtol=1e-10, scale=10*sc)
                for i in range(2):
                    if not task[i]:
                        ctx.close("curved:other", f.get_alms()[i], plain[i],
                                  rtol=1e-10, scale=sc)
                fl = nmt.NmtField(shp(m), shp(a), lite=True, **kw)
                ctx.close("curved:lite", fl.get_alms(), want, rtol=1e-10,
                          scale=sc)
                ctx.evaluated([j, c, p], nontrivial=bool(
                    np.abs(want-plain).max() > 1e-9))


def run_ctemp(case, ctx):
    import pymaster as nmt
    sky, wcs, shape, lmax, lk = geometry(case["geo"])
    npix, task, mi = sky.npix, case["task"], bool(case["masked"])
    shp = lambda x: np.asarray(x).reshape(np.shape(x)[:-1]+tuple(shape))
    m = cmask(ctx, npix)
    rng = np.random.RandomState(ctx.seed+3)
    T = np.array(template_sets(rng, 2, npix, m)[case["set"]])
    W = np.tile(sky.w, 2)
    F = (T*m).reshape(len(T), -1)
    G = np.linalg.pinv((F*W) @ F.T, rcond=1e-9, hermitian=True)
    Tu = np.where(m > 0, T, 0) if mi else T
    for i in range(12):
        d = rng.randn(2, npix)
        if i:
            d = np.zeros((2, npix))
            d[i % 2, rng.randint(npix)] = 1
        du = np.where(m > 0, d, 0) if mi else d
        al = G @ ((F*W) @ (d*m).ravel())
        u = du-np.einsum('i,ijk->jk', al, Tu)
        want = sky.pure(m, u, task, 1, 2)
        for lite in (False, True):
            f = nmt.NmtField(shp(m), shp(d*m if mi else d), spin=2, wcs=wcs,
                             templates=shp(T*m if mi else T),
                             purify_e=bool(task[0]), purify_b=bool(task[1]),
                             masked_on_input=mi, n_iter=1, n_iter_mask=2,
                             lmax=lmax, lmax_mask=lk, lite=lite)
            ctx.close("ctemp:alms", f.get_alms(), want, rtol=1e-9, scale=10.)
        f2 = nmt.NmtField(shp(m), shp((d+2*T[0])*m if mi else d+2*T[0]),
                          spin=2, wcs=wcs, templates=shp(T*m if mi else T),
                          purify_e=bool(task[0]), purify_b=bool(task[1]),
                          masked_on_input=mi, n_iter=1, n_iter_mask=2,
                          lmax=lmax, lmax_mask=lk)
        ctx.close("ctemp:invariance", f2.get_alms(), want, rtol=1e-8,
                  scale=20.)
        ctx.evaluated(i, want)


def run_big(case, ctx):
    import healpy as hp
    import pymaster as nmt
    from nmc.curved import HpSky
    task, it, lmax, lk = case["task"], case["it"], case["lmax"], case["lk"]
    im = 1-it % 2
    sky = HpSky(case["nside"], lmax, lk)
    rng = np.random.RandomState(ctx.seed+6)
    v = np.array(hp.pix2vec(case["nside"], np.arange(sky.npix)))
    kw = dict(spin=2, purify_e=bool(task[0]), purify_b=bool(task[1]),
              n_iter=it, n_iter_mask=im, lmax=lmax, lmax_mask=lk)
    for j in range(2):
        m = np.clip(v[j]+0.3, 0, 0.5)**2
        if j:
            m = m*(rng.rand(sky.npix) > 0.1)
        am = sky.m2a(m[None], 0, lk, im)[0]
        a = rng.randn(2, sky.npix)
        want = sky.pure(m, a, task, it, im, am)
        f = nmt.NmtField(m, a, **kw)
        ctx.close("big:alms", f.get_alms(), want, rtol=1e-8)
        ctx.close("big:maps", f.get_maps(), sky.a2m(want, 2), rtol=1e-8)
        fl = nmt.NmtField(m, a, lite=True, **kw)
        ctx.close("big:lite", fl.get_alms(), want, rtol=1e-8)
        plain = nmt.NmtField(m, a, spin=2, n_iter=it, lmax=lmax,
                             lmax_mask=lk).get_alms()
        for i in range(2):
            if not task[i]:
                ctx.close("big:other", f.get_alms()[i], plain[i], rtol=1e-9)
        ctx.evaluated(j, want)
        # masked on input, with weights of any magnitude; templates
        if j:
            m = m*10.**rng.randint(-9, 3, sky.npix)
        T = rng.randn(5, 2, sky.npix)
        T[3] = T[0]+T[1]
        F = (T*m).reshape(5, -1)
        W = np.tile(sky.w, 2)
        al = np.linalg.pinv((F*W) @ F.T, rcond=1e-9, hermitian=True) @ (
            (F*W) @ (a*m).ravel())
        for tt in (False, True):
            for mi in (False, True):
                u = a-np.einsum('i,ijk->jk', al, T) if tt else a
                if mi:
                    u = np.where(m > 0, u, 0)
                want = sky.pure(m, u, task, it, im)
                f = nmt.NmtField(m, a*m if mi else a, masked_on_input=mi,
                                 templates=None if not tt else
                                 T*m if mi else T, **kw)
                ctx.close("big:masked" if mi else "big:temp", f.get_alms(),
                          want, rtol=1e-7)
                ctx.evaluated([j, tt, mi], want)


def run_bigflat(case, ctx):
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    rng = np.random.RandomState(ctx.seed+7)
    x, y = np.meshgrid(np.linspace(0, 1, g.nx), np.linspace(0, 1, g.ny))
    smooth = np.sin(np.pi*x)**2*np.sin(np.pi*y)
    # Nyquist modes have no sign: keep the masks free of them
    c = g.conj_extend(g.ft(smooth))
    c[g.nyq] = 0
    for m in (g.ift(c).real, fmask(ctx, g)):
        for task in ((0, 1), (1, 0), (1, 1)):
            a = rng.randn(2, g.ny, g.nx)
            want = g.pure(m, a, *task)
            f = nmt.NmtFieldFlat(g.lx, g.ly, m, a, spin=2,
                                 purify_e=bool(task[0]),
                                 purify_b=bool(task[1]))
            ctx.close("bigflat:maps", f.get_maps(), g.synth(want, 2),
                      rtol=1e-9)
            w = m*10.**rng.randint(-9, 3, m.shape)
            want = g.pure(w, np.where(w > 0, a, 0), *task)
            f = nmt.NmtFieldFlat(g.lx, g.ly, w, a*w, spin=2,
                                 masked_on_input=True,
                                 purify_e=bool(task[0]),
                                 purify_b=bool(task[1]))
            ctx.close("bigflat:masked", f.get_maps(), g.synth(want, 2),
                      rtol=1e-9)
            ctx.evaluated([task], want)


def run_flat(case, ctx):
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    task = case["task"]
    N = g.nx*g.ny
    rng = np.random.RandomState(ctx.seed+4)
    kw = dict(spin=2, purify_e=bool(task[0]), purify_b=bool(task[1]))
    # a field whose coefficients are all the same selects the coefficients
    probe = np.zeros((1, g.ny, g.nx))
    probe[0, 0, 0] = 1
    fp = nmt.NmtFieldFlat(g.lx, g.ly, np.ones((g.ny, g.nx)), probe, spin=0)
    cp = g.anal(probe, 0)
    l0, lf = bands(g, "lin")
    b = nmt.NmtBinFlat(l0, lf)
    masks = []
    for p in range(N):
        a = np.zeros(N)
        a[p] = 1
        masks.append(a.reshape(g.ny, g.nx))
    masks.append(fmask(ctx, g))
    full = len(masks)*2*N < 1000 or ctx.tier != "quick"
    sc = g.k.max()**2/max(g.k[g.k > 0].min(), 1e-3)**2
    for j, m in enumerate(masks):
        for q in range(0 if full else j % 3, 2*N+1, 1 if full else 3):
            a = np.zeros((2, N))
            if q < 2*N:
                a[q // N, q % N] = 1
            else:
                a = rng.randn(2, N)
            a = a.reshape(2, g.ny, g.nx)
            want = g.pure(m, a, *task)
            plain = g.anal(m*a, 2)
            f = nmt.NmtFieldFlat(g.lx, g.ly, m, a, **kw)
            ctx.close("flat:maps", f.get_maps(), g.synth(want, 2), rtol=1e-11,
                      scale=sc)
            w = g.pcl(want, cp, l0, lf)
            for x in (f, nmt.NmtFieldFlat(g.lx, g.ly, m, a, lite=True, **kw)):
                ctx.close("flat:pcl", nmt.compute_coupled_cell_flat(x, fp, b),
                          w, rtol=1e-11, scale=sc)
            if (task[0] == 0) != (task[1] == 0):
                i = 0 if task[0] == 0 else 1
                f0 = nmt.NmtFieldFlat(g.lx, g.ly, m, a, spin=2)
                ctx.close("flat:other", nmt.compute_coupled_cell_flat(
                    f, fp, b)[i], nmt.compute_coupled_cell_flat(
                        f0, fp, b)[i], rtol=1e-11, scale=sc)
            if j == len(masks)-1:     # masked on input
                good = m > 0
                au = np.where(good, a, 0)
                f = nmt.NmtFieldFlat(g.lx, g.ly, m, a*m,
                                     masked_on_input=True, **kw)
                ctx.close("flat:masked", f.get_maps(), g.synth(
                    g.pure(m, au, *task), 2), rtol=1e-11, scale=10*sc)
            ctx.evaluated([j, q], nontrivial=bool(
                np.abs(want-plain).max() > 1e-9))


def run_null(case, ctx):
    """E-only (B-only) skies under band-limited masks: no pure B (E)."""
    import pymaster as nmt
    from nmc import lib as L
    lmax, lk = case["lmax"], case["lk"]
    deg = 2*lmax+lk
    g = L.CarGrid(deg+2+deg % 2, deg+2+deg % 2)
    sht = g.sht(lmax)
    lm = sht.lm
    for ml in range(lk+1):
        for mm in range(-ml, ml+1):
            m = L.real_ylm(ml, mm, g.theta, g.phi)
            if ctx.tier == "quick" and (ml+mm) % 2 and ml > 1:
                continue
            for i, (l, em) in enumerate(lm):
                if l < 2:
                    continue
                for part in (1., 1j):
                    if part == 1j and em == 0:
                        continue
                    for c in range(2):
                        alm = np.zeros((2, len(lm)), complex)
                        alm[c, i] = part
                        mp = sht.synth(alm, 2)
                        f = nmt.NmtField(
                            m.reshape(g.shape),
                            mp.reshape((2,)+tuple(g.shape)), spin=2,
                            wcs=g.wcs, purify_e=True, purify_b=True,
                            lmax=lmax, lmax_mask=lk, n_iter=0, n_iter_mask=0)
                        a = f.get_alms()
                        ctx.close("null", a[1-c], 0*a[1-c], atol=1e-10,
                                  detail="mask (%d,%d) sky (%d,%d) comp %d" % (
                                      ml, mm, l, em, c))
                        ctx.evaluated([ml, mm, l, em, part == 1j, c], a[c],
                                      nontrivial=bool(np.abs(a[c]).max()
                                                      > 1e-6))
