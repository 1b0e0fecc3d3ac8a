"""P22: flat-sky fields and pseudo-spectra against explicit Fourier sums."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the pseudo-spectrum is bilinear in "
             "the two maps, so every pair of unit-impulse maps is run for "
             "every spin pair, grid parity, aspect ratio, band layout and "
             "Fourier cut in the bound and compared with explicit Fourier "
             "sums; deprojection likewise on every impulse and template set")
RULE = ("pcl: every pair of unit-impulse maps (every pixel and component) "
        "on small odd/even, square/non-square grids x all spin pairs x cuts "
        "x band layouts; temp: every impulse map x template sets (none, "
        "one, two, duplicated, combinations, vanishing, disjoint from the "
        "mask) x masked_on_input x lite; maps, templates and spectra "
        "compared with the definition.larger grids likewise. Non-trivial: "
        "expected spectrum not identically 0.")
ASSUMES = ["multipole bands increasing and non-overlapping",
           "at Nyquist frequencies the positive wavenumber is used"]
MIN_EVAL = 20000

L2P = 2*np.pi
GEOM = {"sq": (L2P, L2P), "wide": (L2P, np.pi*0.83), "tall": (np.pi*0.71,
                                                             L2P)}
SPINS = [(0, 0), (0, 2), (2, 0), (2, 2), (0, 1), (1, 1), (1, 2), (3, 2)]
BIGSPINS = [(5, 0), (7, 4), (12, 12)]
CUTS = {"none": ((1., -1.), (1., -1.)), "x": ((-0.6, 0.6), (1., -1.)),
        "y": ((1., -1.), (-1.2, 1.2)), "asym": ((0.5, 9.), (-9., -0.5)),
        "half": ((1., -1.), (0.5, 99.)), "all": ((-99., 99.), (1., -1.)),
        "dc": ((0., 0.), (0., 0.))}


def bands(g, kind):
    """Edges adapted to the modes present (half-open, increasing)."""
    m = g.k.max()
    if kind == "all":
        return np.array([0.]), np.array([m*1.1])
    if kind == "lin":
        e = np.linspace(0.3*g.dell, m*0.98, 4)
        return e[:-1], e[1:]
    if kind == "gap":
        return (np.array([0., 0.31, 0.62])*m, np.array([0.22, 0.5, 1.7])*m)
    if kind == "exact":   # edges exactly on modes (k=1, 2); last band beyond
        return np.array([1., 2., 2*m+2]), np.array([2., m+1, 3*m+3])


def cases(tier, seed):
    grids = [(4, 3), (3, 4), (5, 3), (4, 4)] if tier == "quick" else \
        [(4, 3), (3, 4), (5, 3), (4, 4), (2, 2), (1, 4), (4, 1), (6, 4),
         (5, 5), (7, 3), (3, 6)]
    for g in grids:
        for geo in GEOM:
            for sp in SPINS:
                for bk in ("all", "lin", "gap", "exact"):
                    yield dict(t="pcl", n=g, geo=geo, spins=sp, bands=bk)
    for g in [(48, 35), (37, 64)] if tier == "quick" else \
            [(48, 35), (37, 64), (128, 90), (101, 77)]:
        for geo in GEOM:
            yield dict(t="big", n=g, geo=geo)
    yield dict(t="big", n=(101, 77), geo="wide")
    for g in [(75, 61)] if tier == "quick" else [(75, 61), (131, 90)]:
        for sp in (0, 1, 2, 6):
            yield dict(t="many", n=g, geo="tall", spin=sp)
    for g in [(4, 3), (5, 3), (3, 5)]:
        for sp in (0, 1, 2):
            for mi in (0, 1):
                yield dict(t="temp", n=g, geo="wide", spin=sp, masked=mi)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def mask(ctx, g, k=0):
    rng = np.random.RandomState(ctx.seed*10+k+1)
    m = 0.3+rng.rand(g.ny, g.nx)
    if m.size > 6:
        m.ravel()[rng.randint(m.size)] = 0
    return m


def impulses(g, s):
    n = 2 if s else 1
    out = []
    for c in range(n):
        for p in range(g.nx*g.ny):
            a = np.zeros((n, g.nx*g.ny))
            a[c, p] = 1
            out.append(a.reshape(n, g.ny, g.nx))
    return out


def run_pcl(case, ctx):
    import pymaster as nmt
    from nmc.flat import Grid
    nx, ny = case["n"]
    lx, ly = GEOM[case["geo"]]
    g = Grid(nx, ny, lx, ly)
    s1, s2 = case["spins"]
    m1, m2 = mask(ctx, g, 0), mask(ctx, g, 1)
    l0, lf = bands(g, case["bands"])
    b = nmt.NmtBinFlat(l0, lf)
    i1, i2 = impulses(g, s1), impulses(g, s2)
    f1 = [nmt.NmtFieldFlat(lx, ly, m1, m, spin=s1) for m in i1]
    f2 = [nmt.NmtFieldFlat(lx, ly, m2, m, spin=s2) for m in i2]
    A1 = np.array([g.anal(m*m1, s1) for m in i1])
    A2 = np.array([g.anal(m*m2, s2) for m in i2])
    ib0 = g.bands(l0, lf)
    sc = np.abs(A1).max()*np.abs(A2).max()*4*np.pi**2/(lx*ly)
    for cn, (cx, cy) in CUTS.items():
        ib = np.where(g.cut(cx, cy), -1, ib0)
        want = np.zeros((len(i1), len(i2), A1.shape[1], A2.shape[1], len(l0)))
        for z in range(len(l0)):
            k = ib == z
            if k.any():
                want[..., z] = np.einsum(
                    'aim,bjm->abij', A1[:, :, k],
                    A2[:, :, k].conj()).real/k.sum()
        want = want.reshape(len(i1), len(i2), -1, len(l0))*4*np.pi**2/(lx*ly)
        for i, a in enumerate(f1):
            for j, c in enumerate(f2):
                got = nmt.compute_coupled_cell_flat(
                    a, c, b, ell_cut_x=list(cx), ell_cut_y=list(cy))
                if not ctx.close("pcl", got, want[i, j], rtol=1e-11,
                                 scale=sc,
                                 detail="cut %s impulses %d %d" % (cn, i, j)):
                    return
                ctx.evaluated([cn, i, j], nontrivial=bool(
                    np.any(np.abs(want[i, j]) > 1e-12*sc)))
    ctx.close("mask", f1[0].get_mask(), m1, rtol=1e-15)
    e = f1[0].get_ell_sampling()
    ctx.check(len(e) == g.n_ell and np.allclose(
        e, (np.arange(g.n_ell)+0.5)*g.dell),
              "ell-sampling", str(e))


def run_big(case, ctx):
    """Patches with many modes, many narrow bands, some without modes."""
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    rng = np.random.RandomState(ctx.seed+78)
    m1, m2 = mask(ctx, g, 0), mask(ctx, g, 1)
    e = np.sort(rng.rand(61))*g.k.max()*1.1
    sets = [(e[:-1], e[1:]), (e[:-1:3], e[1::3]), bands(g, "all"),
            (np.arange(g.n_ell)*g.dell, (1.+np.arange(g.n_ell))*g.dell)]
    q = 0.31*g.k.max()
    cuts = list(CUTS.values())+[((-0.2*q, 0.1*q), (-q, 0.03*q))]
    for s1, s2 in SPINS+BIGSPINS:
        a = rng.randn(2 if s1 else 1, g.ny, g.nx)
        c = rng.randn(2 if s2 else 1, g.ny, g.nx)
        fa = nmt.NmtFieldFlat(g.lx, g.ly, m1, a, spin=s1)
        fc = nmt.NmtFieldFlat(g.lx, g.ly, m2, c, spin=s2)
        A, C = g.anal(a*m1, s1), g.anal(c*m2, s2)
        for i, (l0, lf) in enumerate(sets):
            # edges a rounding away from a mode are nobody's business
            if i == 3:
                near = np.abs(g.k[..., None]/np.append(l0, lf[-1])-1)
                ok = ~np.any((near < 1e-9) & (near > 0))
                if not ok:
                    l0, lf = l0+1e-6*g.dell, lf+1e-6*g.dell
            b = nmt.NmtBinFlat(l0, lf)
            for cx, cy in cuts:
                want = g.pcl(A, C, l0, lf, cx, cy)
                got = nmt.compute_coupled_cell_flat(
                    fa, fc, b, ell_cut_x=list(cx), ell_cut_y=list(cy))
                ctx.close("big", got, want, rtol=1e-11, scale=np.abs(
                    A).max()*np.abs(C).max()*4*np.pi**2/(g.lx*g.ly),
                    detail="%d %d bands %d" % (s1, s2, i))
                ctx.evaluated([s1, s2, i, cx, cy], want)


def run_many(case, ctx):
    """Thousands of pixels and tens of templates."""
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    s = case["spin"]
    n = 2 if s else 1
    rng = np.random.RandomState(ctx.seed+79)
    m = mask(ctx, g, 5)
    mp = rng.randn(n, g.ny, g.nx)
    l0, lf = bands(g, "lin")
    b = nmt.NmtBinFlat(l0, lf)
    for nt in (0, 1, 9, 33, 70):
        for mi in (0, 1):
            T = rng.randn(nt, n, g.ny, g.nx)
            Tm = T*m
            want = mp*m
            if nt:
                F = Tm.reshape(nt, -1)
                want = want-(np.linalg.solve(F @ F.T, F @ want.ravel())
                             @ F).reshape(want.shape)
            f = nmt.NmtFieldFlat(g.lx, g.ly, m, mp*m if mi else mp, spin=s,
                                 templates=(Tm if mi else T) if nt else None,
                                 masked_on_input=bool(mi))
            ctx.close("many:maps", f.get_maps(), want, rtol=1e-9, scale=1.,
                      detail="%d templates" % nt)
            if nt:
                ctx.close("many:templates", f.get_templates(), Tm,
                          rtol=1e-13)
            w = g.anal(want, s)
            ctx.close("many:pcl", nmt.compute_coupled_cell_flat(f, f, b),
                      g.pcl(w, w, l0, lf), rtol=1e-9)
            ctx.evaluated([nt, mi], want)


def template_sets(rng, n, g, m):
    sh = (n, g.ny, g.nx)
    t1, t2, t3 = rng.randn(*sh), rng.randn(*sh), rng.randn(*sh)
    off = np.where(m > 0, 0., 1.)*rng.randn(*sh)
    return {"none": None, "one": [t1], "two": [t1, t2], "dup": [t1, t1],
            "comb": [t1, t2, 2*t1-3*t2], "zero": [np.zeros(sh)],
            "zero+": [t1, np.zeros(sh)], "off": [off], "three": [t1, t2, t3],
            "scaled": [1e4*t1, t2]}


def run_temp(case, ctx):
    import pymaster as nmt
    from nmc.flat import Grid
    nx, ny = case["n"]
    lx, ly = GEOM[case["geo"]]
    g = Grid(nx, ny, lx, ly)
    s, mi = case["spin"], bool(case["masked"])
    n = 2 if s else 1
    m = mask(ctx, g, 3)
    rng = np.random.RandomState(ctx.seed+77)
    l0, lf = bands(g, "gap")
    b = nmt.NmtBinFlat(l0, lf)
    maps = impulses(g, s)+[rng.randn(n, ny, nx)]
    other = nmt.NmtFieldFlat(lx, ly, mask(ctx, g, 4), rng.randn(n, ny, nx),
                             spin=s)
    for name, T in template_sets(rng, n, g, m).items():
        if T is not None:
            Tm = np.array([t if mi else t*m for t in T])
            Tin = np.array(T)
            if mi:      # already masked on input
                Tm = Tm*m
                Tin = Tin*m
            F = Tm.reshape(len(T), -1)
            G = np.linalg.pinv(F @ F.T, rcond=1e-10, hermitian=True)
        for i, mp in enumerate(maps):
            dat = mp*m
            want = dat
            if T is not None:
                al = G @ (F @ dat.ravel())
                want = dat-(al @ F).reshape(dat.shape)
            f = nmt.NmtFieldFlat(lx, ly, m, dat if mi else mp, spin=s,
                                 templates=None if T is None else Tin,
                                 masked_on_input=mi)
            key = "deproj:"+name
            ctx.close(key, f.get_maps(), want, rtol=1e-8, scale=1.,
                      detail="maps")
            if T is not None:
                ctx.close(key, f.get_templates(), Tm, rtol=1e-12,
                          detail="templates")
                ctx.close("orthogonal:"+name, F @ f.get_maps().ravel(),
                          np.zeros(len(T)), atol=1e-7*np.max(
                              np.abs(F)+1e-30))
            else:
                ctx.check(len(f.get_templates()) == 0, key, "templates")
            fl = nmt.NmtFieldFlat(lx, ly, m, dat if mi else mp, spin=s,
                                  templates=None if T is None else Tin,
                                  masked_on_input=mi, lite=True)
            for x in (fl.get_maps, fl.get_templates):
                ctx.raises("lite-access", x)
            w = g.pcl(g.anal(want, s), g.anal(other.get_maps(), s), l0, lf)
            for q in (f, fl):
                ctx.close("pcl:"+name, nmt.compute_coupled_cell_flat(
                    q, other, b), w, rtol=1e-8, scale=max(
                        np.abs(w).max(), 1e-6))
            ctx.evaluated([name, i], want)
            if T is not None and name in ("one", "two") and i % 3 == 0:
                # data with any template admixture gives the same field
                f2 = nmt.NmtFieldFlat(
                    lx, ly, m, (dat if mi else mp)+1.7*Tin[0]-0.4*Tin[-1],
                    spin=s, templates=Tin, masked_on_input=mi)
                ctx.close("invariance:"+name, f2.get_maps(), want, rtol=1e-8,
                          scale=1.)
    f0 = nmt.NmtFieldFlat(lx, ly, m, None, spin=s)
    ctx.close("maskonly", f0.get_mask(), m, rtol=1e-15)
    ctx.raises("maskonly-maps", f0.get_maps)
    ctx.raises("maskonly-pcl", lambda: nmt.compute_coupled_cell_flat(
        f0, other, b))
