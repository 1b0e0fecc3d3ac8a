"""P16: flat-sky mask apodisation against its definition."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every binary mask on tiny grids and "
             "every one- and two-pixel hole on larger ones, for every aspect "
             "ratio, scale and type in the bound, compared with a brute-force "
             "nearest-zero distance (C1, C2) or explicit Fourier smoothing "
             "(Smooth)")
RULE = ("all binary masks on grids of up to 9 pixels, every single-pixel "
        "and pair of holes and every single unmasked pixel on larger grids, "
        "non-binary values x square/wide/tall pixels x scales below a pixel "
        "to beyond the patch (and 0) x C1/C2/Smooth.large: patches of "
        "thousands of pixels. Non-trivial: output differs from the input.")
ASSUMES = ["Smooth: the Gaussian is tabulated by the library to about 1e-4 "
           "of its maximum and cut at 5 sigma; 1e-3 tolerance"]
MIN_EVAL = 20000

D = np.pi/180
# pixel sizes in degrees (dx, dy)
PIX = {"sq": (1., 1.), "wide": (2., 0.7), "tall": (0.6, 1.7),
       "thin": (0.25, 3.1)}


def cases(tier, seed):
    tiny = [(3, 2), (1, 6), (5, 1), (2, 4)]
    if tier != "quick":
        tiny += [(3, 3), (4, 2), (1, 1), (1, 9), (2, 5), (5, 2)]
    for n in tiny:
        for px in PIX:
            for typ in ("C1", "C2", "Smooth"):
                yield dict(t="all", n=n, px=px, typ=typ)
    big = [(9, 8), (8, 11)] if tier == "quick" else \
        [(9, 8), (8, 11), (13, 12), (16, 5), (5, 17)]
    for n in [(47, 36)] if tier == "quick" else [(47, 36), (60, 71)]:
        for px in PIX:
            for typ in ("C1", "C2", "Smooth"):
                yield dict(t="large", n=n, px=px, typ=typ)
    for n in [(161, 110)] if tier == "quick" else [(161, 110), (140, 277)]:
        for px in PIX:
            for typ in ("C1", "C2", "Smooth"):
                yield dict(t="huge", n=n, px=px, typ=typ)
    for n in big:
        for px in PIX:
            for typ in ("C1", "C2", "Smooth"):
                yield dict(t="holes", n=n, px=px, typ=typ)


def scales(px):
    """Distances between pixels are avoided as thresholds (ties)."""
    dx, dy = PIX[px]
    return [0.31*min(dx, dy), 0.83*dx, 0.83*dy, 1.237*max(dx, dy), 2.913,
            4.71, 11.3, 61.7]


class Ref(object):
    def __init__(self, nx, ny, px):
        from nmc.flat import Grid
        dx, dy = PIX[px]
        self.nx, self.ny = nx, ny
        self.lx, self.ly = nx*dx*D, ny*dy*D
        x, y = np.meshgrid(np.arange(nx)*dx, np.arange(ny)*dy)
        x, y = x.ravel(), y.ravel()
        self.d = np.hypot(x[:, None]-x[None], y[:, None]-y[None])
        self.g = Grid(nx, ny, self.lx, self.ly)

    def __call__(self, m, a, typ):
        v = m.ravel()
        z = v <= 0
        if a == 0:
            return m.copy()
        if typ == "Smooth":
            k = v.copy()
            if z.any():
                k[self.d[:, z].min(axis=1) <= 2.5*a] = 0
            f = self.g.ft(k.reshape(self.ny, self.nx))
            # FWHM = 2.355 sigma
            f = f*np.exp(-0.5*(self.g.k*a*D*2.355/np.sqrt(8*np.log(2)))**2)
            return m*self.g.ift(f).real
        if not z.any():
            return m.copy()
        x = self.d[:, z].min(axis=1)/a
        if typ == "C1":
            f = x-np.sin(2*np.pi*x)/(2*np.pi)
        else:
            f = 0.5*(1-np.cos(np.pi*x))
        return (v*np.where(x < 1, f, 1)).reshape(m.shape)


def masks_of(case, ctx):
    nx, ny = case["n"]
    N = nx*ny
    rng = np.random.RandomState(ctx.seed)
    vals = 0.2+rng.rand(N)
    if case["t"] == "all":
        for i, b in enumerate(itertools.product((0., 1.), repeat=N)):
            yield "bin%d" % i, np.array(b)
            if i % 7 == 0:
                yield "val%d" % i, np.array(b)*vals
        return
    if case["t"] == "large":
        x, y = np.meshgrid(np.linspace(-1, 1, nx), np.linspace(-1, 1, ny))
        for k, m in enumerate((np.hypot(x, y) < 0.8, np.abs(x+y) > 0.3,
                               rng.rand(ny, nx) > 0.02, (x > -0.9))):
            m = m.ravel()*1.
            yield "large%d" % k, m
            yield "largev%d" % k, m*vals
        return
    for p in range(N):
        m = np.ones(N)
        m[p] = 0
        yield "hole%d" % p, m
        yield "only%d" % p, 1-m
        yield "val%d" % p, m*vals
    step = 5 if ctx.tier == "quick" else 1
    for i, (p, q) in enumerate(itertools.combinations(range(N), 2)):
        if i % step == 0:
            m = vals.copy()
            m[[p, q]] = 0
            yield "pair%d,%d" % (p, q), m
    yield "full", np.ones(N)
    yield "empty", np.zeros(N)


def run_huge(case, ctx):
    """Tens of thousands of pixels, distances of more than 100 pixels."""
    import pymaster as nmt
    from nmc.flat import Grid
    nx, ny = case["n"]
    typ = case["typ"]
    dx, dy = PIX[case["px"]]
    rng = np.random.RandomState(ctx.seed+5)
    g = Grid(nx, ny, nx*dx*D, ny*dy*D)
    x, y = np.meshgrid(np.arange(nx)*dx, np.arange(ny)*dy)
    for k in range(3):
        m = 0.2+rng.rand(ny, nx) if k else np.ones((ny, nx))
        iy, ix = [(ny//2, nx//3), (0, 0), (ny-1, nx-4)][k]
        m[iy, ix] = 0
        if k == 2:
            m[:, 0] = 0
        zy, zx = np.where(m <= 0)
        d = np.full((ny, nx), np.inf)
        for j, i in zip(zy, zx):
            d = np.minimum(d, np.hypot(x-x[j, i], y-y[j, i]))
        # typ C1/C2: scales in pixels of both axes; Smooth cuts at 2.5 scales
        for a in ((41.37, 103.41, 87.23)[k]*min(dx, dy),):
            if typ == "Smooth":
                a = a/3.
                f = g.ft(np.where(d <= 2.5*a, 0, m))*np.exp(
                    -0.5*(g.k*a*D*2.355/np.sqrt(8*np.log(2)))**2)
                want, tol = m*g.ift(f).real, 1e-3
            else:
                t = d/a
                f = t-np.sin(2*np.pi*t)/(2*np.pi) if typ == "C1" else \
                    0.5*(1-np.cos(np.pi*t))
                want, tol = m*np.where(t < 1, f, 1), 1e-12
            got = nmt.mask_apodization_flat(m, g.lx, g.ly, a, apotype=typ)
            ctx.close("huge:"+typ, got, want, rtol=0, atol=tol*m.max(),
                      detail="mask %d a=%g" % (k, a))
            ctx.evaluated(["huge", k, a], got,
                          nontrivial=not np.array_equal(got, m))


def run(case, ctx):
    import pymaster as nmt
    if case["t"] == "huge":
        return run_huge(case, ctx)
    nx, ny = case["n"]
    typ = case["typ"]
    R = Ref(nx, ny, case["px"])
    sc = scales(case["px"])
    if case["t"] == "holes":
        sc = sc[:-1]
    tol = 1e-3 if typ == "Smooth" else 1e-12
    for j, (name, v) in enumerate(masks_of(case, ctx)):
        m = v.reshape(ny, nx)
        use = sc+[0.] if not name.startswith("pair") else [
            sc[j % len(sc)], sc[(j//7) % len(sc)]]
        for a in use:
            m0 = m.copy()
            got = nmt.mask_apodization_flat(m, R.lx, R.ly, a, apotype=typ)
            want = R(m, a, typ)
            ctx.close(typ, got, want, rtol=0,
                      atol=(tol if a > 0 else 0)*max(1, v.max()),
                      detail="%s a=%g" % (name, a))
            ctx.check(np.array_equal(m, m0), "input-modified", name)
            ctx.check(not np.any(got[m <= 0]), typ+":zeros", name)
            if typ != "Smooth":
                ctx.check(np.all(got <= m*(1+1e-13)), typ+":grows", name)
            ctx.evaluated([name, a], got, nontrivial=not np.array_equal(
                got, m))
    ctx.raises("negative", lambda: nmt.mask_apodization_flat(
        np.ones((ny, nx)), R.lx, R.ly, -1., apotype=typ))
    ctx.raises("type", lambda: nmt.mask_apodization_flat(
        np.ones((ny, nx)), R.lx, R.ly, 1., apotype="C3"))
