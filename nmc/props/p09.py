"""P09: flat-sky bandpowers: lookup under every history, binning."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every band layout over a set of "
             "edges and every history of up to three successive lookups "
             "(all ordered triples of positions), against the definition of "
             "half-open intervals")
RULE = ("layout: all sets of up to 3 (thorough 4) ordered disjoint bands "
        "with edges in a grid; history: all ordered triples of lookup "
        "positions (each edge and its neighbours, centres, gaps, outside); "
        "sweep: long sequences back and forth; bin: every unit impulse on "
        "several multipole grids; big: up to 300 (thorough 1000) bands, every "
        "ordered pair of up to 301 positions. The value outside all bands must be one "
        "fill value for any spectrum. Non-trivial: a lookup inside a band.")
ASSUMES = ["bands are listed in increasing order and do not overlap"]
MIN_EVAL = 5000
GRID = [0., 10., 25., 30.5, 50.]


def layouts(nmax, grid=GRID):
    iv = list(itertools.combinations(grid, 2))
    out = []
    for k in range(1, nmax+1):
        for c in itertools.combinations(iv, k):
            if all(c[i][1] <= c[i+1][0] for i in range(k-1)):
                out.append(c)
    return out


def cases(tier, seed):
    n = 3 if tier == "quick" else 4
    for i in range(len(layouts(n))):
        yield dict(t="hist", n=n, i=i)
    for i in range(len(layouts(n))):
        yield dict(t="bin", n=n, i=i)

    for nb in (1, 60, 101, 300) + ((1000,) if tier != "quick" else ()):
        for k in range(3):
            yield dict(t="big", nb=nb, k=k)


def run_big(case, ctx):
    """Many bands: one sequence with every ordered pair of positions."""
    import pymaster as nmt
    nb, k = case["nb"], case["k"]
    rng = np.random.RandomState(ctx.seed+9)
    e = np.cumsum(0.1+rng.rand(2*nb))*(1, 30, 0.01)[k]
    if k != 1:      # adjacent bands, some separated
        e[1:-1:2] = np.where(rng.rand(nb-1) < 0.8, e[2::2], e[1:-1:2])
    l0, lf = e[::2].copy(), e[1::2].copy()
    b = nmt.NmtBinFlat(l0, lf)
    cen = 0.5*(l0+lf)
    ctx.check(b.get_n_bands() == nb, "nbands")
    ctx.close("elleff", b.get_effective_ells(), cen, rtol=1e-12)
    pos = np.unique(np.concatenate([
        l0, np.nextafter(l0, -1), cen, lf, np.nextafter(lf, -1),
        [0., -5., 2*e[-1]]]))
    # Euler tour of the complete digraph: every ordered pair in succession
    m = min(len(pos), 301)
    sub = pos[np.unique(np.linspace(0, len(pos)-1, m).astype(int))]
    pairs = np.array([[i, j] for i in range(len(sub))
                      for j in range(len(sub))]).ravel()
    seqs = [pos, pos[::-1], rng.permutation(pos), sub[pairs]]
    v = np.array([1.+np.arange(nb), rng.rand(nb)-2])
    fill = b.unbin_cell(v, np.array([3*e[-1]]))[:, 0]
    ctx.check(len(set(fill)) == 1, "fill", str(fill))
    for i, q in enumerate(seqs):
        j = np.searchsorted(l0, q, side="right")-1
        ok = (j >= 0) & (q < lf[np.maximum(j, 0)])
        want = np.where(ok, v[:, np.maximum(j, 0)], fill[:, None])
        got = b.unbin_cell(v, q)
        if not np.array_equal(got, want):
            z = np.where((got != want).any(axis=0))[0][0]
            ctx.fail("lookup", "%d bands, sequence %d: %r after %r gives %s, "
                     "expected %s" % (nb, i, q[z], q[z-1] if z else None,
                                      got[:, z], want[:, z]))
        ctx.evaluated(["big", i], want, nontrivial=bool(ok.any()))
    for n in (50, 1000, 20000):
        x = np.cumsum(rng.rand(n))
        x *= 1.1*e[-1]/x[-1]
        y = rng.randn(3, n)
        want = np.array([np.interp(cen, x, z) for z in y])
        ctx.close("bin", b.bin_cell(x, y), want, rtol=1e-11)
        ctx.evaluated(["bigbin", n], want)


def where(bands, x):
    for i, (a, b) in enumerate(bands):
        if a <= x < b:
            return i
    return -1


def run(case, ctx):
    import pymaster as nmt
    if case["t"] == "big":
        return run_big(case, ctx)
    bands = layouts(case["n"])[case["i"]]
    b = nmt.NmtBinFlat(np.array([x[0] for x in bands]),
                       np.array([x[1] for x in bands]))
    nb = len(bands)
    ctx.check(b.get_n_bands() == nb, "nbands")
    ctx.close("elleff", b.get_effective_ells(),
              [0.5*(x+y) for x, y in bands], rtol=1e-12)
    if case["t"] == "hist":
        hist(ctx, b, bands, nb)
    else:
        binning(ctx, b, bands, nb)
    ctx.sample(dict(bands=bands))


def hist(ctx, b, bands, nb):
    pos = {-1., 1e5}
    for x in GRID:
        pos |= {x, np.nextafter(x, -1), np.nextafter(x, 99)}
    for x, y in zip(GRID[:-1], GRID[1:]):
        pos.add(0.5*(x+y))
    pos = sorted(pos)
    v = np.array([np.arange(nb)+1., -(np.arange(nb)+1.)**2])
    fill = b.unbin_cell(v, np.array([1e7]))[:, 0]
    want = {x: (v[:, where(bands, x)] if where(bands, x) >= 0 else fill)
            for x in pos}
    for p in itertools.product(pos, repeat=3):
        got = b.unbin_cell(v, np.array(p))
        w = np.array([want[x] for x in p]).T
        if not np.array_equal(got, w):
            ctx.fail("lookup", "bands %s positions %s: %s, expected %s" % (
                bands, p, got.tolist(), w.tolist()))
        ctx.evaluated([p], w, nontrivial=any(where(bands, x) >= 0
                                             for x in p))
    ctx.check(len(set(fill)) == 1, "fill", str(fill))
    long = list(np.linspace(-3, 60, 127)) + list(np.linspace(60, -3, 64))
    rng = np.random.RandomState(ctx.seed)
    for seq in (long, long[::3], rng.permutation(long)):
        ws = np.array([v[:, where(bands, x)] if where(bands, x) >= 0
                       else fill for x in seq]).T
        ctx.close("sweep", b.unbin_cell(v, np.array(seq)), ws, rtol=1e-14,
                  detail=str(bands))
        ctx.close("sweep1d", b.unbin_cell(v[0], np.array(seq)), ws[0],
                  rtol=1e-14, detail=str(bands))
        ctx.evaluated(["sweep", len(seq)])


def binning(ctx, b, bands, nb):
    cen = np.array([0.5*(x+y) for x, y in bands])
    grids = [np.arange(61.), np.array([0., 1., 13., 17.7, 26., 60.]),
             np.array([12., 20., 28.]), np.linspace(-5, 200, 9), cen,
             np.array([5., 6.])]
    for ig, g in enumerate(grids):
        if len(g) < 2:
            continue
        I = np.eye(len(g))
        want = np.array([np.interp(cen, g, I[i]) for i in range(len(g))])
        ctx.close("bin", b.bin_cell(g, I), want, rtol=1e-12,
                  detail="%s grid %d" % (bands, ig))
        y = np.cos(np.arange(len(g)))
        ctx.close("bin1d", b.bin_cell(g, y), np.interp(cen, g, y),
                  rtol=1e-12, detail="%s grid %d" % (bands, ig))
        ctx.evaluated(["bin", ig], want)
        # unbinning then sampling at the centres is the identity
        v = np.arange(nb)+2.
        ctx.close("identity", b.unbin_cell(v, cen), v, rtol=1e-14)
