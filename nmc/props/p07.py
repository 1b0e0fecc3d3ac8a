"""P07: flat-sky Gaussian covariance against explicit Fourier sums."""
import itertools
import os
import numpy as np
from nmc.props.p22 import GEOM, bands, mask

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the covariance is bilinear in the "
             "input spectra, so every pair of unit-impulse spectra (every "
             "component, every node) is run for every spin combination, grid, "
             "aspect ratio, band layout and field multiplicity in the bound "
             "and compared with the explicit sum over Fourier pixels")
RULE = ("all 16 combinations of spins 0/2 (and some of spins 1 and 3) x grids "
        "of both parities x aspect ratios x band layouts x every pair of "
        "impulse spectra, workspaces with beams and cuts, file round trips, "
        "exchanged and repeated pairs, a patch with more than 46340 modes in "
        "a band; grids up to 33 x 28 (thorough 48 x 35) with 40 bands. "
        "Non-trivial: expected covariance not identically 0.")
ASSUMES = ["multipole bands increasing and non-overlapping",
           "the coupling coefficients of any non-zero spin are those of "
           "spin 2 and ignore Fourier-space cuts (library definition)",
           "at Nyquist frequencies the positive wavenumber is used"]
MIN_EVAL = 5000


def cases(tier, seed):
    grids = [(4, 3), (3, 5), (5, 4)] if tier == "quick" else \
        [(4, 3), (3, 5), (5, 4), (4, 4), (6, 5), (1, 5), (7, 7)]
    yield dict(t="large")
    for sp in itertools.product((0, 2), repeat=4):
        for n in grids:
            for geo in GEOM:
                for bk in ("lin", "gap", "all"):
                    yield dict(t="cov", spins=sp, n=n, geo=geo, bands=bk)
    for sp in [(0, 1, 2, 0), (1, 1, 1, 1), (3, 0, 1, 2), (2, 3, 0, 0)]:
        yield dict(t="cov", spins=sp, n=[4, 3], geo="wide", bands="gap")
    for sp in [(0, 0, 0, 0), (0, 2, 2, 0), (2, 2, 2, 2), (2, 0, 2, 2)]:
        for n in [[33, 28]] if tier == "quick" else [[33, 28], [48, 35]]:
            for geo in GEOM:
                for bk in ("lin", "many"):
                    yield dict(t="cov", spins=sp, n=n, geo=geo, bands=bk)
    for sp in [(0, 0), (0, 2), (2, 2), (2, 0)]:
        for geo in GEOM:
            for bk in ("lin", "gap"):
                yield dict(t="same", spins=sp, n=[4, 5], geo=geo, bands=bk)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def xis(g, masks, idx, l0, lf):
    """Coupling coefficients between bands."""
    from nmc.flat import Grid
    i, j, k, l = idx
    P = (g.ft(masks[i]*masks[j])*g.ft(masks[k]*masks[l]).conj()).real
    N = g.nx*g.ny
    iy, ix = np.divmod(np.arange(N), g.nx)
    mp = P[(iy[:, None]-iy[None]) % g.ny, (ix[:, None]-ix[None]) % g.nx]
    b, ph = g.bands(l0, lf).ravel(), g.phi().ravel()
    d = 2*(ph[:, None]-ph[None])
    B = np.array([b == z for z in range(len(l0))], float)
    n = np.maximum(B.sum(axis=1), 1)
    B = B/n[:, None]
    f = 4*np.pi**2/(g.lx*g.ly)**2
    del Grid
    return {k: f*B @ (mp*w) @ B.T for k, w in
            (("00", 1.), ("02", np.cos(d)), ("pp", np.cos(d)**2),
             ("mm", np.sin(d)**2))}


def setup(case, ctx, nf=4):
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    if case["bands"] == "many":
        l0 = np.linspace(0, g.k.max()*0.95, 41)
        l0, lf = l0[:-1], l0[1:]
    else:
        l0, lf = bands(g, case["bands"])
    if case["bands"] == "gap":
        lf = np.minimum(lf, g.k.max()*1.01)
    rng = np.random.RandomState(ctx.seed+70)
    masks = [0.4+rng.rand(g.ny, g.nx) for _ in range(4)]
    x = np.array([0., 0.5*(l0[-1]+lf[-1]), 0.5*(l0[0]+lf[0]), 1.01*lf[-1]])
    x = np.unique(np.concatenate([x, 0.5*(l0+lf)[:-1]*1.1]))
    beam = np.array([[0., 1.4, 3*g.k.max()], [1., 0.8, 0.3]])
    fl = [nmt.NmtFieldFlat(g.lx, g.ly, m, None, spin=s, beam=beam)
          for m, s in zip(masks, case["spins"])]
    return g, l0, lf, masks, x, fl, nmt.NmtBinFlat(l0, lf)


def decoupler(w, n, nb):
    """Inverse binned coupling matrix as the workspace applies it."""
    D = np.zeros((nb*n, nb*n))
    for z in range(nb):
        for c in range(n):
            y = np.zeros((n, nb))
            y[c, z] = 1
            D[:, z*n+c] = w.decouple_cell(y).T.ravel()
    return D


def workspaces(fl, b, pairs):
    import pymaster as nmt
    out = []
    for i, j in pairs:
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(fl[i], fl[j], b)
        out.append(w)
    return out


def at_bands(cl, x, l0, lf):
    from nmc.props.p23 import kfun
    return np.array([kfun(x, c)(0.5*(l0+lf)) for c in cl])


def run_cov(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O
    g, l0, lf, masks, x, fl, b = setup(case, ctx)
    nb, sp = len(l0), case["spins"]
    n = [2 if s else 1 for s in sp]
    try:
        wa, wb = workspaces(fl, b, [(0, 1), (2, 3)])
        Da, Db = decoupler(wa, n[0]*n[1], nb), decoupler(wb, n[2]*n[3], nb)
    except RuntimeError:   # singular binned matrix: an empty band
        ctx.evaluated("singular", nontrivial=False)
        return
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(fl[0], fl[1], b, flb1=fl[2],
                                     flb2=fl[3], bin_b=b)
    fn = os.path.join(os.environ["NMC_SCRATCH"], "c.fits")
    cw.write_to(fn)
    cr = nmt.NmtCovarianceWorkspaceFlat()
    cr.read_from(fn)
    X1 = xis(g, masks, (0, 2, 1, 3), l0, lf)
    X2 = xis(g, masks, (0, 3, 1, 2), l0, lf)
    rng = np.random.RandomState(ctx.seed+3)
    dims = dict(ac=n[0]*n[2], ad=n[0]*n[3], bc=n[1]*n[2], bd=n[1]*n[3])
    base = {k: rng.randn(d, len(x)) for k, d in dims.items()}
    zero = {k: np.zeros_like(v) for k, v in base.items()}
    runs = [("all", base)]
    for k1, k2 in (("ac", "bd"), ("ad", "bc")):
        for i in range(dims[k1]):
            for j in range(dims[k2]):
                c = {k: v.copy() for k, v in zero.items()}
                c[k1][i], c[k2][j] = base[k1][i], base[k2][j]
                runs.append(("%s%d*%s%d" % (k1, i, k2, j), c))
        if sum(sp) < 4 and g.nx*g.ny < 500:   # every pair of nodes
            for p, q in itertools.product(range(len(x)), repeat=2):
                c = {k: v.copy() for k, v in zero.items()}
                c[k1][-1, p] = c[k2][-1, q] = 1
                runs.append(("%s@%d*%s@%d" % (k1, p, k2, q), c))
    for name, c in runs:
        cls = [c["ac"], c["ad"], c["bc"], c["bd"]]
        got = nmt.gaussian_covariance_flat(cw, *sp, x, *cls, wa, wb)
        cov6 = O.cov_coupled(X1, X2, sp, *[at_bands(q, x, l0, lf)
                                           for q in cls])
        C = cov6.reshape(nb*n[0]*n[1], -1)
        want = Da @ C @ Db.T
        sc = np.abs(Da).max()*np.abs(Db).max()*max(np.abs(C).max(), 1e-30)
        ctx.close("cov", got, want, rtol=1e-9, scale=sc, detail=name)
        ctx.evaluated(name, got, nontrivial=bool(np.any(want != 0)))
    cls = [base[k] for k in ("ac", "ad", "bc", "bd")]
    got = nmt.gaussian_covariance_flat(cw, *sp, x, *cls, wa, wb)
    ctx.close("file", nmt.gaussian_covariance_flat(cr, *sp, x, *cls, wa, wb),
              got, rtol=1e-9)
    # exchanging the pairs transposes
    c2 = nmt.NmtCovarianceWorkspaceFlat()
    c2.compute_coupling_coefficients(fl[2], fl[3], b, flb1=fl[0],
                                     flb2=fl[1], bin_b=b)
    from nmc.props.p06 import tp
    g2 = nmt.gaussian_covariance_flat(
        c2, sp[2], sp[3], sp[0], sp[1], x, tp(base["ac"], n[0], n[2]),
        tp(base["bc"], n[1], n[2]), tp(base["ad"], n[0], n[3]),
        tp(base["bd"], n[1], n[3]), wb, wa)
    sc = np.abs(Da).max()*np.abs(Db).max()*np.abs(C).max()
    ctx.close("transpose", g2, got.T, rtol=1e-9, scale=max(
        sc, np.abs(got).max()))
    ctx.sample(dict(case, cov00=float(got[0, 0])))


def run_same(case, ctx):
    """One pair of fields, default arguments: symmetric."""
    import pymaster as nmt
    from nmc import oracle as O
    from nmc.props.p06 import tp
    g, l0, lf, masks, x, fl, b = setup(dict(case, spins=case["spins"]*2), ctx)
    nb, sp = len(l0), case["spins"]
    n = [2 if s else 1 for s in sp]
    try:
        wa, = workspaces(fl, b, [(0, 1)])
        Da = decoupler(wa, n[0]*n[1], nb)
    except RuntimeError:
        ctx.evaluated("singular", nontrivial=False)
        return
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(fl[0], fl[1], b)
    X1 = xis(g, masks, (0, 0, 1, 1), l0, lf)
    X2 = xis(g, masks, (0, 1, 1, 0), l0, lf)
    rng = np.random.RandomState(ctx.seed+4)

    def symm(k):
        a = rng.randn(k, k, len(x))
        return (a+a.transpose(1, 0, 2)).reshape(k*k, -1)
    ab = rng.randn(n[0]*n[1], len(x))
    cls = [symm(n[0]), ab, tp(ab, n[0], n[1]), symm(n[1])]
    got = nmt.gaussian_covariance_flat(cw, *sp, *sp, x, *cls, wa)
    cov6 = O.cov_coupled(X1, X2, list(sp)*2, *[at_bands(q, x, l0, lf)
                                               for q in cls])
    want = Da @ cov6.reshape(nb*n[0]*n[1], -1) @ Da.T
    ctx.close("same", got, want, rtol=1e-8)
    ctx.close("symmetric", got, got.T, rtol=1e-9)
    ctx.evaluated("same", got)


def run_large(case, ctx):
    """Number of pairs of modes beyond 2^31 (constant masks: analytic)."""
    import pymaster as nmt
    nx = 216
    l0, lf = np.array([0.]), np.array([400.])
    b = nmt.NmtBinFlat(l0, lf)
    f = nmt.NmtFieldFlat(2*np.pi, 2*np.pi, np.full((nx, nx), 0.5),
                         [np.zeros((nx, nx))], spin=0, templates=None)
    h = nmt.NmtFieldFlat(2*np.pi, 2*np.pi, np.full((3, 3), 0.5),
                         [np.zeros((3, 3))], spin=0)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(h, h, b)
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f, f, b)
    x = np.array([0., 1000.])
    c = np.array([[3., 3.]])
    got = nmt.gaussian_covariance_flat(cw, 0, 0, 0, 0, x, c, c, c, c, w)
    # masks 1/2: decoupling divides by 1/4 twice, product masks 1/4 twice
    ctx.close("large", got, np.array([[2*9./nx**2]]), rtol=1e-8)
    ctx.evaluated("large", got)
