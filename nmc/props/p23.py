"""P23: flat-sky coupling matrix, coupling and decoupling."""
import os
import numpy as np
from nmc.props.p22 import GEOM, CUTS, bands, mask

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: coupling and decoupling are linear, "
             "so every unit-impulse spectrum (every node and component) is "
             "pushed through the real workspace for every configuration in "
             "the bound and compared with the explicit double sum over "
             "Fourier pixels")
RULE = ("every (grid, aspect ratio, spin pair / T-E-B / purification, band "
        "layout, cut, beam, equal or different masks) in the bound x every "
        "impulse spectrum on two node sets (couple) and every impulse "
        "bandpower, with bias and noise, in and out of a file round trip "
        "(decouple); singular binned matrices must be refused.a 12x9 grid "
        "likewise. Non-trivial: expected result not identically 0.")
ASSUMES = ["multipole bands increasing and non-overlapping",
           "at Nyquist frequencies the positive wavenumber is used"]
MIN_EVAL = 20000

# name: (s1, s2, pure1, pure2, teb)
CFG = {"00": (0, 0, 0, 0, 0), "02": (0, 2, 0, 0, 0), "20": (2, 0, 0, 0, 0),
       "22": (2, 2, 0, 0, 0), "01": (0, 1, 0, 0, 0), "10": (1, 0, 0, 0, 0),
       "11": (1, 1, 0, 0, 0), "12": (1, 2, 0, 0, 0), "31": (3, 1, 0, 0, 0),
       "02E": (0, 2, 0, 1, 0), "02B": (0, 2, 0, 2, 0), "2B0": (2, 0, 2, 0, 0),
       "2E0": (2, 0, 1, 0, 0), "02EB": (0, 2, 0, 3, 0),
       "2B2B": (2, 2, 2, 2, 0), "22B": (2, 2, 0, 2, 0),
       "2B2": (2, 2, 2, 0, 0), "2E2B": (2, 2, 1, 2, 0),
       "2EB2": (2, 2, 3, 0, 0), "22E": (2, 2, 0, 1, 0),
       "12B": (1, 2, 0, 2, 0), "2E1": (2, 1, 1, 0, 0),
       "2EB2EB": (2, 2, 3, 3, 0),
       "teb": (0, 2, 0, 0, 1), "teb1": (0, 1, 0, 0, 1),
       "tebB": (0, 2, 0, 2, 1), "tebE": (0, 2, 0, 1, 1)}


BIG = {"05": (0, 5, 0, 0, 0), "47": (4, 7, 0, 0, 0), "80": (8, 0, 0, 0, 0),
       "66": (6, 6, 0, 0, 0), "2B7": (2, 7, 2, 0, 0)}


def cases(tier, seed):
    grids = [(4, 3), (3, 4), (4, 4)] if tier == "quick" else \
        [(4, 3), (3, 4), (4, 4), (5, 3), (2, 2), (1, 5), (6, 1), (5, 6),
         (6, 4), (7, 5)]
    for geo in GEOM:
        for c in ("00", "02", "22", "2B2B", "teb"):
            yield dict(t="mcm", n=(12, 9), geo=geo, cfg=c, same=0)
    # (the modes on the longest side lie on ring edges: up to the tenth the
    # rounding does not depend on how the wavenumber is written)
    for n in (60, 45):
        for i, c in enumerate(list(BIG)+[x for x in CFG if CFG[x][4] == 0]):
            if tier != "quick" or i % 2 == n % 2:
                yield dict(t="big", n=[21, n], geo="wide", cfg=c)
            if tier != "quick" or i % 2 != n % 2:
                yield dict(t="big", n=[n, 21], geo="tall", cfg=c)
    for n in grids:
        for geo in GEOM:
            for c in CFG:
                for same in (0, 1):
                    s1, s2, p1, p2, teb = CFG[c]
                    if same and ((s1, p1) != (s2, p2)):
                        continue
                    yield dict(t="mcm", n=n, geo=geo, cfg=c, same=same)


def kfun(x, y):
    """Documented interpolation: first value below, zero beyond the last."""
    def f(k):
        k = np.asarray(k, float)
        out = np.interp(k, x, y)
        out = np.where(k <= x[0], y[0], out)
        return np.where(k >= x[-1], 0., out)
    return f


def beams(g, kind):
    """Two beams; each (array or None, function)."""
    x1 = np.array([0., 0.7, 1.9, 3.3, 50.])
    y1 = np.array([1., 0.9, 0.6, 0.45, 0.4])
    x2 = np.array([0.4, 1.3, g.k.max()*0.93])
    y2 = np.array([0.8, 1.1, 0.3])
    one = (None, lambda k: np.ones_like(np.asarray(k, float)))
    b1, b2 = (np.array([x1, y1]), kfun(x1, y1)), (np.array([x2, y2]),
                                                  kfun(x2, y2))
    return {"none": (one, one), "first": (b1, one), "second": (one, b1),
            "both": (b1, b2)}[kind]


def field(g, m, s, pure, beam):
    import pymaster as nmt
    return nmt.NmtFieldFlat(g.lx, g.ly, m, None, spin=s, beam=beam,
                            purify_e=bool(pure & 1), purify_b=bool(pure & 2))


def run_big(case, ctx):
    """More than a thousand pixels, tens of bands, high spins."""
    import pymaster as nmt
    from nmc.flat import Grid
    nx, ny = case["n"]
    g = Grid(nx, ny, *GEOM[case["geo"]])
    s1, s2, p1, p2, _ = dict(CFG, **BIG)[case["cfg"]]
    P = lambda p: (p & 1, (p >> 1) & 1)
    y, x = np.mgrid[:ny, :nx]
    m1 = (np.sin(np.pi*(x+0.5)/nx)*np.sin(np.pi*(y+0.5)/ny))**2
    m2 = m1*(1+0.3*np.cos(0.4*x))
    n = (2 if s1 else 1)*(2 if s2 else 1)
    nb = 21
    e = (np.arange(nb+1)+0.37)*g.k.max()/(nb+2)
    l0, lf = e[:-1], e[1:]
    b = nmt.NmtBinFlat(l0, lf)
    (ba1, bf1), (ba2, bf2) = beams(g, "both")
    cx, cy = CUTS["asym"] if case["cfg"] in ("22", "00") else CUTS["none"]
    M = g.mcm_big(m1, m2, s1, s2, l0, lf, cx, cy, P(p1), P(p2),
                  lambda k: bf1(k)*bf2(k))
    R, B = g.to_rings(M), g.to_bands(M, l0, lf).reshape(nb*n, nb*n)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(field(g, m1, s1, p1, ba1),
                              field(g, m2, s2, p2, ba2), b,
                              ell_cut_x=list(cx), ell_cut_y=list(cy))
    rng = np.random.RandomState(ctx.seed+6)
    x = np.sort(rng.rand(40))*g.k.max()*1.05
    for j in range(4):
        cl = rng.randn(n, len(x))
        v = np.array([kfun(x, q)(g.k) for q in cl])
        ra = np.array([[q[g.ring == r].mean() if (g.ring == r).any() else 0.
                        for r in range(g.n_ell)] for q in v])
        ctx.close("big:couple", w.couple_cell(x, cl),
                  np.einsum('bird,dr->ib', R, ra), rtol=1e-10,
                  scale=np.abs(R).max()*3)
        ctx.evaluated(["big", j])
    # decoupling inverts exactly the binned matrix of the bands that every
    # beam reaches
    e = (np.arange(nb+1)+0.37)*min(ba1[0][-1], ba2[0][-1])/(nb+2)
    l0, lf = e[:-1], e[1:]
    B = g.to_bands(g.mcm_big(m1, m2, s1, s2, l0, lf, cx, cy, P(p1), P(p2),
                             lambda k: bf1(k)*bf2(k)),
                   l0, lf).reshape(nb*n, nb*n)
    if np.linalg.cond(B) > 1E7:
        return ctx.evaluated(["ill-conditioned"], False)
    b = nmt.NmtBinFlat(l0, lf)
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(field(g, m1, s1, p1, ba1),
                              field(g, m2, s2, p2, ba2), b,
                              ell_cut_x=list(cx), ell_cut_y=list(cy))
    for j in range(3):
        d = rng.randn(n, nb)
        c = (B @ d.T.ravel()).reshape(nb, n).T
        ctx.close("big:decouple", w.decouple_cell(c), d, scale=1.,
                  rtol=1e-11*max(1., np.linalg.cond(B)))
        ctx.evaluated(["bigdec", j])


def run(case, ctx):
    import pymaster as nmt
    if case["t"] == "big":
        return run_big(case, ctx)
    from nmc.flat import Grid
    nx, ny = case["n"]
    lx, ly = GEOM[case["geo"]]
    g = Grid(nx, ny, lx, ly)
    s1, s2, p1, p2, teb = CFG[case["cfg"]]
    P = lambda p: (p & 1, (p >> 1) & 1)
    m1 = mask(ctx, g, 0)
    m2 = m1 if case["same"] else mask(ctx, g, 1)
    n = 7 if teb else (2 if s1 else 1)*(2 if s2 else 1)
    u = np.unique(np.round(g.k, 12))
    scratch = os.environ["NMC_SCRATCH"]
    fn = os.path.join(scratch, "w.fits")
    thorough = ctx.tier != "quick"
    # (bands, cut, beam) combinations: every value of each, pairs with none
    combos = [(b, "none", bm) for b in ("lin", "gap", "exact", "all")
              for bm in ("none", "both")]
    combos += [("gap", c, "first") for c in CUTS if c != "none"]
    combos += [("gap", "none", "second"), ("lin", "none", "first")]
    if thorough:
        combos = [(b, c, bm) for b in ("lin", "gap", "exact", "all")
                  for c in CUTS for bm in ("none", "first", "second", "both")]
    full = None
    for bk, cn, bm in combos:
        if case["same"] and bm in ("first", "second"):
            bm = "both"
        l0, lf = bands(g, bk)
        nb = len(l0)
        (ba1, bf1), (ba2, bf2) = beams(g, bm)
        if case["same"]:
            ba2, bf2 = ba1, bf1
        f1 = field(g, m1, s1, p1, ba1)
        f2 = f1 if case["same"] else field(g, m2, s2, p2, ba2)
        cx, cy = CUTS[cn]
        b = nmt.NmtBinFlat(l0, lf)
        bmf = lambda k: bf1(k)*bf2(k)
        M = g.mcm(m1, m2, s1, s2, l0, lf, cx, cy, P(p1), P(p2), bool(teb),
                  bmf)
        R, B = g.to_rings(M), g.to_bands(M, l0, lf).reshape(nb*n, nb*n)
        key = "%s:" % ("teb" if teb else "pure" if p1 or p2 else "plain")
        w = nmt.NmtWorkspaceFlat()

        def comp():
            w.compute_coupling_matrix(f1, f2, b, ell_cut_x=list(cx),
                                      ell_cut_y=list(cy), is_teb=bool(teb))
        comp()
        sc = np.abs(R).max()
        ring = g.ring
        fixed = nmt.NmtFieldFlat(lx, ly, m1, None, spin=0).get_ell_sampling()
        nodes = {"sampling": fixed,
                 "fine": np.concatenate([[0.], u[1:]-0.01, u[1:]+0.01,
                                         [u[-1]*2]])}
        if len(fixed) < 2:
            del nodes["sampling"]
        for nn, x in nodes.items():
            x = np.sort(x)
            sel = range(len(x)) if (cn == "none" or thorough) else \
                range(0, len(x), 2)
            for i in sel:
                # ring averages of the interpolated impulse
                y = np.zeros(len(x))
                y[i] = 1.
                v = kfun(x, y)(g.k)
                ra = np.array([v[ring == r].mean() if (ring == r).any() else 0.
                               for r in range(g.n_ell)])
                for c in range(n):
                    cl = np.zeros((n, len(x)))
                    cl[c] = y
                    want = np.einsum('bir,r->ib', R[:, :, :, c], ra)
                    got = w.couple_cell(x, cl)
                    if not ctx.close(key+"couple", got, want, rtol=1e-10,
                                     scale=max(sc, 1e-30),
                                     detail="%s %s %s node %d comp %d" % (
                                         bk, cn, bm, i, c)):
                        return
                    ctx.evaluated([bk, cn, bm, nn, i, c], nontrivial=bool(
                        np.any(np.abs(want) > 1e-12*sc)))
        # superposition with non-zero values everywhere
        rng = np.random.RandomState(ctx.seed+5)
        x = np.sort(nodes["fine"])
        cl = 1+rng.rand(n, len(x))
        ra = np.array([[kfun(x, q)(g.k)[ring == r].mean() if (ring == r).any()
                        else 0. for r in range(g.n_ell)] for q in cl])
        ctx.close(key+"couple", w.couple_cell(x, cl),
                  np.einsum('bird,dr->ib', R, ra), rtol=1e-10,
                  scale=max(sc, 1e-30), detail="superposition")
        # decoupling
        scb = np.abs(B).max()
        rank_def = scb == 0 or np.any(np.abs(B).sum(axis=1) < 1e-13*scb)
        if rank_def or np.linalg.cond(B) > 1e8:
            # exactly empty rows: the matrix cannot be inverted
            if scb == 0 or np.any(np.abs(B).sum(axis=1) == 0):
                ctx.raises(key+"singular", lambda: w.decouple_cell(
                    np.ones((n, nb))))
                ctx.add("singular_refused")
            continue
        Bi = np.linalg.inv(B)
        tol = 1e-10*max(1., np.linalg.cond(B))
        for z in range(nb):
            for c in range(n):
                cl = np.zeros((n, nb))
                cl[c, z] = 1.
                want = Bi[:, z*n+c].reshape(nb, n).T
                sd = np.abs(Bi).max()
                ctx.close(key+"decouple", w.decouple_cell(cl), want,
                          rtol=tol, scale=sd, detail="%s %s %s" % (bk, cn, bm))
                ctx.evaluated([bk, cn, bm, "dec", z, c])
        d, nz, bi = rng.randn(3, n, nb)
        for q1, q2 in ((0, 0), (1, 0), (0, 1), (1, 1)):
            want = (Bi @ (d-q1*bi-q2*nz).T.ravel()).reshape(nb, n).T
            got = w.decouple_cell(d, cl_bias=bi if q1 else None,
                                  cl_noise=nz if q2 else None)
            ctx.close(key+"bias-noise", got, want, rtol=tol)
            ctx.evaluated([bk, cn, bm, "bn", q1, q2])
        # identical after a file round trip, and when recomputed
        w.write_to(fn)
        w2 = nmt.NmtWorkspaceFlat()
        w2.read_from(fn)
        a = w.decouple_cell(d), w.couple_cell(x, rng.rand(n, len(x)))
        rng2 = np.random.RandomState(ctx.seed+5)
        comp()
        ctx.close(key+"recompute", w.decouple_cell(d), a[0], rtol=tol)
        ctx.close(key+"file", w2.decouple_cell(d), a[0], rtol=tol)
        y = rng2.rand(n, len(x))
        ctx.close(key+"file", w2.couple_cell(x, y), w.couple_cell(x, y),
                  rtol=1e-12)
        # wrong shapes are refused
        for q in (np.zeros((n+1, nb)), np.zeros((n, nb+1))):
            ctx.raises(key+"shape", lambda: w.decouple_cell(q))
        for q in (np.zeros((n+1, len(x))), np.zeros((n, len(x)+1))):
            ctx.raises(key+"shape", lambda: w.couple_cell(x, q))
