"""P29: one-call estimators equal their step-by-step composition."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every combination of presence and "
             "absence of the optional arguments of both estimators, for every "
             "pair of field kinds in the bound, is run on the real code and "
             "compared with the separate steps; outcomes (value or refusal) "
             "must agree")
RULE = ("curved: field pairs (spins, purification, templates, anisotropic "
        "weights, lite, catalogues, mask-only, same field) x noise x guess x "
        "workspace x Toeplitz x normalisation; flat: field pairs x noise x "
        "guess x workspace x cuts; refused arguments; larger sizes of both. Non-trivial: the "
        "combination is accepted.")
ASSUMES = ["the separate steps are checked by P01, P02, P10-P14, P18 and "
           "P22-P24"]
MIN_EVAL = 2000

CK = ["0", "0t", "0b", "2", "2t", "2B", "2Et", "1", "a", "l", "c", "k", "m",
      "n"]


def cases(tier, seed):
    geos = ("hp",) if tier == "quick" else ("hp", "car", "hp4")
    for g in geos:
        for x in CK:
            for y in CK:
                yield dict(t="curved", geo=g, x=x, y=y)
            yield dict(t="curved", geo=g, x=x, y=x, same=1)
    for x in CK:
        for y in ("0t", "2B") if tier == "quick" else ("0", "0t", "2B", "1",
                                                       "c", "a"):
            yield dict(t="curved", geo="hpbig", x=x, y=y)
    for x, y in (("0", "2t"), ("2B", "2t"), ("0t", "0b")):
        yield dict(t="flat", x=x, y=y, big=1)
    for s1, s2 in itertools.product(("0", "0t", "2", "2t", "2B", "1", "2Et"),
                                    repeat=2):
        yield dict(t="flat", x=s1, y=s2)
    for s in ("0t", "2t", "2B"):
        yield dict(t="flat", x=s, y=s, same=1)
    yield dict(t="refuse")


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def curved_field(kind, geo, seed, lmax):
    import pymaster as nmt
    from nmc import lib as L
    rng = np.random.RandomState(seed)
    kw = dict(lmax=lmax, lmax_mask=lmax)
    beam = 0.5+rng.rand(lmax+2)
    if kind == "n":
        kw["lmax_mask"] = lmax-1
    if kind in "ck":
        ns = 900 if geo == "hpbig" else 12
        p = np.array([np.arccos(rng.uniform(-1, 1, ns)),
                      rng.uniform(0, 6.28, ns)])
        q = np.array([np.arccos(rng.uniform(-1, 1, ns)),
                      rng.uniform(0, 6.28, ns)])
        if kind == "c":
            return nmt.NmtFieldCatalog(p, 0.3+rng.rand(ns), rng.randn(ns),
                                       **kw)
        return nmt.NmtFieldCatalogClustering(p, 1+rng.rand(ns), q,
                                             1+rng.rand(ns), lmax)
    if geo[:2] == "hp":
        shape = ({"hp": 48, "hp4": 192, "hpbig": 12288}[geo],)
    else:
        kw["wcs"], shape = L.car_wcs(8, 14, -1, 1, ra0=100., theta0=1, ny=6,
                                     nx=11, phi_start=20.)
    m = 0.3+rng.rand(*shape)
    s = {"l": 0, "a": 2, "m": 2, "n": 0}.get(kind[0])
    s = int(kind[0]) if s is None else s
    n = 2 if s else 1
    d = rng.randn(n, *shape)
    T = rng.randn(2, n, *shape)
    if kind == "m":
        return nmt.NmtField(m, None, spin=s, **kw)
    if "t" in kind:
        kw["templates"] = T
    if "b" in kind:
        kw["beam"] = beam
    if kind == "l":
        kw["lite"] = True
    if kind == "a":
        kw.update(mask_22=m+0.3, mask_12=0.1*m)
    return nmt.NmtField(m, d, spin=s, purify_b="B" in kind,
                        purify_e="E" in kind, n_iter=1, **kw)


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def agree(ctx, key, one, two, detail):
    """Both refuse or both give the same numbers."""
    (a, ea), (b, eb) = attempt(one), attempt(two)
    if (ea is None) != (eb is None):
        ctx.fail(key+"-outcome", "%s: estimator %r, steps %r" % (
            detail, ea or "value", eb or "value"))
        return False
    if ea is None:
        ctx.close(key, a, b, rtol=1e-9, detail=detail)
    return ea is None


def run_curved(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 70 if case["geo"] == "hpbig" else 5
    f1 = curved_field(case["x"], case["geo"], ctx.seed+1, lmax)
    f2 = f1 if case.get("same") else curved_field(
        case["y"], case["geo"], ctx.seed+2, lmax)
    l = np.arange(lmax+1)
    b = L.Scheme(lmax, np.where(l < 2, -1, (l-2)//2), weights=1+0.2*l,
                 f_ell=1.+l).nmt
    rng = np.random.RandomState(ctx.seed+29)
    n = (2 if f1.spin else 1)*(2 if f2.spin else 1)
    noise, guess = rng.randn(2, n, lmax+1)
    wm, _ = attempt(lambda: nmt.NmtWorkspace.from_fields(f1, f2, b))
    wf, _ = attempt(lambda: nmt.NmtWorkspace.from_fields(
        f1, f2, b, normalization='FKP'))
    if wm is not None:  # one whose content is not that of the fields
        M = wm.get_coupling_matrix()
        wo = nmt.NmtWorkspace.from_fields(f1, f2, b)
        wo.update_coupling_matrix(M+0.01*rng.randn(*M.shape))
    tz = [{}, dict(l_toeplitz=3, l_exact=2, dl_band=1),
          dict(l_toeplitz=4, l_exact=1, dl_band=0)]
    if lmax > 5:
        tz = [{}, dict(l_toeplitz=40, l_exact=20, dl_band=12),
              dict(l_toeplitz=60, l_exact=5, dl_band=3)]
    for hn, hg, wsp, norm, t in itertools.product(
            (0, 1), (0, 1), (None, "m", "f", "o"), ("MASTER", "FKP"),
            range(3)):
        if wsp and wm is None:
            continue
        w0 = {None: None, "m": wm, "f": wf, "o": wm and wo}[wsp]
        if wsp and w0 is None:
            continue
        kw = dict(tz[t])
        if norm != "MASTER":
            kw["normalization"] = norm
        nn, gg = noise.copy(), guess.copy()

        def one():
            return nmt.compute_full_master(
                f1, f2, b if not wsp or hn else None,
                cl_noise=nn if hn else None, cl_guess=gg if hg else None,
                workspace=w0, **kw)

        def two():
            pcl = nmt.compute_coupled_cell(f1, f2)
            bias = nmt.deprojection_bias(f1, f2, guess if hg else 0*guess)
            w = w0 or nmt.NmtWorkspace.from_fields(f1, f2, b, **kw)
            return w.decouple_cell(pcl, cl_bias=bias, cl_noise=noise
                                   if hn else None)
        ok = agree(ctx, "curved", one, two, str([hn, hg, wsp, norm, t]))
        ctx.check(np.array_equal(nn, noise) and np.array_equal(gg, guess),
                  "inputs")
        ctx.evaluated([hn, hg, wsp, norm, t], ok, nontrivial=ok)
    # joint T/E/B-style: the bands matter
    b2 = L.one_bin(lmax)
    agree(ctx, "curved", lambda: nmt.compute_full_master(f1, f2, b2),
          lambda: nmt.NmtWorkspace.from_fields(f1, f2, b2).decouple_cell(
              nmt.compute_coupled_cell(f1, f2),
              cl_bias=nmt.deprojection_bias(f1, f2, 0*guess)), "b2")


def run_flat(case, ctx):
    import pymaster as nmt
    rng = np.random.RandomState(ctx.seed+30)
    nx, ny, lx, ly = (48, 35, 0.72, 0.59) if case.get("big") else (
        8, 6, 0.12, 0.1)
    l0 = 2*np.pi/lx

    def field(kind):
        s = int(kind[0])
        n = 2 if s else 1
        kw = {}
        if "t" in kind:
            kw["templates"] = rng.randn(2, n, ny, nx)
        if kind[-1] != "t":
            kw["beam"] = np.array([np.arange(0, 12*l0, l0/2),
                                   np.exp(-0.05*np.arange(24))])
        return nmt.NmtFieldFlat(lx, ly, 0.3+rng.rand(ny, nx),
                                rng.randn(n, ny, nx), spin=s,
                                purify_b="B" in kind, purify_e="E" in kind,
                                **kw)
    f1 = field(case["x"])
    f2 = f1 if case.get("same") else field(case["y"])
    ed = np.array([0.5, 1.6, 2.7, 4.2])*l0
    b = nmt.NmtBinFlat(ed[:-1], ed[1:])
    bother = nmt.NmtBinFlat(ed[:-1]*1.1, ed[1:]*1.05)
    n = f1.fl.nmaps*f2.fl.nmaps
    lg = np.linspace(0, 10*l0, 15)
    noise, guess = rng.randn(n, 3), rng.randn(n, 15)
    cuts = [{}, dict(ell_cut_x=[-0.5*l0, 0.5*l0]),
            dict(ell_cut_y=[0.9*l0, 1.9*l0]),
            dict(ell_cut_x=[-1.1*l0, -0.9*l0], ell_cut_y=[-0.1, 0.1])]

    def ws(c, bb=b):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f1, f2, bb, **cuts[c])
        return w
    W = [attempt(lambda c=c: ws(c))[0] for c in range(len(cuts))]
    wx = attempt(lambda: ws(0, bother))[0]
    for hn, hg, c, wk in itertools.product((0, 1), (0, 1), range(len(cuts)),
                                           (None, 0, 1, "bad")):
        w0 = None if wk is None else wx if wk == "bad" else W[wk]
        if wk is not None and w0 is None:
            continue
        nn, gg, ll = noise.copy(), guess.copy(), lg.copy()
        kw = dict(cuts[c])
        if hn:
            kw["cl_noise"] = nn
        if hg:
            kw.update(cl_guess=gg, ells_guess=ll)

        def one():
            return nmt.compute_full_master_flat(f1, f2, b, workspace=w0, **kw)

        def two():
            pcl = nmt.compute_coupled_cell_flat(f1, f2, b, **cuts[c])
            bias = nmt.deprojection_bias_flat(f1, f2, b, lg, guess*hg,
                                              **cuts[c])
            w = w0 or ws(c)
            if wk == "bad":
                raise ValueError("different bandpowers")
            return w.decouple_cell(pcl, cl_bias=bias,
                                   cl_noise=noise if hn else None)
        ok = agree(ctx, "flat", one, two, str([hn, hg, c, wk]))
        ctx.check(np.array_equal(nn, noise) and np.array_equal(gg, guess) and
                  np.array_equal(ll, lg), "inputs")
        ctx.evaluated([hn, hg, c, wk], ok, nontrivial=ok)


def run_refuse(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 5
    f0 = curved_field("0", "hp", 1, lmax)
    f2 = curved_field("2", "hp", 2, lmax)
    fx = curved_field("0", "hp", 1, lmax-1)
    b = L.one_bin(lmax)
    w = nmt.NmtWorkspace.from_fields(f0, f2, b)
    full = nmt.compute_full_master
    ctx.raises("nothing", lambda: full(f0, f2), exc=SyntaxError)
    for fa, fb in ((f0, fx), (fx, f0), (fx, f2)):
        ctx.raises("incompatible", lambda: full(fa, fb, b), exc=ValueError)
        ctx.raises("incompatible", lambda: full(fa, fb, workspace=w),
                   exc=ValueError)
    for shp in ((1, lmax+1), (4, lmax+1), (2, lmax), (2, lmax+2),
                (2*lmax+2,)):
        for k in ("cl_noise", "cl_guess"):
            for q in (dict(b=b), dict(workspace=w)):
                ctx.raises("shape", lambda: full(
                    f0, f2, **{k: np.ones(shp)}, **q), exc=Exception,
                    detail="%s %s" % (k, shp))
                ctx.evaluated([k, shp, list(q)])
    # a workspace for other spins is refused
    for fa, fb in ((f0, f0), (f2, f2)):
        ctx.raises("spins", lambda: full(fa, fb, workspace=w))
        ctx.evaluated([fa.spin, fb.spin])
