"""P02: couple, decouple, windows of curved-sky workspaces."""
import itertools
import numpy as np

LEVEL = "exploration"
RULE = ("Every assignment of the multipoles 2..lmax of a small band limit to "
        "bands {none,0,1,(2)} using all of them (and of 0..lmax for a "
        "smaller one), for every spin "
        "configuration (incl. TEB, purified), with rotating choices of "
        "weights, prefactors, beams and normalisation so that each pair of "
        "choices occurs; plus linear/Dell schemes at larger band limits. Per "
        "workspace every unit-impulse spectrum (component, multipole) is "
        "coupled and decoupled, with bias, noise and over-long inputs, and "
        "the windows compared element by element. big: lmax 191 "
        "(thorough 383), up to 188 bands, up to 160 multipoles in a band. Non-trivial: binned matrix "
        "invertible and at least one band with two multipoles or a gap.")
ASSUMES = ["the stored coupling matrix itself is checked by P01/P26"]
MIN_EVAL = 300


def assignments(lo, lmax, nb):
    for a in itertools.product(range(-1, nb), repeat=lmax-lo+1):
        used = set(x for x in a if x >= 0)
        if used == set(range(nb)):
            yield [-1]*lo+list(a)


def cases(tier, seed):
    lim = 5 if tier == "quick" else 6
    cfgs = ["00", "02", "20", "22", "12", "02B", "2B2B", "22B", "teb",
            "teb1", "tebB", "11"]
    k = 0
    for nb in (1, 2, 3):
        for a in assignments(2, lim, nb):
            # symmetric under relabelling; keep all (order of bands matters)
            for j, c in enumerate(cfgs):
                yield dict(t="small", lmax=lim, bpws=a, cfg=c, seed=seed,
                           wt=(k//2) % 3, f=(k//3) % 3, beam=(k//4+j) % 3,
                           norm=("MASTER", "MASTER", "FKP")[(k+j//4) % 3])
            k += 1
    for nb in (1, 2):
        for a in assignments(0, 3 if tier == "quick" else 4, nb):
            for j, c in enumerate(cfgs):
                yield dict(t="small", lmax=len(a)-1, bpws=a, cfg=c, seed=seed,
                           wt=(k//2) % 3, f=(k//3) % 3, beam=(k//4+j) % 3,
                           norm=("MASTER", "FKP")[k % 2])
            k += 1
    for nside in (4,) if tier == "quick" else (4, 8):
        for nlb in (1, 3, 4):
            for dell in (0, 1):
                for c in cfgs:
                    if nside == 8 and c.startswith("teb"):
                        continue
                    yield dict(t="lin", nside=nside, nlb=nlb, dell=dell,
                               cfg=c, seed=seed, norm="MASTER" if nlb != 3
                               else "FKP", beam=(nlb+dell) % 3)
    yield from big_cases(tier)


def big_cases(tier):
    for nside in (32, 64) if tier == "quick" else (32, 64, 128):
        for j, c in enumerate(["00", "02", "20", "22", "12", "02B", "2B2B",
                               "teb"]):
            for k in range(4):
                if nside > 32 and (c == "teb" or nside > 64 and k == 2):
                    continue
                yield dict(t="big", nside=nside, cfg=c, k=k, seed=k,
                           beam=(j+k) % 3,
                           norm="FKP" if (j+k) % 4 == 3 else "MASTER")


def big_scheme(case, lmax, rng):
    """Schemes at realistic sizes: linear, irregular with gaps, every l."""
    import pymaster as nmt
    from nmc import lib as L
    l = np.arange(lmax+1)
    if case["k"] == 0:
        bp = np.array([-1, -1]+[i//5 for i in range(lmax-1)])
        if (lmax-1) % 5:
            bp[bp == bp.max()] = -1
        sch = L.Scheme(lmax, bp, f_ell=l*(l+1)/(2*np.pi)+1e-300)
        sch.nmt = nmt.NmtBin.from_lmax_linear(lmax, 5, is_Dell=True)
        return sch
    if case["k"] == 1:
        # widths growing with l, gaps, multipoles listed in any order
        bp, a, i = np.full(lmax+1, -1), 3, 0
        while a+2+i <= lmax:
            bp[a:a+2+i] = i
            a += 2+i+i % 3
            i += 1
        o = rng.permutation(lmax+1)
        return L.Scheme(lmax, bp[o], ells=o, weights=0.2+rng.rand(lmax+1),
                        f_ell=0.5+rng.rand(lmax+1))
    if case["k"] == 3:
        # two bands of very unequal width, one of most of the multipoles
        return L.Scheme(lmax, np.where(l < 2, -1, (l % 7 == 3)*1),
                        weights=0.2+rng.rand(lmax+1),
                        f_ell=0.5+rng.rand(lmax+1))
    return L.Scheme(lmax, np.where(l < 3, -1, l-3), f_ell=1.+l)


def run_big(case, ctx):
    import pymaster as nmt
    import healpy as hp
    from nmc import lib as L
    cfg, nside = case["cfg"], case["nside"]
    n = L.ncls_of(cfg)
    lmax = 3*nside-1-(case["k"] == 1)
    rng = np.random.RandomState(ctx.seed*10+case["k"])
    sch = big_scheme(case, lmax, rng)
    x = np.array(hp.pix2vec(nside, np.arange(12*nside**2)))
    masks = [np.exp(v @ x)*(1+0.1*rng.rand(x.shape[1]))
             for v in rng.randn(2, 3)*0.7]
    masks[1][x[2] > 0.9] = 0
    bs = [np.exp(-0.01*np.arange(lmax+1)), 0.4+rng.rand(lmax+1)]
    beams = [(None, None), (bs[0], None), tuple(bs)][case["beam"]]
    f1, f2 = L.cfg_fields(cfg, masks, lmax, beams=beams)
    w = nmt.NmtWorkspace.from_fields(
        f1, f2, sch.nmt, is_teb=L.CONFIGS[cfg][4],
        normalization=case["norm"])
    b = np.ones(lmax+1)
    for y in beams:
        if y is not None:
            b = b*y
    model = L.WspModel(w.get_coupling_matrix(), b, sch, n, case["norm"],
                       np.mean(masks[0]*masks[1]))
    cond = model.cond()
    if not cond < 1e10:
        ctx.evaluated("singular", nontrivial=False)
        return
    tol = max(1e-10, 1e-13*cond)
    nl = lmax+1
    dec = model.decoupler()
    for i in range(6):
        cl = rng.randn(n, nl)
        ctx.close("couple", w.couple_cell(cl), model.couple(cl), rtol=tol)
        bi, no = rng.randn(2, n, nl)*(i > 2)
        want = (dec @ (cl-bi-no).T.ravel()).reshape(-1, n).T
        kw = dict(cl_bias=bi, cl_noise=no) if i > 2 else {}
        ctx.close("decouple", w.decouple_cell(cl, **kw), want, rtol=tol)
        ctx.evaluated([i], want)
    Wn = w.get_bandpower_windows()
    want = (dec @ model.coupler()).reshape(sch.nb, n, nl, n
                                           ).transpose(1, 0, 3, 2)
    ctx.close("windows", Wn, want, rtol=tol)
    if case["norm"] == "MASTER":
        v = rng.randn(n, sch.nb)
        ctx.close("piecewise", w.decouple_cell(w.couple_cell(v @ sch.U.T)),
                  v, rtol=tol*100)
    ctx.evaluated("big", Wn)
    ctx.sample(dict(case, cond=cond))


def run(case, ctx):
    import pymaster as nmt
    if case["t"] == "big":
        return run_big(case, ctx)
    from nmc import lib as L
    cfg = case["cfg"]
    n = L.ncls_of(cfg)
    nside = case.get("nside", 2)
    rng = np.random.RandomState(ctx.seed*100+5)
    if case["t"] == "small":
        lmax = case["lmax"]
        wt = [np.ones(lmax+1), 1.+np.arange(lmax+1), 0.3+rng.rand(lmax+1)
              ][case["wt"]]
        l = np.arange(lmax+1)
        fl = [np.ones(lmax+1), (l*(l+1)+1e-300)/(2*np.pi), 0.5+rng.rand(lmax+1)
              ][case["f"]]
        sch = L.Scheme(lmax, case["bpws"], weights=wt, f_ell=fl)
    else:
        lmax = 3*nside-1
        nlb = case["nlb"]
        bp = np.array([-1, -1]+[i//nlb for i in range(lmax-1)])
        if (lmax-1) % nlb:
            bp[bp == bp.max()] = -1
        l = np.arange(lmax+1)
        fl = l*(l+1)/(2*np.pi)+1e-300 if case["dell"] else np.ones(lmax+1)
        sch = L.Scheme(lmax, bp, f_ell=fl)
        sch.nmt = nmt.NmtBin.from_nside_linear(nside, nlb,
                                               is_Dell=bool(case["dell"]))
    beams = [(None, None),
             (np.exp(-0.03*np.arange(lmax+1)), None),
             (0.4+rng.rand(lmax+1), 0.4+rng.rand(lmax+1))][case["beam"]]
    masks = L.smooth_masks(nside, 50+ctx.seed)
    f1, f2 = L.cfg_fields(cfg, masks, lmax, beams=beams)
    teb = L.CONFIGS[cfg][4]
    w = nmt.NmtWorkspace.from_fields(f1, f2, sch.nmt, is_teb=teb,
                                     normalization=case["norm"])
    M = w.get_coupling_matrix()
    b = np.ones(lmax+1)
    for x in beams:
        if x is not None:
            b = b*x
    model = L.WspModel(M, b, sch, n, case["norm"],
                       np.mean(masks[0]*masks[1]))
    cond = model.cond()
    if not cond < 1e9:
        ctx.evaluated("singular", nontrivial=False)
        return
    tol = max(1e-10, 1e-13*cond)
    # couple: every impulse
    C = model.coupler()
    sc = np.max(np.abs(C))
    D = model.decoupler()
    sd = np.max(np.abs(D))
    nl = lmax+1
    wt = None
    for c in range(n):
        for l in range(nl):
            e = np.zeros((n, nl))
            e[c, l] = 1
            got = w.couple_cell(e)
            want = C[:, n*l+c].reshape(nl, n).T
            ctx.close("couple", got, want, rtol=tol, scale=sc,
                      detail="impulse %d,%d" % (c, l))
            d = w.decouple_cell(e)
            want = D[:, n*l+c].reshape(sch.nb, n).T
            ctx.close("decouple", d, want, rtol=tol, scale=sd,
                      detail="impulse %d,%d" % (c, l))
            ctx.add("impulses")
    Wn = w.get_bandpower_windows()
    ctx.close("windows", Wn, model.windows(), rtol=tol)
    # generic, longer inputs, bias, noise
    cl = rng.randn(n, nl+3)
    bi = rng.randn(n, nl+(case["beam"] != 1)*2)
    no = rng.randn(n, nl)
    ctx.close("couple-long", w.couple_cell(cl), model.couple(cl), rtol=tol)
    ctx.close("decouple-long", w.decouple_cell(cl), model.decouple(cl),
              rtol=tol)
    ctx.close("decouple-bias", w.decouple_cell(cl, cl_bias=bi),
              model.decouple(cl, bias=bi[:, :nl]), rtol=tol)
    ctx.close("decouple-noise", w.decouple_cell(cl[:, :nl], cl_noise=no),
              model.decouple(cl, noise=no), rtol=tol)
    ctx.close("decouple-both", w.decouple_cell(cl[:, :nl], cl_noise=no,
                                               cl_bias=bi[:, :nl]),
              model.decouple(cl, noise=no, bias=bi[:, :nl]), rtol=tol)
    # each array longer than needed by its own amount
    for k1, k2, k3 in ((0, 5, 0), (0, 0, 4), (2, 0, 6), (0, 4, 1), (1, 3, 5)):
        x, y, z = [rng.randn(n, nl+k) for k in (k1, k2, k3)]
        ctx.close("decouple-lengths", w.decouple_cell(
            x, cl_bias=y, cl_noise=z), model.decouple(
                x[:, :nl], bias=y[:, :nl], noise=z[:, :nl]), rtol=tol,
            detail=str((k1, k2, k3)))
        ctx.close("decouple-lengths", w.decouple_cell(
            x, cl_noise=z), model.decouple(x[:, :nl], noise=z[:, :nl]),
            rtol=tol, detail=str((k1, k2, k3)))
    # windows are couple-then-decouple
    x = rng.randn(n, nl)
    ctx.close("windows-use", np.einsum("abcl,cl->ab", Wn, x),
              w.decouple_cell(w.couple_cell(x)), rtol=tol*10)
    # constant inside bands
    if case["norm"] == "MASTER":
        v = rng.randn(n, sch.nb)
        pc = v @ sch.U.T
        got = w.decouple_cell(w.couple_cell(pc))
        ctx.close("piecewise", got, v, rtol=tol*100)
    multi = any(len(x) > 1 for x in sch.bands)
    ctx.evaluated("wsp", Wn, nontrivial=multi or min(case.get(
        "bpws", [-1])) < 0)
    ctx.sample(dict(case, cond=cond, window0=Wn[0, 0, 0].tolist()))
