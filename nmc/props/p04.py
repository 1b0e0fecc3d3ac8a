"""P04: FITS round trips of the four kinds of workspaces."""
import itertools
import os
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: all write/read/update chains up "
             "to a depth over an exhaustive set of configurations, executed "
             "on the real objects in lockstep with a never-serialised twin")
RULE = ("Every configuration (spin pair, TEB, purification, normalisation, "
        "binning incl. gaps and overlapping bands, beam, lmax_mask, "
        "Toeplitz for curved; spins, cuts, purification for flat; spin "
        "combinations, spin-0-only for covariances) and every chain (write, "
        "read, update or not) up to three generations: every observable "
        "compared with a twin that never went through a file, and the bytes "
        "of successive generations compared; files in the two earlier "
        "layouts the reader supports likewise.big: objects whose file has "
        "thousands of bands or megabytes. Non-trivial: twin has non-zero "
        "results.")
ASSUMES = ["the twin's own values are checked by P01, P02, P06, P07, P23"]
MIN_EVAL = 300

CFGS = ["00", "02", "20", "22", "12", "02B", "2B2B", "22B", "teb", "tebB",
        "11"]


def cases(tier, seed):
    for cfg in CFGS:
        for norm in ("MASTER", "FKP"):
            for lmask in (5, 4, 7):
                for bins in range(4):
                    yield dict(t="curved", cfg=cfg, norm=norm, lmask=lmask,
                               bins=bins, depth=2 if tier == "quick" else 3)
    for cfg in ("00", "02", "22"):
        for aniso in (0, 1):
            for tp in (0, 1):
                yield dict(t="curved", cfg=cfg, norm="MASTER", lmask=5,
                           bins=0, depth=3, toep=tp, aniso=aniso*(1-tp))
    for sp in ((0, 0), (0, 2), (2, 0), (2, 2), (1, 2)):
        for pure in (0, 1):
            for teb in (0, 1):
                if teb and sp[0] != 0 or teb and sp[1] == 0:
                    continue
                for cut in (0, 1):
                    for bins in (0, 1):
                        for geo in (0, 1):
                            yield dict(t="flat", spins=list(sp), pure=pure,
                                       teb=teb, cut=cut, bins=bins, geo=geo)
    for sp in itertools.product((0, 2), repeat=4):
        for tp in (0, 1):
            yield dict(t="cov", spins=list(sp), toep=tp)
        for geo in (0, 1):
            yield dict(t="covf", spins=list(sp), geo=geo)


    for k in range(6):
        yield dict(t="big", k=k)


def path(n):
    return os.path.join(os.environ["NMC_SCRATCH"], n)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def hdus(fn):
    """Everything in the file except checksums/dates."""
    from astropy.io import fits
    out = {}
    with fits.open(fn) as h:
        for x in h:
            d = None
            if x.data is not None:
                d = x.data.tobytes()
            out[x.name] = (d, tuple((k, str(v)) for k, v in x.header.items()))
    return out


def same_files(ctx, key, a, b):
    """Data exactly equal; keywords equal as numbers."""
    A, B = hdus(a), hdus(b)
    if not ctx.check(set(A) == set(B), key, "HDUs %s / %s" % (
            sorted(A), sorted(B))):
        return
    for n in A:
        ctx.check(A[n][0] == B[n][0], key, "data of %s differ" % n)
        ctx.check(A[n][1] == B[n][1], key, "header of %s differs" % n)


# ------------------------------------------------------------------ curved
def run_curved(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax, lmask = 5, case["lmask"]
    cfg = case["cfg"]
    s1, s2, p1, p2, teb = L.CONFIGS[cfg]
    n = L.ncls_of(cfg)
    rng = np.random.RandomState(ctx.seed+40)
    masks = L.smooth_masks(2, 40+ctx.seed)
    l = np.arange(lmax+1)
    bm = [0.5+rng.rand(lmax+1), np.exp(-0.1*l)]
    sch = [L.Scheme(lmax, [-1, -1, 0, 0, 1, 1]),
           L.Scheme(lmax, [-1, -1, 0, -1, 1, 1], weights=1.+l,
                    f_ell=1+l*0.3),
           L.Scheme(lmax, [0, 0, 0, 1, 1, 1], ells=[2, 3, 4, 3, 4, 5],
                    weights=[1, 2, 3, 1, 2, 1.], f_ell=[1, 2, 3, 2, 3, 4.]),
           L.Scheme(lmax, [1, 1, 0, 0], ells=[5, 4, 3, 2])]
    s = sch[case["bins"]]
    if case.get("aniso"):
        f1, f2 = aniso_fields(nmt, masks, s1, s2, lmax, bm, rng)
    else:
        f1, f2 = L.cfg_fields(cfg, masks, lmax, beams=(bm[0], None),
                              lmax_mask=lmask)
    kw = dict(l_toeplitz=4, l_exact=2, dl_band=1) if case.get("toep") else {}

    def build():
        return nmt.NmtWorkspace.from_fields(
            f1, f2, s.nmt, is_teb=teb, normalization=case["norm"], **kw)
    other = sch[(case["bins"]+1) % 4]
    M2 = rng.randn(*build().get_coupling_matrix().shape)
    ops = {"none": lambda w: None,
           "beam": lambda w: w.update_beams(bm[1], bm[0]),
           "bins": lambda w: w.update_bins(other.nmt),
           "mat": lambda w: w.update_coupling_matrix(M2)}
    cl, bi, no = [rng.randn(n, lmax+1) for _ in range(3)]

    def obs(w):
        return dict(matrix=w.get_coupling_matrix(), couple=w.couple_cell(cl),
                    windows=w.get_bandpower_windows(),
                    decouple=w.decouple_cell(cl),
                    bias=w.decouple_cell(cl, cl_bias=bi, cl_noise=no))

    def compare(key, a, b, det):
        # twin and copy did the same arithmetic: equal up to rounding of
        # the binned matrix
        for k in b:
            sc = np.max(np.abs(b[k]))
            ctx.close("curved:%s:%s" % (key, k), a[k], b[k], rtol=1e-9,
                      scale=sc, detail=det)
    fn = path("w.fits")
    # files in earlier layouts
    twin = build()
    twin.write_to(fn)
    for lay in ("old", "old-norm", "dense"):
        dst = path("old.fits")
        if lay == "dense":
            if not L.to_dense_layout(fn, dst):
                continue
        else:
            if lay == "old" and case["norm"] != "MASTER":
                continue
            L.to_old_layout(fn, dst, lay == "old")
        for o in ops:
            w = nmt.NmtWorkspace.from_file(dst)
            t = build()
            compare("layout-"+lay, obs(w), obs(t), lay)
            ops[o](w)
            ops[o](t)
            compare("layout-%s-%s" % (lay, o), obs(w), obs(t), lay)
            w.write_to(path("g1.fits"))
            compare("layout-rewritten",
                    obs(nmt.NmtWorkspace.from_file(path("g1.fits"))),
                    obs(t), lay)
            wn = nmt.NmtWorkspace.from_file(dst, read_unbinned_MCM=False)
            ctx.close("curved:layout-nounb",
                      wn.decouple_cell(cl, cl_noise=no),
                      build().decouple_cell(cl, cl_noise=no), rtol=1e-9)
            ctx.evaluated(["layout", lay, o])
    for chain in itertools.product(ops, repeat=case["depth"]):
        twin = build()
        w = build()
        ok = True
        for g, o in enumerate(chain):
            w.write_to(fn)
            w = nmt.NmtWorkspace.from_file(fn)
            compare("read", obs(w), obs(twin), "chain %s gen %d" % (chain, g))
            wn = nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=False)
            ctx.close("curved:nounb", wn.decouple_cell(cl, cl_noise=no),
                      twin.decouple_cell(cl, cl_noise=no), rtol=1e-9)
            for nm, f in (("couple", lambda: wn.couple_cell(cl)),
                          ("windows", wn.get_bandpower_windows),
                          ("matrix", wn.get_coupling_matrix),
                          ("write", lambda: wn.write_to(path("x.fits"))),
                          ("updmat",
                           lambda: wn.update_coupling_matrix(M2))):
                ctx.raises("curved:nounb-refusal:"+nm, f)
            ops[o](w)
            ops[o](twin)
            compare("after-"+o, obs(w), obs(twin),
                    "chain %s gen %d" % (chain, g))
            ctx.transition([case, chain[:g]], o, [case, chain[:g+1]])
            ctx.state([case["cfg"], case["norm"], case["bins"],
                       chain[:g+1]])
        # successive generations of files hold the same bytes
        w.write_to(path("g1.fits"))
        nmt.NmtWorkspace.from_file(path("g1.fits")).write_to(path("g2.fits"))
        same_files(ctx, "curved:bytes", path("g1.fits"), path("g2.fits"))
        ctx.trace()
        ctx.evaluated(chain, nontrivial=ok)
    ctx.sample(dict(case, chain=list(chain)))


def run_big(case, ctx):
    """Objects of the size used in practice: more bands than a FITS table
    may have columns, files of megabytes."""
    import pymaster as nmt
    from nmc import lib as L
    rng = np.random.RandomState(ctx.seed+44)
    k = case["k"]
    if k < 3:
        cfg, lmax = [("00", 1100), ("22", 140), ("teb", 120)][k]
        if ctx.tier != "quick":
            lmax = lmax*3//2
        nside = 64
        masks = 1+0.3*rng.rand(2, 12*nside**2)
        s1, s2, p1, p2, teb = L.CONFIGS[cfg]
        n = L.ncls_of(cfg)
        kw = dict(lmax=lmax, lmax_mask=100, n_iter_mask=0)
        f1 = nmt.NmtField(masks[0], None, spin=s1, beam=rng.rand(lmax+1)+0.5,
                          **kw)
        f2 = nmt.NmtField(masks[1], None, spin=s2, **kw)
        b = nmt.NmtBin(ells=np.arange(lmax+1), bpws=np.arange(lmax+1)-2 if
                       k < 2 else np.arange(lmax+1)//2-1,
                       weights=rng.rand(lmax+1)+0.1,
                       f_ell=rng.rand(lmax+1)+0.1)
        w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb)
        w.write_to(path("b.fits"))
        v = nmt.NmtWorkspace.from_file(path("b.fits"))
        x = rng.randn(n, lmax+1)
        y = rng.rand(lmax+1)+0.5
        for i in range(2):
            ctx.check(np.array_equal(v.get_coupling_matrix(),
                                     w.get_coupling_matrix()), "big:matrix",
                      "stored matrix differs")
            ctx.close("big:couple", v.couple_cell(x), w.couple_cell(x),
                      rtol=1e-11)
            ctx.close("big:decouple", v.decouple_cell(x), w.decouple_cell(x),
                      rtol=1e-8)
            v.update_beams(y, y)
            w.update_beams(y, y)
        ctx.evaluated(k, w.decouple_cell(x))
    elif k == 3:
        lmax = 200
        masks = 1+0.3*rng.rand(4, 12*64**2)
        kw = dict(lmax=lmax, lmax_mask=100, n_iter_mask=0)
        f = [nmt.NmtField(m, None, spin=s, **kw) for m, s in zip(
            masks, (0, 2, 0, 2))]
        cw = nmt.NmtCovarianceWorkspace.from_fields(*f)
        cw.write_to(path("b.fits"))
        cv = nmt.NmtCovarianceWorkspace.from_file(path("b.fits"))
        b = L.all_bins(lmax)
        wa, wb = [nmt.NmtWorkspace.from_fields(f[i], f[i+1], b)
                  for i in (0, 2)]
        for sp in ((0, 2, 0, 2), (0, 0, 0, 0), (2, 2, 2, 2)):
            n = [2 if s else 1 for s in sp]
            wa, wb = [nmt.NmtWorkspace.from_fields(
                *[nmt.NmtField(masks[j], None, spin=sp[j], **kw)
                  for j in (i, i+1)], b) for i in (0, 2)]
            c = [rng.randn(n[i]*n[j], lmax+1) for i, j in (
                (0, 2), (0, 3), (1, 2), (1, 3))]
            A, B = [nmt.gaussian_covariance(q, *sp, *c, wa, wb, coupled=True)
                    for q in (cv, cw)]
            ctx.close("big:cov", A, B, rtol=1e-11)
            ctx.evaluated([k, sp], B)
    else:
        m = 0.5+(rng.rand(2, 36, 40) if k == 4 else rng.rand(2, 3, 701))
        f1, f2 = [nmt.NmtFieldFlat(1., 0.8, a, None, spin=0) for a in m]
        e = np.linspace(5, 190 if k == 4 else 2000, 1101)
        b = nmt.NmtBinFlat(e[:-1], e[1:])
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f1, f2, b)
        w.write_to(path("b.fits"))
        v = nmt.NmtWorkspaceFlat()
        v.read_from(path("b.fits"))
        ls = f1.get_ell_sampling()
        x = rng.randn(1, len(ls))
        ctx.close("big:flat", v.couple_cell(ls, x), w.couple_cell(ls, x),
                  rtol=1e-11)
        ctx.evaluated(k, w.couple_cell(ls, x))


def aniso_fields(nmt, masks, s1, s2, lmax, bm, rng):
    out = []
    for m, s in zip(masks, (s1, s2)):
        if s == 0:
            out.append(nmt.NmtField(m, None, spin=0, lmax=lmax,
                                    lmax_mask=lmax))
        else:
            d = 1+0.3*rng.rand(len(m))
            out.append(nmt.NmtField(m*d, None, spin=s, lmax=lmax,
                                    lmax_mask=lmax, mask_22=m/d,
                                    mask_12=0.1*m))
    return out


# -------------------------------------------------------------------- flat
def flat_fields(ctx, sp, pure=0, n=2, k=0, geo=0):
    import pymaster as nmt
    rng = np.random.RandomState(ctx.seed+50+k)
    nx, ny, lx, ly = 6, 8, 0.1, 0.16
    le = np.linspace(0, 600, 7)
    if geo:     # multipoles of the modes on the edges of the rings
        lx, ly = 2*np.pi/60., 2*np.pi/60/np.sqrt(2)
    out = []
    for i, s in enumerate(sp):
        y, x = np.indices((ny, nx))
        m = (0.3+rng.rand(ny, nx))*(np.hypot(y-3.5, x-2.5) < 3.4)
        beam = np.array([le, np.exp(-le/(300.+100*i))])
        mp = rng.randn(1 if s == 0 else 2, ny, nx)
        out.append(nmt.NmtFieldFlat(lx, ly, m, mp, spin=s, beam=beam,
                                    purify_b=bool(pure and s == 2)))
    return out


def flat_bins(i):
    import pymaster as nmt
    return [nmt.NmtBinFlat([30., 70., 120.], [70., 120., 200.]),
            nmt.NmtBinFlat([30., 110.], [100., 210.])][i]


def run_flat(case, ctx):
    import pymaster as nmt
    f1, f2 = flat_fields(ctx, case["spins"], case["pure"], geo=case["geo"])
    b = flat_bins(case["bins"])
    kw = dict(ell_cut_x=[-20., 20.], ell_cut_y=[10., 15.]) if case["cut"] \
        else {}
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f1, f2, b, is_teb=bool(case["teb"]), **kw)
    n, nb = w.wsp.ncls, w.wsp.bin.n_bands
    rng = np.random.RandomState(ctx.seed)
    ell = np.linspace(0, 300, 31)
    cl, dl, d2 = rng.randn(n, 31), rng.randn(n, nb), rng.randn(n, nb)

    def obs(x):
        o = dict(couple=x.couple_cell(ell, cl), decouple=x.decouple_cell(dl),
                 both=x.decouple_cell(dl, cl_bias=d2, cl_noise=d2*2))
        if not case["teb"]:
            o["full"] = nmt.compute_full_master_flat(f1, f2, b, workspace=x,
                                                     **kw)
        return o
    want = obs(w)
    fn = path("f.fits")
    for g in range(4):
        w.write_to(fn)
        if g % 2:
            r = nmt.NmtWorkspaceFlat()
        else:
            r = w          # reading over an initialised object
        r.read_from(fn)
        got = obs(r)
        for k in want:
            ctx.close("flat:"+k, got[k], want[k], rtol=1e-11,
                      detail="generation %d" % g)
        r.write_to(path("f2.fits"))
        same_files(ctx, "flat:bytes", fn, path("f2.fits"))
        w = r
        ctx.transition([case, g], "wr", [case, g+1])
        ctx.state([case, g])
        ctx.trace()
        ctx.evaluated(g, want["decouple"])


# ------------------------------------------------------------- covariances
def run_cov(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 5
    sp = case["spins"]
    ms = L.smooth_masks(2, 70+ctx.seed, 4)
    f = [nmt.NmtField(m, None, spin=s, lmax=lmax, lmax_mask=lmax)
         for m, s in zip(ms, sp)]
    s = L.Scheme(lmax, [-1, -1, 0, 0, 1, 1])
    wa = nmt.NmtWorkspace.from_fields(f[0], f[1], s.nmt)
    wb = nmt.NmtWorkspace.from_fields(f[2], f[3], s.nmt)
    n = [1 if x == 0 else 2 for x in sp]
    rng = np.random.RandomState(ctx.seed)
    cls = [rng.rand(n[i]*n[j], lmax+1)
           for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
    c1 = [c[:1] for c in cls]
    kw = dict(l_toeplitz=4, l_exact=2, dl_band=1) if case["toep"] else {}
    f0 = [nmt.NmtField(m, None, spin=0, lmax=lmax, lmax_mask=lmax)
          for m in ms]
    w0 = nmt.NmtWorkspace.from_fields(f0[0], f0[1], s.nmt)
    fn = path("c.fits")

    def obs(c, wx=wa, wy=wb):
        return [nmt.gaussian_covariance(c, *sp, *cls, wx, wy),
                nmt.gaussian_covariance(c, *sp, *cls, wx, wy, coupled=True),
                nmt.gaussian_covariance(c, 0, 0, 0, 0, *c1, w0, w0)]
    for s0 in (0, 1):
        cw = nmt.NmtCovarianceWorkspace.from_fields(*f, spin0_only=bool(s0),
                                                    **kw)
        full = nmt.NmtCovarianceWorkspace.from_fields(*f, **kw)
        want = obs(full)
        cw.write_to(fn)
        for g in range(3):
            for force in (0, 1):
                c = nmt.NmtCovarianceWorkspace.from_file(
                    fn, force_spin0_only=bool(force))
                ctx.close("cov:spin0", nmt.gaussian_covariance(
                    c, 0, 0, 0, 0, *c1, w0, w0), want[2], rtol=1e-11)
                if (force or s0) and any(sp):
                    ctx.raises("cov:spin0-refusal", lambda: obs(c))
                else:
                    for a, b in zip(obs(c), want):
                        ctx.close("cov:full", a, b, rtol=1e-11)
                c.write_to(path("c%d.fits" % force))
                c2 = nmt.NmtCovarianceWorkspace.from_file(
                    path("c%d.fits" % force))
                ctx.close("cov:rewrite", nmt.gaussian_covariance(
                    c2, 0, 0, 0, 0, *c1, w0, w0), want[2], rtol=1e-11)
                ctx.state([case, s0, g, force])
                ctx.transition([case, s0, g], force, [case, s0, g+1])
                ctx.trace()
                ctx.evaluated([s0, g, force], want[0])
            same_files(ctx, "cov:bytes", fn, path("c0.fits"))
            os.replace(path("c0.fits"), fn)
        # workspaces read from file are as good as new ones
        wa.write_to(path("wa.fits"))
        for unb in (True, False):
            wr = nmt.NmtWorkspace.from_file(path("wa.fits"),
                                            read_unbinned_MCM=unb)
            got = nmt.gaussian_covariance(full, *sp, *cls, wr, wb)
            ctx.close("cov:wsp-from-file", got, want[0], rtol=1e-11)


def run_covf(case, ctx):
    import pymaster as nmt
    sp = case["spins"]
    f = flat_fields(ctx, sp, geo=case.get("geo", 0))
    b = flat_bins(0)
    wa, wb = nmt.NmtWorkspaceFlat(), nmt.NmtWorkspaceFlat()
    wa.compute_coupling_matrix(f[0], f[1], b)
    wb.compute_coupling_matrix(f[2], f[3], b)
    n = [1 if x == 0 else 2 for x in sp]
    rng = np.random.RandomState(ctx.seed)
    ell = np.linspace(0, 300, 31)
    cls = [rng.rand(n[i]*n[j], 31)
           for i, j in ((0, 2), (0, 3), (1, 2), (1, 3))]
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(f[0], f[1], b, f[2], f[3])

    def obs(c):
        return nmt.gaussian_covariance_flat(c, *sp, ell, *cls, wa, wb)
    want = obs(cw)
    fn = path("cf.fits")
    for g in range(3):
        cw.write_to(fn)
        r = cw if g % 2 else nmt.NmtCovarianceWorkspaceFlat()
        r.read_from(fn)
        ctx.close("covf", obs(r), want, rtol=1e-11)
        r.write_to(path("cf2.fits"))
        same_files(ctx, "covf:bytes", fn, path("cf2.fits"))
        cw = r
        ctx.state([case, g])
        ctx.transition([case, g], "wr", [case, g+1])
        ctx.trace()
        ctx.evaluated(g, want)
