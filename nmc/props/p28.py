"""P28: FKP normalisation."""
import itertools
import os
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every configuration (spins, masks, "
             "binnings, weights, beams) and every sequence of workspace "
             "operations up to a depth on the real objects; after each "
             "sequence the decoupled bandpowers of every unit impulse are "
             "compared with the binned spectrum over the mean mask product")
RULE = ("configs: field pairs x binnings x beams x geometry; histories: all "
        "sequences of updates, rejected updates, file round trips and "
        "recomputations up to depth 3 (4); catalogues; refusals; big: lmax up "
        "to 140, 14000 sources. Non-trivial: "
        "every comparison.")
ASSUMES = ["the coupling matrix entering the windows is checked by P01/P14"]
MIN_EVAL = 500

OPS = ["beamA", "beamB", "binsA", "binsB", "mat", "badmat", "badbeam",
       "io", "ioU", "again", "master", "refuse"]


def cases(tier, seed):
    from nmc import lib as L
    for cfg in L.CONFIGS:
        for geo in ("hp", "car"):
            for k in range(4):
                yield dict(t="conf", cfg=cfg, geo=geo, k=k)
    for op in OPS:
        yield dict(t="hist", first=op, depth=3 if tier == "quick" else 4)
    for s in (0, 1, 2):
        yield dict(t="cat", s=s)
    yield dict(t="refuse")
    for cfg in ("00", "02", "22", "2B2B"):
        for geo in ("hp", "car", "cat"):
            if geo != "cat" or cfg in ("00", "22"):
                yield dict(t="big", cfg=cfg, geo=geo)


def run_big(case, ctx):
    """Sizes used in practice: mean mask product, generic spectra."""
    import pymaster as nmt
    import healpy as hp
    from nmc import lib as L
    cfg, geo = case["cfg"], case["geo"]
    n = L.ncls_of(cfg)
    rng = np.random.RandomState(ctx.seed+281)
    for lmax in (64, 140):
        kw = {}
        if geo == "hp":
            nside = 64 if lmax == 64 else 128
            x = np.array(hp.pix2vec(nside, np.arange(12*nside**2)))
            area = 4*np.pi/x.shape[1]
        elif geo == "car":
            kw["wcs"], shape = L.car_wcs(2*lmax+11, 4*lmax, -1, 1, ra0=100.,
                                         theta0=9, ny=2*lmax-7, nx=3*lmax,
                                         phi_start=20.)
            x = rng.randn(3, 1, 1)*np.ones(shape)
            x = x+np.linspace(-1, 1, shape[0])[None, :, None]
            area = (L.cc_weights(2*lmax+11)[9:9+shape[0]]*2*np.pi/(
                4*lmax))[:, None]
        if geo == "cat":
            k = 100*lmax
            pos = np.array([np.arccos(rng.uniform(-1, 1, k)),
                            rng.uniform(0, 6.28, k)])
            wt = 0.2+rng.rand(k)
            s = int(cfg[0])
            f1 = f2 = nmt.NmtFieldCatalog(pos, wt, rng.randn(2 if s else 1,
                                                             k), lmax,
                                          lmax_mask=lmax, spin=s)
            w2 = np.sum(wt**2)/(4*np.pi)
        else:
            m = [np.exp(0.3*np.tensordot(v, x, (0, 0)))*(
                0.5+rng.rand(*x.shape[1:])) for v in rng.randn(2, 3)]
            f1, f2 = L.cfg_fields(cfg, m, lmax, **kw)
            w2 = np.sum(area*m[0]*m[1])/(4*np.pi)
        for sch in schemes(lmax):
            w = nmt.NmtWorkspace.from_fields(f1, f2, sch.nmt,
                                             normalization='FKP')
            W = sch.W/w2
            y, b, o = rng.randn(3, n, lmax+1)
            ctx.close("decouple", w.decouple_cell(y, cl_bias=b, cl_noise=o),
                      (y-b-o) @ W.T, rtol=1e-9)
            win = (L.pairmat(W, n) @ w.get_coupling_matrix()).reshape(
                sch.nb, n, lmax+1, n).transpose(1, 0, 3, 2)
            ctx.close("windows", w.get_bandpower_windows(), win, rtol=1e-9)
            ctx.evaluated([lmax, sch.nb], [w2, sch.nb])


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def schemes(lmax):
    from nmc import lib as L
    l = np.arange(lmax+1)
    return [L.Scheme(lmax, np.where(l < 2, -1, (l-2)//2), weights=1+0.3*l),
            L.Scheme(lmax, np.where(l < 1, -1, (l-1)//3), f_ell=0.5+l),
            L.Scheme(lmax, l, weights=2.+0*l),
            L.Scheme(lmax, np.where((l < 2) | (l == lmax), -1, 0),
                     weights=1+l, f_ell=1e-3*(1+l)**2)]


def judge(ctx, w, sch, n, beam, w2, detail):
    """Every observable of an FKP workspace."""
    lmax = sch.lmax
    M = w.get_coupling_matrix()
    W = sch.W/w2
    for c in range(n):
        for l in range(lmax+1):
            e = np.zeros((n, lmax+1))
            e[c, l] = 1
            want = np.zeros((n, sch.nb))
            want[c] = W[:, l]
            ctx.close("decouple", w.decouple_cell(e), want, rtol=1e-11,
                      scale=np.abs(W).max(), detail=detail)
    rng = np.random.RandomState(5)
    x, b, o = rng.randn(3, n, lmax+1)
    ctx.close("decouple", w.decouple_cell(x, cl_bias=b, cl_noise=o),
              (x-b-o) @ W.T, rtol=1e-10, detail=detail)
    C = M*np.repeat(beam, n)[None, :]
    ctx.close("couple", w.couple_cell(x), (C @ x.T.ravel()).reshape(-1, n).T,
              rtol=1e-10, detail=detail)
    from nmc import lib as L
    win = (L.pairmat(W, n) @ C).reshape(sch.nb, n, lmax+1, n).transpose(
        1, 0, 3, 2)
    ctx.close("windows", w.get_bandpower_windows(), win, rtol=1e-10,
              detail=detail)
    ctx.evaluated(detail, win)


def run_conf(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    cfg = case["cfg"]
    s1, s2, p1, p2, teb = L.CONFIGS[cfg]
    n = L.ncls_of(cfg)
    lmax = 5+case["k"] % 2
    rng = np.random.RandomState(ctx.seed+28+case["k"])
    kw = {}
    if case["geo"] == "hp":
        masks = L.smooth_masks(2, ctx.seed+case["k"])
        area = 4*np.pi/48*np.ones(48)
    else:
        kw["wcs"], shape = L.car_wcs(9, 14, -1, 1, ra0=100., theta0=2,
                                     ny=5, nx=9, phi_start=20.)
        masks = [0.1+rng.rand(*shape) for _ in range(2)]
        area = np.repeat(L.cc_weights(9)[2:7]*2*np.pi/14, 9)
    if case["k"] == 3:
        masks[1] = masks[0]
    beams = [None, np.exp(-0.1*np.arange(lmax+1)), 0.3+rng.rand(lmax+1),
             1+0.1*np.arange(lmax+1)][case["k"]]
    f1, f2 = L.cfg_fields(cfg, masks, lmax, beams=(beams, None),
                          same=case["k"] == 3, **kw)
    bt = np.ones(lmax+1) if beams is None else beams
    if f2 is f1:
        bt = bt**2
    sch = schemes(lmax)[case["k"]]
    w = nmt.NmtWorkspace.from_fields(f1, f2, sch.nmt, is_teb=teb,
                                     normalization='FKP')
    w2 = np.sum(area*masks[0].ravel()*masks[1].ravel())/(4*np.pi)
    judge(ctx, w, sch, n, bt, w2, "")
    # a mask rescaling changes the normalisation quadratically
    g1, g2 = L.cfg_fields(cfg, [3*masks[0], 0.5*masks[1]], lmax,
                          beams=(beams, None), **kw)
    w = nmt.NmtWorkspace.from_fields(g1, g2, sch.nmt, is_teb=teb,
                                     normalization='FKP')
    x = rng.randn(n, lmax+1)
    ctx.close("rescaled", w.decouple_cell(x), x @ sch.W.T/(1.5*w2),
              rtol=1e-10)


def run_hist(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 5
    rng = np.random.RandomState(ctx.seed+29)
    masks = L.smooth_masks(2, ctx.seed+29)
    w2 = np.mean(masks[0]*masks[1])
    kw = dict(lmax=lmax, lmax_mask=lmax)
    bA, bB = 0.3+rng.rand(2, lmax+1)
    f0 = nmt.NmtField(masks[0], None, spin=0, **kw)
    f2 = nmt.NmtField(masks[1], None, spin=2, beam=bA, **kw)
    S = schemes(lmax)
    M2 = rng.randn(12, 12)
    f = os.path.join(os.environ["NMC_SCRATCH"], "fkp.fits")

    def start():
        w = nmt.NmtWorkspace.from_fields(f0, f2, S[0].nmt,
                                         normalization='FKP')
        return w, dict(s=0, b=bA, M=w.get_coupling_matrix().copy())
    M0 = start()[1]["M"]
    for rest in itertools.product(OPS, repeat=case["depth"]-1):
        ops = (case["first"],)+rest
        w, st = start()
        un = True
        for op in ops:
            if op in ("beamA", "beamB"):
                b = bA if op == "beamA" else bB
                if un:
                    w.update_beams(b, np.ones(lmax+1))
                    st["b"] = b
            elif op in ("binsA", "binsB"):
                k = 1 if op == "binsA" else 3
                if un:
                    w.update_bins(S[k].nmt)
                    st["s"] = k
            elif op == "mat":
                if un:
                    w.update_coupling_matrix(M2)
                    st["M"] = M2
            elif op == "badmat":
                ctx.raises("badmat", lambda: w.update_coupling_matrix(
                    np.ones((6, 6))))
            elif op == "badbeam":
                ctx.raises("badbeam", lambda: w.update_beams(bA[:2], bB))
            elif op == "io" and un:
                w.write_to(f)
                w.read_from(f)
            elif op == "ioU" and un:
                w.write_to(f)
                w = nmt.NmtWorkspace.from_file(f, read_unbinned_MCM=False)
                un = False
            elif op == "again":
                w.compute_coupling_matrix(f0, f2, S[0].nmt,
                                          normalization='FKP')
                st, un = dict(s=0, b=bA, M=M0), True
            elif op == "master":
                w.compute_coupling_matrix(f0, f2, S[2].nmt)
                w.compute_coupling_matrix(f0, f2, S[1].nmt,
                                          normalization='FKP')
                st, un = dict(s=1, b=bA, M=M0), True
            elif op == "refuse":
                v = nmt.NmtWorkspace()
                ctx.raises("refuse", lambda: v.compute_coupling_matrix(
                    f0, f2, S[0].nmt, normalization="fkp"), exc=ValueError)
        sch = S[st["s"]]
        ctx.state([st["s"], st["b"].tolist(), st["M"] is M2, un])
        x = rng.randn(2, lmax+1)
        ctx.close("decouple", w.decouple_cell(x), x @ sch.W.T/w2,
                  rtol=1e-10, detail=str(ops))
        if un:
            C = st["M"]*np.repeat(st["b"], 2)[None, :]
            ctx.close("couple", w.couple_cell(x), (C @ x.T.ravel()).reshape(
                -1, 2).T, rtol=1e-10, detail=str(ops))
            win = (L.pairmat(sch.W/w2, 2) @ C).reshape(
                sch.nb, 2, lmax+1, 2).transpose(1, 0, 3, 2)
            ctx.close("windows", w.get_bandpower_windows(), win, rtol=1e-10,
                      detail=str(ops))
        ctx.evaluated(ops, [st["s"], un])


def run_cat(case, ctx):
    import pymaster as nmt
    s, lmax = case["s"], 5
    rng = np.random.RandomState(ctx.seed+s)
    for k, b in itertools.product((1, 3, 7), (0, 1)):
        pos = np.array([np.arccos(rng.uniform(-1, 1, k)),
                        rng.uniform(0, 6.28, k)])
        wt = 0.2+rng.rand(k)
        beam = np.exp(-0.1*np.arange(lmax+1)) if b else None
        f = nmt.NmtFieldCatalog(pos, wt, rng.randn(2 if s else 1, k), lmax,
                                lmax_mask=7, spin=s, beam=beam)
        for i, sch in enumerate(schemes(lmax)):
            w = nmt.NmtWorkspace.from_fields(f, f, sch.nmt,
                                             normalization='FKP')
            judge(ctx, w, sch, 4 if s else 1,
                  np.ones(lmax+1) if beam is None else beam**2,
                  np.sum(wt**2)/(4*np.pi), "%d %d" % (k, i))
    if s == 0:
        posr = np.array([np.arccos(rng.uniform(-1, 1, 9)),
                         rng.uniform(0, 6.28, 9)])
        wr = 0.2+rng.rand(9)
        f = nmt.NmtFieldCatalogClustering(pos, wt, posr, wr, lmax)
        al = wt.sum()/wr.sum()
        for i, sch in enumerate(schemes(lmax)):
            w = nmt.NmtWorkspace.from_fields(f, f, sch.nmt,
                                             normalization='FKP')
            judge(ctx, w, sch, 1, np.ones(lmax+1),
                  al**2*np.sum(wr**2)/(4*np.pi), "cl %d" % i)


def run_refuse(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    lmax = 5
    rng = np.random.RandomState(ctx.seed)
    pos = np.array([np.arccos(rng.uniform(-1, 1, 4)),
                    rng.uniform(0, 6.28, 4)])
    one = np.ones(4)
    fc = [nmt.NmtFieldCatalog(pos, one, one, lmax, lmax_mask=lmax)
          for _ in range(2)]
    fm = nmt.NmtField(np.ones(48), np.ones((1, 48)), lmax=lmax,
                      lmax_mask=lmax)
    b = L.one_bin(lmax)
    for a, c in ((fc[0], fc[1]), (fc[0], fm), (fm, fc[0])):
        ctx.raises("mixed", lambda: nmt.NmtWorkspace.from_fields(
            a, c, b, normalization='FKP'), exc=ValueError)
        nmt.NmtWorkspace.from_fields(a, c, b)
        ctx.evaluated([id(a) == id(fm), id(c) == id(fm), "mixed"])
    for nm in ("fkp", "Master", "", "MASTER ", "None", None, 0, 1, 2):
        for fn in (lambda: nmt.NmtWorkspace.from_fields(
                       fm, fm, b, normalization=nm),
                   lambda: nmt.compute_full_master(fm, fm, b,
                                                   normalization=nm)):
            ctx.raises("unknown", fn, exc=ValueError, detail=repr(nm))
            ctx.evaluated(repr(nm))
