"""P26: anisotropic (matrix) weights."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every combination of anisotropic "
             "and isotropic fields, spins and weight harmonics in the bound "
             "on an exact-quadrature grid; the response to every unit-power "
             "sky spectrum, summed over all its modes, is compared with the "
             "stored coupling matrix")
RULE = ("(which field is anisotropic, same field twice) x spin pairs x weight "
        "sets (generic, every single multipole and parity of the spin-2s "
        "weight) x every unit impulse of the sky spectra; maps and "
        "coefficients against the matrix product in every pixel; every "
        "refused combination. big: band limits up to 90 (thorough 300), "
        "every element. Non-trivial: expected response non-zero.")
ASSUMES = ["band-limited weights on an exact-quadrature grid"]
MIN_EVAL = 2000


def cases(tier, seed):
    deep = tier != "quick"
    pairs = [(2, 2), (0, 2), (2, 0), (1, 2), (2, 1), (1, 1), (0, 1), (1, 0)]
    if deep:
        pairs += [(2, 3), (3, 1), (3, 3), (0, 3), (3, 0)]
    dims = [(4, 5)] if not deep else [(4, 5), (5, 4), (4, 7)]
    for lmax, lmask in dims:
        for s1, s2 in pairs:
            for a1, a2 in ((1, 1), (1, 0), (0, 1)):
                if (a1 and not s1) or (a2 and not s2):
                    continue
                if 2*max(a1*s1, a2*s2) > lmask:
                    continue    # the weight has no harmonics
                for w in ["gen", "zero"]+["E%d" % l for l in range(
                        2, lmask+1)]+["B%d" % l for l in range(2, lmask+1)]:
                    yield dict(t="mcm", lmax=lmax, lmask=lmask, s1=s1, s2=s2,
                               a1=a1, a2=a2, w=w)
        for s in (1, 2) if lmask < 6 else (1, 2, 3):
            yield dict(t="mcm", lmax=lmax, lmask=lmask, s1=s, s2=s, a1=1,
                       a2=1, w="gen", same=1)
    big = [(32, 64, 95), (32, 90, 40)]
    if deep:
        big += [(64, 150, 191), (128, 300, 383)]
    for nside, lmax, lmask in big:
        for s1, s2 in pairs+[(3, 0), (0, 5), (4, 4), (6, 3), (2, 7)]:
            for a1, a2 in ((1, 1), (1, 0), (0, 1)):
                if (a1 and not s1) or (a2 and not s2):
                    continue
                yield dict(t="big", nside=nside, lmax=lmax, lmask=lmask,
                           s1=s1, s2=s2, a1=a1, a2=a2)
    for s in (1, 2, 3):
        yield dict(t="maps", s=s)
        yield dict(t="reduce", s=s)
    yield dict(t="wsp")
    yield dict(t="refuse")


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


_S = {}


def sky(lmax, lmask):
    from nmc import lib as L
    from nmc.curved import Sky
    k = (lmax, lmask)
    if k not in _S:
        g = L.CarGrid(2*lmax+lmask+4, 2*lmax+lmask+2+(lmask % 2))
        _S[k] = g, Sky(g.theta, g.phi, g.w, lmax, lmask)
    return _S[k]


def weights(S, lmask, s, kind, aniso, rng):
    """w0 (spin 0) and wa (spin 2s) weights, band limited to lmask."""
    from nmc import lib as L, oracle as O
    idx = O.alm_index(lmask)
    l = np.array([x for x, m in idx])
    m = np.array([m for x, m in idx])

    def rand(n, amp):
        a = (rng.randn(n, len(l))+1j*rng.randn(n, len(l)))*amp
        a[:, m == 0] = a[:, m == 0].real
        return a
    a0 = rand(1, 0.15/(1+l))
    a0[0, 0] = 4.
    w0 = S.a2m(a0, 0, lmask)[0]
    if not aniso or s == 0:
        return w0, None
    aa = rand(2, 0.25/(1+l))
    aa[:, l < 2*s] = 0
    if kind == "zero":
        aa *= 0
    elif kind != "gen":
        aa *= (l == int(kind[1:]))[None, :]
        aa["EB".index(kind[0])-1] = 0
    wa = S.a2m(aa, 2*s, lmask)
    assert np.min(w0**2-wa[0]**2-wa[1]**2) > 0
    return w0, wa


def wmat(w0, wa, s):
    if s == 0:
        return np.diag(w0)
    if wa is None:
        wa = [0*w0, 0*w0]
    return np.block([[np.diag(w0+wa[0]), np.diag(wa[1])],
                     [np.diag(wa[1]), np.diag(w0-wa[0])]])


def field(g, w0, wa, s, lmax, lmask, maps=None, **kw):
    import pymaster as nmt
    sh = g.shape
    k = dict(wcs=g.wcs, lmax=lmax, lmask=lmask)
    if maps is not None:
        maps = np.reshape(maps, (-1,)+sh)
    if wa is not None:
        kw.update(mask_22=(w0-wa[0]).reshape(sh), mask_12=wa[1].reshape(sh))
        w0 = w0+wa[0]
    return nmt.NmtField(w0.reshape(sh), maps, spin=s, wcs=g.wcs, n_iter=0,
                        n_iter_mask=0, lmax=lmax, lmax_mask=lmask, **kw)


def response(S, B1, s1, B2, s2, lmax):
    """[out, l, in, l'] sum over modes of pseudo-spectra of unit skies."""
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    A1, S1, nl, _ = S._mats(s1, lmax)
    A2, S2, _, _ = S._mats(s2, lmax)
    l_of = S.l_of(lmax)
    m0 = np.zeros(nl, bool)
    from nmc import oracle as O
    for i, (l, m) in enumerate(O.alm_index(lmax)):
        m0[i] = m == 0
    R = np.zeros((n1*n2, lmax+1, n1*n2, lmax+1))
    wgt = np.where(m0, 1., 2.)
    for lp in range(max(s1, s2), lmax+1):
        k = l_of == lp
        for a, b in itertools.product(range(n1), range(n2)):
            # unit sky harmonics: cov of the maps
            X = (S1[:, a*nl:(a+1)*nl][:, k] @
                 (A2/np.tile(S.w, n2)[None, :])[b*nl:(b+1)*nl][k]).real
            G = (B1 @ X).reshape(n1, nl, -1)
            p = np.einsum('ikp,jkp->ijk', G, B2.reshape(n2, nl, -1).conj()
                          ).real*wgt
            for l in range(lmax+1):
                R[:, l, a*n2+b, lp] = p[..., l_of == l].sum(-1).ravel()/(
                    2*l+1)
    return R


def run_mcm(case, ctx):
    import pymaster as nmt
    from nmc import lib as L, oracle as O
    lmax, lmask, s1, s2 = (case[k] for k in ("lmax", "lmask", "s1", "s2"))
    g, S = sky(lmax, lmask)
    rng = np.random.RandomState(ctx.seed+260)
    W1 = weights(S, lmask, s1, case["w"], case["a1"], rng)
    W2 = weights(S, lmask, s2, case["w"], case["a2"], rng)
    f1 = field(g, *W1, s1, lmax, lmask)
    if case.get("same"):
        W2, f2 = W1, f1
    else:
        f2 = field(g, *W2, s2, lmax, lmask)
    B1 = S._mats(s1, lmax)[0] @ wmat(*W1, s1)
    B2 = S._mats(s2, lmax)[0] @ wmat(*W2, s2)
    R = response(S, B1, s1, B2, s2, lmax)
    n = len(R)
    # the oracle of the large sizes is bound to the explicit response
    s = max(s1, s2)
    al = [(S.m2a(w[0][None], 0, lmask)[0],
           None if w[1] is None else S.m2a(w[1], 2*x, lmask))
          for w, x in ((W1, s1), (W2, s2))]
    R2 = O.mcm_aniso(lmax, s1, al[0], s2, al[1])
    assert np.max(np.abs(R-R2)[:, s:, :, s:]) < 1e-12*np.max(np.abs(R))
    M = nmt.NmtWorkspace.from_fields(f1, f2, L.one_bin(
        lmax, max(s1, s2))).get_coupling_matrix()
    M = M.reshape(lmax+1, n, lmax+1, n).transpose(1, 0, 3, 2)
    s = max(s1, s2)
    sc = np.max(np.abs(R))
    for c in range(n):
        for l in range(s, lmax+1):
            ctx.close("mcm", M[:, s:, c, l], R[:, s:, c, l], rtol=1e-8,
                      scale=sc, detail="response to component %d, l=%d" % (
                          c, l))
            ctx.evaluated([c, l], R[:, s:, c, l],
                          nontrivial=bool(np.any(R[:, s:, c, l] != 0)))


def run_big(case, ctx):
    """Resolutions used in practice: every element of the matrix."""
    import pymaster as nmt
    from nmc import lib as L, oracle as O
    from nmc.curved import HpSky
    lmax, lmask, s1, s2 = (case[k] for k in ("lmax", "lmask", "s1", "s2"))
    S = HpSky(case["nside"], lmax, lmask)
    rng = np.random.RandomState(ctx.seed+261)
    fl, al = [], []
    for s, a in ((s1, case["a1"]), (s2, case["a2"])):
        w0 = 0.5+rng.rand(S.npix)
        kw, wa = {}, None
        if a:
            wa = 0.3*(rng.rand(2, S.npix)-0.2)
            kw = dict(mask_22=w0-wa[0], mask_12=wa[1])
        f = nmt.NmtField(w0 if wa is None else w0+wa[0], None, spin=s,
                         n_iter=0, n_iter_mask=0, lmax=lmax, lmax_mask=lmask,
                         **kw)
        al.append((S.m2a(w0, 0, lmask)[0],
                   None if wa is None else S.m2a(wa, 2*s, lmask)))
        ctx.close("big:mask-alms", f.get_mask_alms(), al[-1][0], rtol=1e-9)
        if a:
            ctx.close("big:mask-alms", f.get_anisotropic_mask_alms(),
                      al[-1][1], rtol=1e-9)
        fl.append(f)
    R = O.mcm_aniso(lmax, s1, al[0], s2, al[1])
    n, s = len(R), max(s1, s2)
    M = nmt.NmtWorkspace.from_fields(*fl, L.one_bin(
        lmax, s)).get_coupling_matrix()
    M = M.reshape(lmax+1, n, lmax+1, n).transpose(1, 0, 3, 2)
    ctx.close("big:mcm", M[:, s:, :, s:], R[:, s:, :, s:], rtol=1e-8)
    ctx.evaluated("big", R)


def run_maps(case, ctx):
    """Maps are the matrix-weighted ones for every geometry and option."""
    import pymaster as nmt
    import healpy as hp
    from nmc import lib as L
    from nmc.curved import Sky
    s, lmax = case["s"], 5
    rng = np.random.RandomState(ctx.seed+3)
    geos = [(None, 192, Sky.healpix(4, lmax, 8), (lambda a: a))]
    for ds, rs in itertools.product((-1, 1), (1, -1)):
        w, sh = L.car_wcs(8, 12, ds, rs, ra0=180.)
        th = np.repeat(np.arange(9)*np.pi/8, 12)
        ph = np.tile(np.arange(12)*np.pi/6, 9)
        q = np.repeat(L.cc_weights(8)*np.pi/6, 12)
        geos.append((w, 108, Sky(th, ph, q, lmax, 8),
                     lambda a, ds=ds, rs=rs: np.reshape(
                         a, a.shape[:-1]+(9, 12))[
                         ..., ::(1 if ds < 0 else -1),
                         ::(1 if rs > 0 else -1)]))
    for i, (wcs, N, S, o) in enumerate(geos):
        w11, w22 = 0.5+rng.rand(2, N)
        w12 = 0.3*rng.randn(N)/3
        z = rng.permutation(N)[:N//6]
        w11[z[:9]], w22[z[:9]], w12[z[:9]] = 0, 0, 0
        w12[z[9:]] = 0
        w11[z[9:]] = 0          # one component not observed
        d = rng.randn(2, N)
        want = np.array([w11*d[0]+w12*d[1], w12*d[0]+w22*d[1]])
        for moi, lite, ni in itertools.product((0, 1), (0, 1), (0, 2)):
            x = want if moi else d
            nk = 0 if ni and moi else 1
            f = nmt.NmtField(o(w11), o(x), spin=s, wcs=wcs, mask_22=o(w22),
                             mask_12=o(w12), n_iter=ni, n_iter_mask=nk,
                             lmax=lmax, lmax_mask=8, lite=bool(lite),
                             masked_on_input=bool(moi))
            nm = str([i, moi, lite, ni])
            if lite:
                ctx.raises("lite", f.get_maps, exc=ValueError)
            else:
                ctx.close("maps", f.get_maps(), want, rtol=1e-12, detail=nm)
            ctx.close("alms", f.get_alms(), S.m2a(want, s, n_iter=ni),
                      rtol=1e-9, detail=nm)
            ctx.close("mask", f.get_mask(), (w11+w22)/2, rtol=1e-12)
            ma = np.array([(w11-w22)/2, w12])
            ctx.close("mask", f.get_anisotropic_mask(), ma, rtol=1e-12)
            for _ in range(2):
                ctx.close("mask-alms", f.get_mask_alms(), S.m2a(
                    (w11+w22)[None]/2, 0, 8, n_iter=nk)[0], rtol=1e-9)
                ctx.close("mask-alms", f.get_anisotropic_mask_alms(),
                          S.m2a(ma, 2*s, 8, n_iter=nk), rtol=1e-9,
                          detail=nm)
            ctx.evaluated(nm, f.get_alms())


def run_reduce(case, ctx):
    """Equal diagonal, zero off-diagonal weights are isotropic weights."""
    import pymaster as nmt
    from nmc import lib as L
    s = case["s"]
    rng = np.random.RandomState(ctx.seed+4)
    m, m2 = L.smooth_masks(4, ctx.seed)
    d = rng.randn(2, 192)
    b = L.Scheme(8, np.where(np.arange(9) < 3, -1, (np.arange(9)-3)//2))
    kw = dict(spin=s, lmax=8, lmax_mask=11)
    fi = nmt.NmtField(m, d, **kw)
    fa = nmt.NmtField(m, d, mask_22=m.copy(), mask_12=0*m, **kw)
    f0 = nmt.NmtField(m2, d[:1], lmax=8, lmax_mask=11)
    for x, y, p, q in ((fi, fi, fa, fa), (f0, fi, f0, fa), (fi, f0, fa, f0),
                       (fi, fi, fi, fa), (fi, fi, fa, fi)):
        for norm in ("MASTER", "FKP"):
            wi = nmt.NmtWorkspace.from_fields(x, y, b.nmt, normalization=norm)
            wa = nmt.NmtWorkspace.from_fields(p, q, b.nmt, normalization=norm)
            ctx.close("reduce", wa.get_coupling_matrix(),
                      wi.get_coupling_matrix(), rtol=1e-9)
            ci, ca = nmt.compute_coupled_cell(x, y), \
                nmt.compute_coupled_cell(p, q)
            ctx.close("reduce", ca, ci, rtol=1e-10)
            ctx.close("reduce", wa.decouple_cell(ca), wi.decouple_cell(ci),
                      rtol=1e-8)
            ctx.close("reduce", nmt.compute_full_master(
                p, q, b.nmt, normalization=norm), wi.decouple_cell(ci),
                rtol=1e-8)
            ctx.evaluated([norm], ci)


def run_wsp(case, ctx):
    """Coupling and decoupling of a workspace with anisotropic weights."""
    import pymaster as nmt
    from nmc import lib as L
    lmax, lmask = 5, 5
    g, S = sky(lmax, lmask)
    rng = np.random.RandomState(ctx.seed+261)
    beam = [np.exp(-0.1*np.arange(lmax+3)), 1-0.05*np.arange(lmax+1)]
    for s1, s2, a1, a2 in ((2, 2, 1, 1), (0, 2, 0, 1), (2, 0, 1, 0),
                           (1, 2, 1, 0), (1, 2, 1, 1)):
        W1 = weights(S, lmask, s1, "gen", a1, rng)
        W2 = weights(S, lmask, s2, "gen", a2, rng)
        f1 = field(g, *W1, s1, lmax, lmask, beam=beam[0])
        f2 = field(g, *W2, s2, lmax, lmask, beam=beam[1])
        l = np.arange(lmax+1)
        sch = L.Scheme(lmax, np.where(l < 2, -1, (l-2)//2), weights=1+0.2*l,
                       f_ell=1.+l)
        for norm in ("MASTER", "FKP"):
            w = nmt.NmtWorkspace.from_fields(f1, f2, sch.nmt,
                                             normalization=norm)
            n = (2 if s1 else 1)*(2 if s2 else 1)
            w2 = np.sum(S.w*W1[0]*W2[0])/(4*np.pi)
            mod = L.WspModel(w.get_coupling_matrix(),
                             beam[0][:lmax+1]*beam[1], sch, n, norm, w2)
            x = rng.randn(n, lmax+1)
            ctx.close("couple", w.couple_cell(x), mod.couple(x), rtol=1e-9)
            y = rng.randn(n, lmax+1)
            W = L.pairmat(sch.W, n)
            want = np.linalg.solve(mod.binned(), W @ y.T.ravel()
                                   ).reshape(-1, n).T
            ctx.close("decouple", w.decouple_cell(y), want, rtol=1e-7)
            ctx.evaluated([s1, s2, a1, a2, norm], want)


def run_refuse(case, ctx):
    import pymaster as nmt
    from nmc import lib as L
    m = 1+np.random.RandomState(ctx.seed).rand(48)
    d = np.ones((2, 48))
    b = L.one_bin(5, 2)
    V, N = ValueError, NotImplementedError

    def F(*a, **k):
        return nmt.NmtField(*a, lmax=5, lmax_mask=5, **k)
    A = dict(mask_22=m, mask_12=0*m)
    F(m, d, **A)
    neg = 0*m
    neg[3] = 1.1*m[3]
    huge = 0*m
    huge[40] = -2*m[40]
    tests = [("only 22", V, lambda: F(m, d, mask_22=m)),
             ("only 12", V, lambda: F(m, d, mask_12=0*m)),
             ("spin 0", V, lambda: F(m, d[:1], spin=0, **A)),
             ("spin 0", V, lambda: F(m, d[:1], **A)),
             ("spin 0 mask only", V, lambda: F(m, None, spin=0, **A)),
             ("purify", N, lambda: F(m, d, purify_b=True, **A)),
             ("purify", N, lambda: F(m, d, purify_e=True, **A)),
             ("templates", N, lambda: F(m, d, templates=[d], **A)),
             ("positive", V, lambda: F(m, d, mask_22=m, mask_12=neg)),
             ("positive", V, lambda: F(m, d, mask_22=m, mask_12=huge)),
             ("positive", V, lambda: F(m, d, mask_22=-m, mask_12=0*m))]
    fa = F(m, d, **A)
    f2 = F(m, d)
    f0 = F(m, d[:1])
    tests += [("accessor", V, f2.get_anisotropic_mask),
              ("accessor", V, f2.get_anisotropic_mask_alms)]
    for i in range(4):
        q = [f2]*4
        q[i] = fa
        tests.append(("covariance", N, lambda q=q:
                      nmt.NmtCovarianceWorkspace.from_fields(*q)))
    for x, y in ((f0, fa), (fa, fa), (fa, f0), (fa, f2), (f2, fa)):
        tests.append(("teb", Exception, lambda x=x, y=y:
                      nmt.NmtWorkspace.from_fields(x, y, b, is_teb=True)))
    for nm, ex, fn in tests:
        ctx.raises("refuse:"+nm, fn, exc=ex, detail=nm)
        ctx.evaluated(nm)
