"""P12: curved-sky deprojection bias against the exact expectation."""
import itertools
import numpy as np
from nmc.props.p11 import sky

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the bias is linear in the guess "
             "spectrum (noise: in the variance map), so every unit impulse "
             "(every multipole and component; every pixel) is evaluated for "
             "every configuration in the bound and compared with the exact "
             "expectation of the difference of pseudo-spectra computed with "
             "pixel-space covariance matrices and dense harmonic operators")
RULE = ("every (pixelisation, spin pair, purification of either, 0..3 "
        "templates on either field incl. duplicated, combined and vanishing, "
        "masked on input, anisotropic partner, same field, number of "
        "iterations) in the bound x every impulse. big: the same at nside 32 "
        "(thorough 128) and on a 91-ring grid with one generic spectrum and "
        "variance; many: 40 (70) templates. Non-trivial: expected "
        "bias not identically 0.")
ASSUMES = ["white-noise variance per steradian divided by the quadrature "
           "weight of the pixel",
           "iterated transforms replace the quadrature in every harmonic "
           "analysis (library convention)"]
MIN_EVAL = 3000

SP = [(0, 0), (0, 2), (2, 0), (2, 2), (0, 1), (1, 2), (1, 1), (3, 2)]
NAMES = [("0", "0"), ("1", "0"), ("0", "1"), ("1", "1"), ("2", "1"),
         ("1", "2"), ("comb", "0"), ("0", "dup"), ("off", "comb"),
         ("dup", "off"), ("3", "2")]


def cases(tier, seed):
    deep = tier != "quick"
    for g in ("hp2", "car") + (("carpart", "carodd") if deep else ()):
        for s1, s2 in SP:
            if g != "hp2" and not deep and (s1, s2) not in (
                    (0, 0), (0, 2), (2, 2)):
                continue
            for p1 in ((0, 1, 2, 3) if s1 == 2 else (0,)):
                for p2 in ((0, 1, 2, 3) if s2 == 2 else (0,)):
                    if (g != "hp2" or not deep) and p1 and p2 and p1 != p2:
                        continue
                    for ni in (0, 1) if g == "hp2" else (0,):
                        yield dict(t="signal", g=g, spins=[s1, s2],
                                   p=[p1, p2], n_iter=ni)
        for s, p in ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0)):
            yield dict(t="noise", g=g, s=s, p=p, n_iter=0)
        for s1 in (0, 1, 2):
            yield dict(t="aniso", g=g, s=s1)
    for g in ("hp32",)+(("hp64", "hp128", "carbig") if deep else ("carbig",)):
        for s1, s2 in SP+[(0, 5), (6, 0), (4, 7)]:
            for p1 in ((0, 1, 2, 3) if s1 == 2 else (0,)):
                for p2 in ((0, 1, 2, 3) if s2 == 2 else (0,)):
                    if p1 and p2 and p1 != p2 and not deep:
                        continue
                    for ni in (0, 1) if deep or g == "hp32" else (0,):
                        yield dict(t="big", g=g, spins=[s1, s2],
                                   p=[p1, p2], n_iter=ni)
    for k in (40, 70) if deep else (40,):
        for s1, s2 in ((0, 0), (0, 2), (2, 0), (2, 2), (1, 3)):
            yield dict(t="many", k=k, spins=[s1, s2],
                       p=[k // 30 if s == 2 else 0 for s in (s1, s2)])
    for flip in ((1, 1), (1, -1), (-1, -1)):
        yield dict(t="flip", flip=flip)


class Fld(object):
    """Library field and the exact operator unmasked maps -> coefficients."""
    def __init__(self, S, wcs, shape, m, s, pure, T, masked, data, n_iter,
                 lmask, dense=True):
        import pymaster as nmt
        n, N = (2 if s else 1), S.npix
        self.S, self.s, self.n, self.m, self.pure = S, s, n, m, pure
        self.n_iter = n_iter
        tin = None
        if T is not None:
            tin = np.array([t*m for t in T] if masked else T).reshape(
                (len(T), n)+shape)
        self.f = nmt.NmtField(
            m.reshape(shape), (data*m if masked else data).reshape(
                (n,)+shape), spin=s, wcs=wcs, templates=tin,
            masked_on_input=bool(masked), purify_e=bool(pure & 1),
            purify_b=bool(pure & 2), n_iter=n_iter, n_iter_mask=0,
            lmax=S.lmax, lmax_mask=lmask)
        if dense:
            self.A0 = np.array([self.anal(v.reshape(n, N)).ravel()
                                for v in np.eye(n*N)]).T
        W = np.tile(S.w, n)
        self.T = T
        if T is None:
            if dense:
                self.A = self.A0
            return
        Tu = np.array([np.where(m > 0, t, 0) if masked else t for t in T]
                      ).reshape(len(T), -1)
        F = np.array([t*m for t in T]).reshape(len(T), -1)
        self.F, self.Tu = F, Tu
        self.iM = np.linalg.pinv((F*W) @ F.T, rcond=1e-10, hermitian=True)
        if not dense:
            self.ta = [self.anal(t.reshape(n, N)) for t in Tu]
            return
        self.ta = [(self.A0 @ t).reshape(n, -1) for t in Tu]
        V = np.tile(m, n)
        D = np.eye(n*N)-Tu.T @ self.iM @ F*(V*W)[None, :]
        self.A = self.A0 @ D

    def anal(self, maps, ni=None):
        S = self.S
        ni = self.n_iter if ni is None else ni
        if self.pure:
            return S.pure(self.m, maps, (self.pure & 1, self.pure & 2),
                          n_iter=ni)
        return S.m2a(maps*self.m, self.s, n_iter=ni)


def tsets(rng, n, m):
    t = rng.randn(3, n, len(m))
    off = np.where(m > 0, 0., 1.)*rng.randn(n, len(m))
    return {"0": None, "1": t[:1], "2": t[:2],
            "comb": np.array([t[0], t[1], t[0]-2*t[1]]),
            "dup": np.array([t[0], t[0]]), "off": np.array([off, t[0]]),
            "3": t}


def multl(S):
    from nmc import oracle as O
    lm = O.alm_index(S.lmax)
    P = np.zeros((S.lmax+1, len(lm)))
    for i, (l, m) in enumerate(lm):
        P[l, i] = (1. if m == 0 else 2.)/(2*l+1)
    return P


def expect(S, n1, n2, A, X, B):
    """E[pcl] for <x1 x2^T> = X."""
    G = (A @ X).reshape(n1, -1, X.shape[1])
    B = B.reshape(n2, -1, B.shape[1])
    p = np.einsum('ikp,jkp->ijk', G, B.conj()).real
    return (p @ multl(S).T).reshape(n1*n2, -1)


def masks(ctx, N):
    rng = np.random.RandomState(ctx.seed+40)
    m = 0.2+rng.rand(2, N)
    for x in m:
        x[rng.permutation(N)[:N//7]] = 0
    return m


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_signal(case, ctx):
    lmax = 4
    S, wcs, shape = sky(case["g"], lmax)
    N = S.npix
    (s1, s2), (p1, p2), ni = case["spins"], case["p"], case["n_iter"]
    m1, m2 = masks(ctx, N)
    rng = np.random.RandomState(ctx.seed+41)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    d1, d2 = rng.randn(n1, N), rng.randn(n2, N)
    T1, T2 = tsets(rng, n1, m1), tsets(rng, n2, m2)
    l_of = S.l_of(lmax)
    A1, S1, nl, _ = S._mats(s1, lmax)
    A2, S2, _, _ = S._mats(s2, lmax)
    imp = []
    for l in range(lmax+1):
        for c in range(n1*n2):
            a, b = divmod(c, n2)
            k = l_of == l
            X = (S1[:, a*nl:(a+1)*nl][:, k] @
                 (A2/np.tile(S.w, n2)[None, :])[b*nl:(b+1)*nl][k]).real
            y = np.zeros((n1*n2, lmax+1))
            y[c, l] = 1
            imp.append((y, X))
    names = NAMES if ctx.tier == "quick" or ni else \
        list(itertools.product(T1, T2))
    for j, (a, b) in enumerate(names):
        msk = (j+p1) % 2
        # the fields' own number of iterations is another one
        f1 = Fld(S, wcs, shape, m1, s1, p1, T1[a], msk, d1, 2*ni, lmax)
        f2 = Fld(S, wcs, shape, m2, s2, p2, T2[b], msk, d2, 3*ni, lmax)
        judge(ctx, S, f1, f2, imp, [a, b, msk], ni)
    if s1 == s2 and p1 == p2:
        for a in ("1", "2", "dup"):
            f1 = Fld(S, wcs, shape, m1, s1, p1, T1[a], 0, d1, ni, lmax)
            judge(ctx, S, f1, f1, imp, [a, "self"], ni)


def judge(ctx, S, f1, f2, imp, sig, ni):
    import pymaster as nmt
    n1, n2 = f1.n, f2.n
    wants = []
    for y, X in imp:
        if ni == 0:
            w = expect(S, n1, n2, f1.A, X, f2.A) - \
                expect(S, n1, n2, f1.A0, X, f2.A0)
            if len(wants) in (2, len(imp)-1):
                # the oracle of the large sizes is bound to this one
                assert np.allclose(w, formula(S, f1, f2, y, 0), rtol=0,
                                   atol=1e-10*max(np.abs(w).max(), 1e-3))
        else:
            w = formula(S, f1, f2, y, ni)
        wants.append(w)
    sc = max(np.abs(wants).max(), 1e-10)
    for i, (y, X) in enumerate(imp):
        got = nmt.deprojection_bias(f1.f, f2.f, y, n_iter=ni)
        ctx.close("bias", got, wants[i], rtol=1e-8, scale=sc,
                  detail="%s impulse %d" % (sig, i))
        ctx.evaluated([sig, i], nontrivial=bool(
            np.abs(wants[i]).max() > 1e-12))
    co = np.random.RandomState(3).randn(len(imp))
    ctx.close("linear", nmt.deprojection_bias(
        f1.f, f2.f, sum(c*y for c, (y, X) in zip(co, imp)), n_iter=ni),
        np.einsum('i,ijk->jk', co, wants), rtol=1e-8, scale=sc*10)
    # the other order
    if ni == 0 and f1 is not f2:
        y = co[:len(imp)]
        cl = sum(c*q for c, (q, X) in zip(co, imp))
        tr = lambda c, a, b: c.reshape(a, b, -1).transpose(1, 0, 2).reshape(
            a*b, -1)
        ctx.close("order", nmt.deprojection_bias(
            f2.f, f1.f, tr(cl, n1, n2), n_iter=0),
            tr(np.einsum('i,ijk->jk', co, wants), n1, n2), rtol=1e-8,
            scale=sc*10)


def formula(S, f1, f2, y, ni):
    """Every harmonic analysis iterated; templates' own coefficients too."""
    n1, n2, L = f1.n, f2.n, S.lmax
    cl = y.reshape(n1, n2, L+1)
    l = S.l_of(L)
    out = np.zeros((n1*n2, L+1))

    def prop(t, fa, fb, c):
        """masked template of fa -> correlated map of fb"""
        a = S.m2a(t, fa.s, n_iter=ni)
        return S.a2m(np.array([sum(a[i]*c[i, j][l] for i in range(fa.n))
                               for j in range(fb.n)]), fb.s)
    N = S.npix
    if f1.T is not None:
        K = len(f1.F)
        for i, j in itertools.product(range(K), repeat=2):
            q = f2.anal(prop((f1.F[j]*np.tile(f1.m, n1)).reshape(n1, N), f1,
                             f2, cl), ni)
            out -= f1.iM[i, j]*S.cl(f1.ta[i], q)
    if f2.T is not None:
        K = len(f2.F)
        pr = [prop((f2.F[j]*np.tile(f2.m, n2)).reshape(n2, N), f2, f1,
                   cl.transpose(1, 0, 2)) for j in range(K)]
        for i, j in itertools.product(range(K), repeat=2):
            out -= f2.iM[i, j]*S.cl(f1.anal(pr[j], ni), f2.ta[i])
        if f1.T is not None:
            K1 = len(f1.F)
            for i, j, r, s in itertools.product(range(K1), range(K1),
                                                range(K), range(K)):
                d = np.sum(f1.F[j].reshape(n1, N)*pr[s]*f1.m*S.w)
                out += (f1.iM[i, j]*f2.iM[r, s]*d *
                        S.cl(f1.ta[i], f2.ta[r]))
    return out


def noise_formula(S, f, v):
    """White noise of variance v/pixel weight in every component."""
    n = f.n
    out = np.zeros((n*n, S.lmax+1))
    if f.T is None:
        return out
    K, N = len(f.F), S.npix
    q = [f.anal(t.reshape(n, N)*f.m*v, 0) for t in f.F]
    for i, j in itertools.product(range(K), repeat=2):
        out -= f.iM[i, j]*(S.cl(f.ta[i], q[j])+S.cl(q[j], f.ta[i]))
        for r, s in itertools.product(range(K), repeat=2):
            x = np.sum(f.F[j].reshape(n, N)*f.F[s].reshape(n, N)*f.m**2*v *
                       S.w)
            out += f.iM[i, j]*f.iM[r, s]*x*S.cl(f.ta[i], f.ta[r])
    return out


def run_many(case, ctx):
    """Dozens of templates, a few of them redundant."""
    import pymaster as nmt
    from nmc.curved import HpSky
    K, (s1, s2), (p1, p2) = case["k"], case["spins"], case["p"]
    lmax = 9
    S, shape = HpSky(4, lmax), (192,)
    N = S.npix
    m1, m2 = masks(ctx, N)
    rng = np.random.RandomState(ctx.seed+49)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    d1, d2 = rng.randn(n1, N), rng.randn(n2, N)
    T1, T2 = rng.randn(K, n1, N), rng.randn(2, n2, N)
    T1[K-2] = T1[1]-2*T1[K-7]
    T1[K-1] = T1[0]
    f1 = Fld(S, None, shape, m1, s1, p1, T1, 0, d1, 0, lmax, False)
    f1b = Fld(S, None, shape, m1, s1, p1, T1, 1, d1, 0, lmax, False)
    f2 = Fld(S, None, shape, m2, s2, p2, T2, 0, d2, 0, lmax, False)
    f0 = Fld(S, None, shape, m2, s2, p2, None, 0, d2, 0, lmax, False)
    for nm, a, b in (("t0", f1, f0), ("0t", f0, f1), ("tt", f1, f2),
                     ("mt", f1b, f2)):
        y = rng.randn(a.n*b.n, lmax+1)
        w = formula(S, a, b, y, 0)
        ctx.close("many:bias", nmt.deprojection_bias(a.f, b.f, y, n_iter=0),
                  w, rtol=1e-7)
        ctx.evaluated(nm, w)


def run_big(case, ctx):
    """Resolutions used in practice; spectra and variances drawn from a
    generator."""
    import pymaster as nmt
    from nmc import lib as L
    from nmc.curved import HpSky, RingSky
    g, (s1, s2), (p1, p2), ni = (case[k] for k in ("g", "spins", "p",
                                                   "n_iter"))
    if g == "carbig":
        nth, nph, lmax = 90, 180, 70
        wcs, shape = L.car_wcs(nth, nph, dec_sign=-1, ra_sign=1)
        S = RingSky(np.arange(nth+1)*np.pi/nth, 0., nph,
                    L.cc_weights(nth)*2*np.pi/nph, lmax)
    else:
        nside = int(g[2:])
        lmax = 2*nside+3
        S, wcs, shape = HpSky(nside, lmax), None, (12*nside**2,)
    N = S.npix
    m1, m2 = masks(ctx, N)
    rng = np.random.RandomState(ctx.seed+45)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    d1, d2 = rng.randn(n1, N), rng.randn(n2, N)
    T1, T2 = tsets(rng, n1, m1), tsets(rng, n2, m2)
    for j, (a, b) in enumerate([("1", "0"), ("0", "2"), ("comb", "off"),
                                ("3", "dup")]):
        if g == "hp128" and j % 2:
            continue
        f1 = Fld(S, wcs, shape, m1, s1, p1, T1[a], j % 2, d1, 1-ni, lmax, False)
        f2 = Fld(S, wcs, shape, m2, s2, p2, T2[b], j % 2, d2, 2*ni, lmax, False)
        y = rng.randn(n1*n2, lmax+1)
        w = formula(S, f1, f2, y, ni)
        ctx.close("big:bias", nmt.deprojection_bias(f1.f, f2.f, y, n_iter=ni),
                  w, rtol=1e-8)
        ctx.evaluated([a, b], w)
        if j == 0 and s1 == s2 and p1 == p2:
            w = formula(S, f1, f1, y, ni)
            ctx.close("big:self", nmt.deprojection_bias(
                f1.f, f1.f, y, n_iter=ni), w, rtol=1e-8)
            ctx.evaluated("self", w)
        if ni or f1.T is None:
            continue
        v = 0.5+rng.rand(N)
        w = noise_formula(S, f1, v)
        got = nmt.uncorr_noise_deprojection_bias(f1.f, v.reshape(shape),
                                                 n_iter=0)
        if n1 == 2:
            asym = noise_asym(S, f1, v)
            sc = np.abs(w).max()
            if np.allclose(got-w, asym, rtol=0, atol=1e-8*sc) and \
                    np.abs(asym).max() > 1e-8*sc:
                ctx.fail("noise-EB-not-symmetrised", "EB and BE of the "
                         "uncorrelated-noise bias differ")
                got = got-asym
        ctx.close("big:noise", got, w, rtol=1e-8)
        ctx.evaluated(["noise", a], w)


def run_noise(case, ctx):
    import pymaster as nmt
    lmax = 4
    S, wcs, shape = sky(case["g"], lmax)
    N, s, p = S.npix, case["s"], case["p"]
    n = 2 if s else 1
    m1, _ = masks(ctx, N)
    rng = np.random.RandomState(ctx.seed+42)
    d = rng.randn(n, N)
    T = tsets(rng, n, m1)
    for a in T:
        f = Fld(S, wcs, shape, m1, s, p, T[a], 0, d, 0, lmax)
        var = [np.eye(N)[i] for i in range(N)]+[0.5+rng.rand(N)]
        wants = []
        for v in var:
            X = np.diag(np.tile(v/S.w, n))
            wants.append(expect(S, n, n, f.A, X, f.A) -
                         expect(S, n, n, f.A0, X, f.A0))
        assert np.allclose(wants[-1], noise_formula(S, f, var[-1]), rtol=0,
                           atol=1e-10*max(np.abs(wants[-1]).max(), 1e-3))
        sc = max(np.abs(wants).max(), 1e-10)
        for i, v in enumerate(var):
            got = nmt.uncorr_noise_deprojection_bias(
                f.f, v.reshape(shape), n_iter=0)
            w = wants[i]
            if n == 2 and T[a] is not None:
                # the two orders of the first (E, B) product
                asym = noise_asym(S, f, v)
                if np.allclose(got-w, asym, rtol=0, atol=1e-8*sc) and \
                        np.abs(asym).max() > 1e-8*sc:
                    ctx.fail("noise-EB-not-symmetrised", "EB and BE of the "
                             "uncorrelated-noise bias differ")
                    got = got-asym
            ctx.close("noise", got, w, rtol=1e-8, scale=sc, detail="%s %d" % (
                a, i))
            ctx.evaluated([a, i], nontrivial=bool(np.abs(w).max() > 1e-12))


def noise_asym(S, f, v):
    """Known: -2 S x f used instead of -(S x f + f x S)."""
    K = len(f.F)
    out = np.zeros((4, S.lmax+1))
    N = S.npix
    for i, j in itertools.product(range(K), repeat=2):
        fi = f.ta[i]
        sj = f.anal((f.F[j]).reshape(2, N)*v*f.m, 0)
        out += -f.iM[i, j]*(S.cl(sj, fi)-S.cl(fi, sj))
    return out


def run_aniso(case, ctx):
    """Templates on one field, anisotropic weights on the other."""
    import pymaster as nmt
    lmax, s = 4, case["s"]
    S, wcs, shape = sky(case["g"], lmax)
    N = S.npix
    n = 2 if s else 1
    rng = np.random.RandomState(ctx.seed+43)
    m1, _ = masks(ctx, N)
    w11, w22 = 1+rng.rand(2, N)
    w12 = 0.5*rng.randn(N)/3
    T = tsets(rng, n, m1)
    f1 = Fld(S, wcs, shape, m1, s, 0, T["2"], 0, rng.randn(n, N), 0, lmax)
    f2 = nmt.NmtField(w11.reshape(shape), rng.randn(2, N).reshape(
        (2,)+shape), spin=2, wcs=wcs, n_iter=0, lmax=lmax, lmax_mask=lmax,
        mask_22=w22.reshape(shape), mask_12=w12.reshape(shape))
    A2, S2, nl, _ = S._mats(2, lmax)
    A1, S1, _, _ = S._mats(s, lmax)
    WM = np.block([[np.diag(w11), np.diag(w12)],
                   [np.diag(w12), np.diag(w22)]])
    B = A2 @ WM
    l_of = S.l_of(lmax)
    for l in range(lmax+1):
        for c in range(2*n):
            a, b = divmod(c, 2)
            k = l_of == l
            X = (S1[:, a*nl:(a+1)*nl][:, k] @
                 (A2/np.tile(S.w, 2)[None, :])[b*nl:(b+1)*nl][k]).real
            y = np.zeros((2*n, lmax+1))
            y[c, l] = 1
            w = expect(S, n, 2, f1.A, X, B)-expect(S, n, 2, f1.A0, X, B)
            ctx.close("aniso", nmt.deprojection_bias(f1.f, f2, y, n_iter=0),
                      w, rtol=1e-8, scale=max(np.abs(w).max(), 1e-3))
            yt = y.reshape(n, 2, -1).transpose(1, 0, 2).reshape(2*n, -1)
            wt = w.reshape(n, 2, -1).transpose(1, 0, 2).reshape(2*n, -1)
            ctx.close("aniso", nmt.deprojection_bias(f2, f1.f, yt, n_iter=0),
                      wt, rtol=1e-8, scale=max(np.abs(w).max(), 1e-3))
            ctx.evaluated([l, c], nontrivial=bool(np.abs(w).max() > 1e-12))


def run_flip(case, ctx):
    """The same sky stored in another orientation gives the same biases."""
    import pymaster as nmt
    from nmc import lib as L
    sd, sr = case["flip"]
    rng = np.random.RandomState(ctx.seed+44)
    ny, nx = 7, 12
    wcs0, shape = L.car_wcs(6, 12, dec_sign=-1, ra_sign=1, ra0=180.)
    wcs1, _ = L.car_wcs(6, 12, dec_sign=sd, ra_sign=sr, ra0=180.)
    x = rng.rand(6, ny, nx)
    o = lambda a: a[..., ::(1 if sd < 0 else -1), ::(1 if sr > 0 else -1)]
    out = []
    for w, q in ((wcs0, x), (wcs1, o(x))):
        for sp in (0, 2):
            n = 2 if sp else 1
            f = nmt.NmtField(q[0], q[1:1+n], spin=sp, wcs=w, lmax=4,
                             lmax_mask=4, templates=[q[3:3+n]], n_iter=0)
            cl = np.ones((n*n, 5))
            out += [nmt.deprojection_bias(f, f, cl, n_iter=0),
                    nmt.uncorr_noise_deprojection_bias(f, q[5], n_iter=0)]
    k = len(out)//2
    for i in range(k):
        ctx.close("flip", out[k+i], out[i], rtol=1e-9, detail=str(i))
        ctx.evaluated(i, out[i])
