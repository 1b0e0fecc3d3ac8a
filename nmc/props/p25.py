"""P25: simulated maps."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: for every combination of fields, "
             "geometry and spectrum matrix in the bound, the linear operator "
             "that the generator applies to its unit variates is recovered "
             "from the output maps mode by mode and its square compared "
             "exactly with the requested covariance; every seed of a range is "
             "executed for reproducibility, distinctness and unit moments")
RULE = ("field combinations up to three fields x HEALPix and all rectangular "
        "orientations x spectra (generic, each single auto and cross, "
        "singular, zero) x beams x lmax; flat patches of all parities. big: nside "
        "32 (thorough 128), 163-ring (403) grids, patches of thousands of "
        "pixels, up to seven fields, spins to 8, every mode. "
        "Reproducibility for every seed, thread count, preceding call and "
        "global random state. Non-trivial: expected covariance non-zero.")
ASSUMES = ["unit variance and independence of the underlying variates are "
           "judged on the moments over an enumerated range of seeds",
           "Nyquist modes of flat spin fields are not judged (their "
           "orientation is not defined)",
           "exactly singular spectra of more than three maps are not judged "
           "(stability of the Cholesky factorisation of healpy)"]
MIN_EVAL = 5000

COMBOS1 = [(0,), (1,), (2,), (3,)]
COMBOS2 = list(itertools.product((0, 1, 2), repeat=2))
COMBOS3 = [(0, 0, 0), (0, 2, 0), (2, 0, 1), (0, 0, 2), (1, 2, 2)]
GEOS = ["hp4", "hp2"]+["car%d" % i for i in range(4)]
FLAT = [(6, 5, 0.3, 0.2), (5, 6, 0.21, 0.3), (4, 4, 0.2, 0.2),
        (7, 3, 0.3, 0.1), (8, 6, 0.3, 0.3)]

WIDE = ((5,), (0, 8), (4, 6), (0, 0, 0, 0, 0, 0, 0), (2, 0, 7, 0, 0, 3, 0))
BIGFLAT = [(64, 51, 0.6, 0.5), (75, 60, 0.4, 0.4)]
BIG = {"bighp32": (32, 40), "bighp128": (128, 180), "bigcar0": (162, 80),
       "bigcar1": (402, 200)}


def cases(tier, seed):
    deep = tier != "quick"
    for c in COMBOS1+COMBOS2+COMBOS3:
        for g in GEOS if deep or len(c) < 3 else ("hp4", "car1"):
            if g == "hp2" and max(c) > 2:
                continue
            yield dict(t="curved", c=list(c), g=g)
        for i in range(len(FLAT)):
            yield dict(t="flat", c=list(c), i=i)
    for g in ["bighp32", "bigcar0"]+(["bighp128", "bigcar1"] if deep else []):
        for c in ((0,), (2,), (0, 2), (1, 0), (3, 0))+(
                WIDE if g in ("bighp32", "bigcar0") else ()):
            yield dict(t="bigcurved", c=list(c), g=g)
    for i in range(len(FLAT), len(FLAT)+len(BIGFLAT)):
        for c in ((0,), (2,), (0, 2), (1, 0))+WIDE:
            yield dict(t="bigflat", c=list(c), i=i)
    n = 2000 if not deep else 20000
    for c in ([0], [2], [0, 2]):
        yield dict(t="moments", c=c, g="hp4", n=n)
        yield dict(t="moments", c=c, g=0, n=n)
        yield dict(t="moments", c=c, g=1, n=n)
    for c in ([0, 2], [2, 0], [0, 3], [1, 2], [0, 0, 2], [3, 1]):
        yield dict(t="lowl", c=c, n=n)
    for sph in (0, 1, 2):
        yield dict(t="seeds", sph=sph, n=300 if not deep else 3000)
        for i in range(4):
            yield dict(t="repro", sph=sph, i=i)
    yield dict(t="limits")


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


_G = {}


def geo(g):
    """nside, wcs, un-storing function, Sky-like solver."""
    if g in _G:
        return _G[g]
    import healpy as hp
    from nmc import lib as L
    from nmc.curved import Sky
    if g.startswith("hp"):
        ns, lmax = int(g[2:]), {"4": 6, "2": 4}[g[2:]]
        S = Sky.healpix(ns, lmax)
        out = ns, None, (lambda a: a), S
    else:
        i = int(g[3:])
        ds, rs = [(-1, 1), (1, -1), (1, 1), (-1, -1)][i]
        # the reference pixel half way round
        wcs, sh = L.car_wcs(9, 18, ds, rs, ra0=160., phi_start=0.)
        th = np.repeat(np.arange(10)*np.pi/9, 18)
        ph = np.tile(np.arange(18)*np.pi/9, 10)
        S = Sky(th, ph, np.ones(180), 6)

        def o(a):
            return a[..., ::(1 if ds < 0 else -1),
                     ::(1 if rs > 0 else -1)].reshape(a.shape[0], 180)
        out = -1, wcs, o, S
    _G[g] = out
    return out


_P = {}


def solver(g, s, lmax):
    """(synthesis, pseudo-inverse, l, m of every real coefficient)."""
    k = (g, s, lmax)
    if k not in _P:
        from nmc import oracle as O
        S = geo(g)[3]
        A, Sy, nl, nc = S._mats(s, lmax)
        lm = O.alm_index(lmax)
        cols, lab = [], []
        for c in range(nc):
            for i, (l, m) in enumerate(lm):
                if l < s:
                    continue
                cols.append(Sy[:, c*nl+i].real)
                lab.append((c, l, m, 0))
                if m:
                    cols.append(-Sy[:, c*nl+i].imag)
                    lab.append((c, l, m, 1))
        M = np.array(cols).T
        P = np.linalg.pinv(M)
        assert np.allclose(P @ M, np.eye(M.shape[1]), atol=1e-9)
        _P[k] = M, P, lab
    return _P[k]


def coeffs(ctx, g, maps, spins, lmax, detail):
    """dict (component, l, m, part) -> value, after checking completeness."""
    o = geo(g)[2]
    x = o(maps)
    out, i = {}, 0
    for s in spins:
        n = 2 if s else 1
        M, P, lab = solver(g, s, lmax)
        v = x[i:i+n].ravel()
        a = P @ v
        ctx.close("band limit", M @ a, v, rtol=1e-8, scale=max(
            np.abs(v).max(), 1e-300), detail=detail)
        for (c, l, m, p), y in zip(lab, a):
            out[i+c, l, m, p] = y
        i += n
    return out


def spectra(kind, nm, nl, rng):
    """[nl, nm, nm] covariance matrices."""
    C = np.zeros((nl, nm, nm))
    if kind == "eye":
        C[:] = np.eye(nm)
    elif kind == "gen":
        for l in range(nl):
            a = rng.randn(nm, nm)
            C[l] = a @ a.T
    elif kind == "rank1":
        for l in range(nl):
            a = rng.randn(nm, 1)
            C[l] = a @ a.T
    elif kind.startswith("a"):
        C[:, int(kind[1:]), int(kind[1:])] = 1+rng.rand(nl)
    elif kind.startswith("x"):
        i, j = int(kind[1]), int(kind[2])
        C[:] = np.eye(nm)*(1+rng.rand(nl))[:, None, None]
        C[:, i, j] = C[:, j, i] = 0.7*(-1)**np.arange(nl)
    elif kind == "line":        # zero except at alternate multipoles
        for l in range(0, nl, 2):
            a = rng.randn(nm, nm)
            C[l] = a @ a.T
    return C


def kinds(nm):
    return ["gen", "gen", "rank1", "line", "zero"] + \
        ["a%d" % i for i in range(nm)] + \
        ["x%d%d" % (i, j) for i in range(nm) for j in range(i+1, nm)]


def rows(C):
    nm = C.shape[1]
    return np.array([C[:, i, j] for i in range(nm) for j in range(i, nm)])


def run_curved(case, ctx):
    import pymaster as nmt
    sp, g = case["c"], case["g"]
    ns, wcs, _, S = geo(g)
    L = S.lmax
    nm = sum(2 if s else 1 for s in sp)
    fld = sum([[i]*(2 if s else 1) for i, s in enumerate(sp)], [])
    rng = np.random.RandomState(ctx.seed+len(sp))
    K = nm+2

    def sims(C, beam, lmax):
        return [coeffs(ctx, g, nmt.synfast_spherical(
            ns, rows(C), sp, beam=beam, seed=k, wcs=wcs, lmax=lmax), sp, L,
            "%s" % (lmax,)) for k in range(K)]
    G0 = sims(spectra("eye", nm, L+1, rng), None, L)
    for n, kind in enumerate(kinds(nm)):
        nl = L+1+(n % 3)
        C = spectra(kind, nm, nl, rng)
        beam = None if n % 2 else rng.randn(len(sp), nl+(n % 4 == 2))
        B = np.ones((nm, nl)) if beam is None else beam[fld][:, :nl]
        A = sims(C, beam, L)
        judge(ctx, A, G0, C*np.einsum('il,jl->lij', B, B), nm, max(sp),
              kind)


def judge(ctx, A, G0, C, nm, smax, kind):
    """Operator of every mode; A, G0: lists over seeds of coefficients."""
    sc = max(np.abs(C).max(), 1e-300)
    for (c, l, m, p) in sorted(G0[0]):
        if c or l < smax:
            continue
        X = np.array([[a.get((i, l, m, p), 0.) for a in A]
                      for i in range(nm)])
        Y = np.array([[a.get((i, l, m, p), 0.) for a in G0]
                      for i in range(nm)])
        T = X @ np.linalg.pinv(Y)
        ctx.close("linear", T @ Y, X, rtol=1e-7, scale=np.sqrt(sc)*np.abs(
            Y).max(), detail=str((kind, l, m, p)))
        ctx.close("covariance", T @ T.T, C[l], rtol=1e-7, scale=sc,
                  detail=str((kind, l, m, p)))
        ctx.evaluated([kind, l, m, p], T @ T.T,
                      nontrivial=bool(C[l].any()))


def judge_all(ctx, A, G0, C, kind):
    """As judge, all modes at once. A, G0: [seed, component, mode]."""
    sc = max(np.abs(C).max(), 1e-300)
    X, Y = A.transpose(2, 1, 0), G0.transpose(2, 1, 0)
    T = X @ np.linalg.pinv(Y, rcond=1e-9)
    ctx.close("big:linear", T @ Y, X, rtol=1e-7, scale=np.sqrt(sc)*np.abs(
        Y).max(), detail=kind)
    ctx.close("big:covariance", T @ T.transpose(0, 2, 1), C, rtol=1e-7,
              scale=sc, detail=kind)
    ctx.evaluated(kind, C[::7])


def run_bigcurved(case, ctx):
    """Resolutions used in practice."""
    import pymaster as nmt
    from nmc import lib as L, oracle as O
    from nmc.curved import HpSky, RingSky
    sp, g = case["c"], case["g"]
    n, lmax = BIG[g]
    if g[3:5] == "hp":
        S, wcs, ns, it = HpSky(n, lmax), None, n, 12
    else:
        wcs, sh = L.car_wcs(n, n+3, -1, 1, ra0=0.)
        S = RingSky(np.arange(n+1)*np.pi/n, 0., n+3,
                    L.cc_weights(n)*2*np.pi/(n+3), lmax)
        ns, it = -1, 0
    nm = sum(2 if s else 1 for s in sp)
    fld = sum([[i]*(2 if s else 1) for i, s in enumerate(sp)], [])
    rng = np.random.RandomState(ctx.seed+len(sp)+20)
    lm = np.array(O.alm_index(lmax))
    ok = lm[:, 0] >= max(sp)

    def sims(C, beam):
        out = []
        for k in range(nm+2):
            x = nmt.synfast_spherical(ns, rows(C), sp, beam=beam, seed=k,
                                      wcs=wcs, lmax=lmax)
            x = x.reshape(nm, -1)
            a, i = [], 0
            for s in sp:
                w = 2 if s else 1
                y = S.m2a(x[i:i+w], s, n_iter=it)
                ctx.close("big:band limit", S.a2m(y, s), x[i:i+w], rtol=1e-8)
                a.append(y)
                i += w
            a = np.concatenate(a)[:, ok]
            out.append(np.concatenate([a.real, a.imag[:, lm[ok, 1] > 0]], 1))
        return np.array(out)
    l = np.concatenate([lm[ok, 0], lm[ok & (lm[:, 1] > 0), 0]])
    G0 = sims(spectra("eye", nm, lmax+1, rng), None)
    # (exactly singular spectra of many maps are beyond healpy's Cholesky)
    for j, kind in enumerate(("gen", "rank1", "line", "gen") if nm < 4 else
                             ("gen", "gen")):
        C = spectra(kind, nm, lmax+1+j, rng)
        beam = None if j % 2 else rng.randn(len(sp), lmax+1+j)
        B = np.ones((nm, lmax+1+j)) if beam is None else beam[fld]
        judge_all(ctx, sims(C, beam), G0,
                  (C*np.einsum('il,jl->lij', B, B))[l], kind+str(j))


def run_bigflat(case, ctx):
    import pymaster as nmt
    sp, i = case["c"], case["i"]
    nx, ny, lx, ly = (FLAT+BIGFLAT)[i]
    G = grid(i)
    nm = sum(2 if s else 1 for s in sp)
    fld = sum([[j]*(2 if s else 1) for j, s in enumerate(sp)], [])
    rng = np.random.RandomState(ctx.seed+len(sp)+21)
    kmax = int(G.k.max())+3
    good = G.half.copy()
    if max(sp):
        good &= ~G.nyq
        if any(s % 2 for s in sp):
            good[0, 0] = False

    def sims(C, beam):
        a = np.array([fcoeffs(i, nmt.synfast_flat(
            nx, ny, lx, ly, rows(C), sp, beam=beam, seed=k), sp)
            for k in range(nm+2)])[:, :, good]
        # complex operator is real: stack real and imaginary parts
        return np.concatenate([a.real, a.imag], 0)
    G0 = sims(spectra("eye", nm, kmax, rng), None)
    for j, kind in enumerate(("gen", "rank1", "line", "gen") if nm < 4 else
                             ("gen", "gen")):
        nl = kmax if j % 2 else int(0.7*kmax)
        C = spectra(kind, nm, nl, rng)
        beam = None if j == 1 else rng.randn(len(sp), nl)
        B = np.ones((nm, nl)) if beam is None else beam[fld]
        itp = lambda y: np.interp(G.k[good], np.arange(nl), y, right=0.)
        Ck = np.array([[itp(C[:, a, b]) for b in range(nm)]
                       for a in range(nm)])
        Bk = np.array([itp(b) for b in B])
        judge_all(ctx, sims(C, beam), G0,
                  (Ck*Bk[:, None]*Bk[None]).transpose(2, 0, 1),
                  kind+str(j))


# ---------------------------------------------------------------------- flat
def grid(i):
    from nmc.flat import Grid
    if ("f", i) not in _G:
        _G["f", i] = Grid(*(FLAT+BIGFLAT)[i])
    return _G["f", i]


def fcoeffs(i, maps, sp):
    G = grid(i)
    out, k = [], 0
    for s in sp:
        n = 2 if s else 1
        out += list(G.rot(G.ft(maps[k:k+n]), s))
        k += n
    return np.array(out)


def run_flat(case, ctx):
    import pymaster as nmt
    sp, i = case["c"], case["i"]
    nx, ny, lx, ly = FLAT[i]
    G = grid(i)
    nm = sum(2 if s else 1 for s in sp)
    fld = sum([[j]*(2 if s else 1) for j, s in enumerate(sp)], [])
    rng = np.random.RandomState(ctx.seed+len(sp)+7)
    kmax = int(G.k.max())+3
    K = nm+2

    def sims(C, beam):
        return np.array([fcoeffs(i, nmt.synfast_flat(
            nx, ny, lx, ly, rows(C), sp, beam=beam, seed=k), sp)
            for k in range(K)])
    G0 = sims(spectra("eye", nm, kmax, rng), None)
    good = G.half.copy()
    if max(sp):
        good &= ~G.nyq
        if any(s % 2 for s in sp):
            good[0, 0] = False
    for n, kind in enumerate(kinds(nm)):
        nl = kmax if n % 2 else int(0.7*kmax)
        C = spectra(kind, nm, nl, rng)
        beam = None if n % 3 == 1 else rng.randn(len(sp), nl)
        B = np.ones((nm, nl)) if beam is None else beam[fld]
        A = sims(C, beam)
        sc = max(np.abs(C).max(), 1e-300)*max(1, np.abs(B).max()**2)
        l = np.arange(nl)
        for iy, ix in np.argwhere(good):
            k = G.k[iy, ix]
            itp = lambda y: np.interp(k, l, y, right=0.)
            Ck = np.array([[itp(C[:, a, b]) for b in range(nm)]
                           for a in range(nm)])
            Bk = np.array([itp(b) for b in B])
            Ck = Ck*np.outer(Bk, Bk)
            # complex operator is real: stack real and imaginary parts
            X, Y = A[:, :, iy, ix].T, G0[:, :, iy, ix].T
            X = np.concatenate([X.real, X.imag], 1)
            Y = np.concatenate([Y.real, Y.imag], 1)
            T = X @ np.linalg.pinv(Y, rcond=1e-9)
            ctx.close("flat linear", T @ Y, X, rtol=1e-7, scale=np.sqrt(
                sc)*np.abs(Y).max(), detail=str((kind, iy, ix)))
            ctx.close("flat covariance", T @ T.T, Ck, rtol=1e-7, scale=sc,
                      detail=str((kind, iy, ix)))
            ctx.evaluated([kind, int(iy), int(ix)], T @ T.T,
                          nontrivial=bool(Ck.any()))


# ------------------------------------------------------- moments of variates
def run_lowl(case, ctx):
    """Multipoles at which only some of the fields have modes."""
    import pymaster as nmt
    sp, n = case["c"], case["n"]
    nm = sum(2 if s else 1 for s in sp)
    lmax = max(sp)
    rng = np.random.RandomState(ctx.seed+50)
    C = spectra("gen", nm, lmax+1, rng)+np.eye(nm)
    b = 0.5+rng.rand(len(sp), lmax+1)
    V = {}
    for k in range(n):
        x = nmt.synfast_spherical(4, rows(C), sp, beam=b, seed=k, lmax=lmax)
        i = 0
        for f, s in enumerate(sp):
            M, P, lab = solver("hp4", s, lmax)
            w = 2 if s else 1
            for (c, l, m, p), y in zip(lab, P @ x[i:i+w].ravel()):
                if l < lmax:
                    V.setdefault((l, m, p), {}).setdefault(
                        i+c, []).append(y/b[f, l]*(np.sqrt(2) if m else 1))
            i += w
    for (l, m, p), v in V.items():
        r = sorted(v)
        X = np.array([v[i] for i in r])
        want = C[l][np.ix_(r, r)]
        d = np.diag(want)
        err = np.sqrt((np.outer(d, d)+want**2)/n)
        bad = np.abs(X @ X.T/n-want)/err
        ctx.check(bad.max() < 7, "low multipoles", "%.2f sigma at %s" % (
            bad.max(), (l, m, p)))
        ctx.evaluated([l, m, p], want)


def run_moments(case, ctx):
    import pymaster as nmt
    sp, g, n = case["c"], case["g"], case["n"]
    nm = sum(2 if s else 1 for s in sp)
    X = []
    if isinstance(g, str):
        ns, wcs, _, S = geo(g)
        C = rows(spectra("eye", nm, 5, None))
        for k in range(n):
            x = nmt.synfast_spherical(ns, C, sp, seed=k)
            v, i = [], 0
            for s in sp:
                M, P, lab = solver(g, s, 4)
                w = np.array([1. if m == 0 else np.sqrt(2)
                              for c, l, m, p in lab])
                m_ = 2 if s else 1
                v.append((P @ x[i:i+m_].ravel())*w)
                i += m_
            X.append(np.concatenate(v))
    else:
        nx, ny, lx, ly = FLAT[g]
        G = grid(g)
        C = rows(spectra("eye", nm, int(G.k.max())+3, None))
        if max(sp):
            good = G.half & ~G.nyq
        else:
            good = G.half.copy()
        jx, jy = (-np.arange(nx)) % nx, (-np.arange(ny)) % ny
        IY, IX = np.mgrid[:ny, :nx]
        selfc = (jy[IY] == IY) & (jx[IX] == IX)
        good &= selfc | ~((jx[IX] == IX) & (jy[IY] < IY))
        sc = np.sqrt(4*np.pi**2/(lx*ly))
        for k in range(n):
            a = fcoeffs(g, nmt.synfast_flat(nx, ny, lx, ly, C, sp, seed=k),
                        sp)*sc
            X.append(np.concatenate([
                np.concatenate([b[good & selfc].real,
                                b[good & ~selfc].real*np.sqrt(2),
                                b[good & ~selfc].imag*np.sqrt(2)])
                for b in a]))
    X = np.array(X)
    d = X.shape[1]
    ctx.check(np.abs(X.mean(0)).max() < 6.5/np.sqrt(n), "mean",
              str(np.abs(X.mean(0)).max()))
    cov = X.T @ X/n
    bad = np.abs(cov-np.eye(d))/np.sqrt(1+np.eye(d))
    ctx.check(bad.max() < 7/np.sqrt(n), "unit covariance", "%.3f at %s" % (
        bad.max(), np.unravel_index(bad.argmax(), bad.shape)))
    kur = (X**4).mean()-3
    ctx.check(abs(kur) < 7*np.sqrt(96./(n*d)), "Gaussian", str(kur))
    ctx.check(abs((X**3).mean()) < 7*np.sqrt(15./(n*d)), "Gaussian", "skew")
    # consecutive seeds are independent
    c1 = np.sum(X[1:]*X[:-1])/np.sqrt((n-1)*d)
    ctx.check(abs(c1) < 7, "independent seeds", str(c1))
    for k in range(d):
        ctx.evaluated(["moment", k], cov[k])
    ctx.add("simulations", n)


# ------------------------------------------------------------ reproducibility
def gen(sph, seed, C, sp=(0, 2)):
    import pymaster as nmt
    if sph == 0:
        return nmt.synfast_flat(7, 6, 0.3, 0.2, C, list(sp), seed=seed)
    if sph == 1:
        return nmt.synfast_spherical(2, C, list(sp), seed=seed)
    ns, wcs, o, S = geo("car1")
    return nmt.synfast_spherical(-1, C, list(sp), seed=seed, wcs=wcs, lmax=6)


def run_seeds(case, ctx):
    C = rows(spectra("gen", 3, 200, np.random.RandomState(ctx.seed)))
    seen = {}
    seeds = list(range(case["n"]))+[2**31-1, 2**31-2, 2**20, 12345678]
    for k in seeds:
        x = gen(case["sph"], k, C)
        for q in (x[0].tobytes(), x[1].tobytes(), np.abs(x[0]).tobytes()):
            ctx.check(q not in seen, "distinct seeds", "%d %s" % (
                k, seen.get(q)))
            seen[q] = k
        ctx.check(np.array_equal(x, gen(case["sph"], k, C)),
                  "reproducible", str(k))
        ctx.evaluated(["seed", k], x)
    # negative: a new realisation each time, whatever the global state
    a = [gen(case["sph"], s, C) for s in (-1, -1, -7)]
    ctx.check(not np.array_equal(a[0], a[1]) and
              not np.array_equal(a[1], a[2]), "random seed")
    default_differs(case["sph"], C, ctx)


def default_differs(sph, C, ctx):
    import pymaster as nmt
    if sph == 0:
        f = lambda: nmt.synfast_flat(7, 6, 0.3, 0.2, C, [0, 2])
    else:
        f = lambda: nmt.synfast_spherical(2, C, [0, 2])
    ctx.check(not np.array_equal(f(), f()), "random seed default")


def run_repro(case, ctx):
    import ctypes
    omp = ctypes.CDLL("libgomp.so.1")
    sph = case["sph"]
    C = rows(spectra("gen", 3, 200, np.random.RandomState(ctx.seed)))
    D = rows(spectra("gen", 1, 30, np.random.RandomState(ctx.seed)))
    n0 = omp.omp_get_max_threads()
    hist = [lambda: None, lambda: gen(sph, 3, C), lambda: gen(sph, 4, D,
                                                             (0,)),
            lambda: gen(0, 9, C), lambda: gen(1, -1, C),
            lambda: np.random.seed(5), lambda: np.random.rand(7),
            lambda: np.random.randn(1)]
    for seed in ((0, 1, 77, 2**31-1)[case["i"]],):
        np.random.seed(1)
        ref = gen(sph, seed, C)
        for nt, (a, b) in itertools.product(
                (1, 2, 3, 5, 8), itertools.product(range(len(hist)),
                                                   repeat=2)):
            omp.omp_set_num_threads(nt)
            hist[a]()
            hist[b]()
            st = np.random.get_state()
            x = gen(sph, seed, C)
            s2 = np.random.get_state()
            ctx.check(np.array_equal(st[1], s2[1]) and st[2:] == s2[2:],
                      "global state", "seed %d" % seed)
            ctx.close("reproducible", x, ref, rtol=1e-12,
                      detail=str((seed, nt, a, b)))
            ctx.evaluated([seed, nt, a, b], x)
    omp.omp_set_num_threads(n0)


def run_limits(case, ctx):
    """Band limits, defaults and refusals."""
    import pymaster as nmt
    rng = np.random.RandomState(ctx.seed)
    for nl, lm in itertools.product((3, 6, 9, 30), (None, 0, 2, 5, 7)):
        C = rows(spectra("gen", 1, nl, rng))
        x = nmt.synfast_spherical(4, C, [0], seed=2, lmax=lm)
        want = min(nl-1, 11 if lm is None else lm)
        if want <= 6:
            a = coeffs(ctx, "hp4", x, [0], want, str((nl, lm)))
            top = [abs(v) for (c, l, m, p), v in a.items() if l == want]
            ctx.check(max(top) > 1e-8, "lmax", str((nl, lm)))
        else:
            M, P, lab = solver("hp4", 0, 6)
            ctx.check(np.abs(M @ (P @ x[0])-x[0]).max() > 1e-6, "lmax",
                      str((nl, lm)))
        ctx.evaluated([nl, lm], x)
    w = geo("car0")[1]
    C = rows(spectra("gen", 1, 40, rng))
    a = nmt.synfast_spherical(-1, C, [0], seed=2, wcs=w)
    b = nmt.synfast_spherical(-1, C, [0], seed=2, wcs=w, lmax=9)
    ctx.close("default lmax", a, b, rtol=1e-12)
    ctx.check(a.shape == (1, 10, 18), "shape", str(a.shape))
    one = np.ones((1, 9))
    V = ValueError
    from nmc import lib as L
    part = L.car_wcs(9, 18, ra0=160., theta0=2, ny=5)[0]
    for nm, f in [
            ("ncls", lambda: nmt.synfast_spherical(4, np.ones((2, 9)), [0])),
            ("ncls", lambda: nmt.synfast_spherical(4, one, [2])),
            ("ncls", lambda: nmt.synfast_spherical(4, one, [0, 0])),
            ("spin", lambda: nmt.synfast_spherical(4, one, [-1])),
            ("nbeam", lambda: nmt.synfast_spherical(
                4, np.ones((3, 9)), [2], beam=np.ones((2, 9)))),
            ("lbeam", lambda: nmt.synfast_spherical(
                4, one, [0], beam=np.ones((1, 8)))),
            ("part", lambda: nmt.synfast_spherical(-1, one, [0], wcs=part)),
            ("flat ncls", lambda: nmt.synfast_flat(4, 4, 1., 1., np.ones(
                (2, 9)), [0])),
            ("flat spin", lambda: nmt.synfast_flat(4, 4, 1., 1., one, [-2])),
            ("flat nbeam", lambda: nmt.synfast_flat(
                4, 4, 1., 1., np.ones((3, 9)), [2], beam=np.ones((2, 9)))),
            ("flat lbeam", lambda: nmt.synfast_flat(
                4, 4, 1., 1., one, [0], beam=np.ones((1, 8))))]:
        ctx.raises(nm, f, exc=V, detail=nm)
        ctx.evaluated(nm)
    for f in (lambda: nmt.synfast_flat(4, 4, -1., 1., one, [0]),
              lambda: nmt.synfast_flat(4, 4, 1., 0., one, [0])):
        ctx.raises("flat size", f)
