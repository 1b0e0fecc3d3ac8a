"""P11: curved-sky transforms and pseudo-spectra against explicit sums."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the transforms are linear, so every "
             "unit-impulse pixel of every component and every unit harmonic "
             "coefficient is run for every pixelisation, spin, band limit, "
             "number of iterations and back end in the bound and compared "
             "with explicit sums over spin-weighted harmonics; the "
             "pseudo-spectrum is bilinear and is run on every pair of unit "
             "coefficients")
RULE = ("grids: HEALPix nside 2 (and 4), full and partial Clenshaw-Curtis "
        "grids of both parities x spins 0-3 x band limits x 0-3 iterations "
        "x back ends; every pixel impulse (real/imaginary component) and "
        "every harmonic coefficient (real and imaginary part). fields: all "
        "spin pairs on every grid; pcl: all pairs of unit coefficients; "
        "rings: every band of rings of every rectangular grid up to a "
        "number of rings, in both directions, from independently written "
        "headers. big: HEALPix to nside 64 (thorough 256) and rings grids "
        "of 130-180 (400) rings, spins to 9, up to 9 iterations, every back end, "
        "against healpy and FFT sums. Non-trivial: non-zero result.")
ASSUMES = ["pixel positions of HEALPix from healpy; numerical epsilon of the "
           "transform libraries below 1e-10 relative"]
MIN_EVAL = 2000

GRIDS = {
    "hp2": ("hp", 2), "hp4": ("hp", 4),
    "car": ("car", 8, 14, 0, 9, 14, 0.), "carodd": ("car", 7, 15, 0, 8, 15, 0.),
    "carpart": ("car", 10, 18, 3, 4, 7, 40.),
    "carband": ("car", 9, 12, 2, 5, 12, 0.),
    "carpole": ("car", 8, 16, 5, 4, 9, 100.),
}


def cases(tier, seed):
    deep = tier != "quick"
    for g in GRIDS:
        if g == "hp4" and not deep:
            continue
        for s in range(4):
            for lmax in ((3, 5) if g != "hp4" else (7, 11)) + (
                    (8, 1) if deep and g != "hp4" else ()):
                if lmax < s:
                    continue
                for ni in (0, 1, 3) if not deep else (0, 1, 2, 3):
                    for c in ("ducc", "healpy"):
                        if c == "healpy" and g[:2] != "hp":
                            continue
                        yield dict(t="sht", g=g, s=s, lmax=lmax, n_iter=ni,
                                   calc=c)
    for g in GRIDS:
        if g == "hp4" and not deep:
            continue
        for s1, s2 in itertools.product(range(4), repeat=2):
            for c in ("ducc", "healpy"):
                if c == "healpy" and g[:2] != "hp":
                    continue
                yield dict(t="field", g=g, s1=s1, s2=s2, calc=c,
                           n_iter=(s1+s2) % 3, n_mask=(s1*s2+1) % 3)
    # resolutions used in practice: data drawn from a generator, every
    # combination of grid, spin, iterations and back end
    for g in BIG:
        if g[-1] == "+" and not deep:
            continue
        for s in range(4):
            for ni in (0, 1, 3):
                for c in ("ducc", "healpy"):
                    if c == "healpy" and g[:2] != "hp":
                        continue
                    yield dict(t="big", g=g, s=s, n_iter=ni, calc=c)
        for s, ni in ((0, 7), (2, 9), (1, 5), (4, 0), (5, 1), (7, 0), (9, 2)):
            for c in ("ducc", "healpy")[:1+(g[:2] == "hp")]:
                yield dict(t="big", g=g, s=s, n_iter=ni, calc=c)
    for nth in list(range(3, 41 if not deep else 91))+[45, 60, 90, 180]*(
            not deep)+[120, 180, 360]*deep:
        yield dict(t="rings", nth=nth)
    for s1, s2 in itertools.product((0, 2), repeat=2):
        for lmax in (1, 2, 3) if not deep else (1, 2, 3, 4):
            if lmax >= max(s1, s2):
                yield dict(t="pcl", s1=s1, s2=s2, lmax=lmax)

# name: nside, lmax or (nth, nph, first ring, rings, columns, phi0), lmax
BIG = {"hp32": (32, 95), "hp64low": (64, 100),
       "hp128+": (128, 383), "hp256+": (256, 767),
       "car": ((130, 260, 0, 131, 260, 0.), 110),
       "carodd": ((131, 263, 0, 132, 263, 0.), 115),
       "carlow": ((140, 150, 0, 141, 150, 0.), 120),
       "carpart": ((180, 360, 20, 121, 200, 40.), 120),
       "cardeep+": ((400, 799, 0, 401, 799, 0.), 250),
       "cardeep2+": ((360, 720, 100, 221, 333, 10.), 200)}


def grid(name):
    """(theta, phi, weights, map info) of a grid in library pixel order."""
    import pymaster as nmt
    from nmc import lib as L
    import healpy as hp
    g = GRIDS[name]
    if g[0] == "hp":
        n = 12*g[1]**2
        th, ph = hp.pix2ang(g[1], np.arange(n))
        return th, ph, np.full(n, 4*np.pi/n), None, (n,)
    _, nth, nph, t0, ny, nx, ph0 = g
    wcs, shape = L.car_wcs(nth, nph, dec_sign=-1, ra_sign=1, theta0=t0, ny=ny,
                           nx=nx, phi_start=ph0, ra0=ph0)
    th = (t0+np.arange(ny))*np.pi/nth
    ph = np.radians(ph0)+np.arange(nx)*2*np.pi/nph
    w = L.cc_weights(nth)[t0:t0+ny]*2*np.pi/nph
    return (np.repeat(th, nx), np.tile(ph, ny), np.repeat(w, nx), wcs, shape)


def sky(name, lmax, _c={}):
    from nmc.curved import Sky
    if (name, lmax) not in _c:
        th, ph, w, wcs, shape = grid(name)
        _c[(name, lmax)] = (Sky(th, ph, w, lmax), wcs, shape)
    return _c[(name, lmax)]


def iterated(S, v, s, lmax, n_iter, calc, g):
    """Jacobi iterations. On partial grids the library synthesises on full
    rings: the padded pixels keep a zero data value."""
    if g in ("carpart", "carpole") and n_iter:
        # same rings, all azimuths
        P = padded(g, lmax)
        x = P.pad(v)
        return P.sky.m2a(x, s, lmax, n_iter)
    return S.m2a(v, s, lmax, n_iter)


class padded(object):
    _c = {}

    def __new__(cls, g, lmax):
        if (g, lmax) not in cls._c:
            o = object.__new__(cls)
            from nmc.curved import Sky
            from nmc import lib as L
            _, nth, nph, t0, ny, nx, ph0 = GRIDS[g]
            th = (t0+np.arange(ny))*np.pi/nth
            ph = np.radians(ph0)+np.arange(nph)*2*np.pi/nph
            w = L.cc_weights(nth)[t0:t0+ny]*2*np.pi/nph
            o.sky = Sky(np.repeat(th, nph), np.tile(ph, ny),
                        np.repeat(w, nph), lmax)
            o.ny, o.nx, o.nph = ny, nx, nph
            cls._c[(g, lmax)] = o
        return cls._c[(g, lmax)]

    def pad(self, v):
        x = np.zeros((len(v), self.ny, self.nph))
        x[:, :, :self.nx] = v.reshape(len(v), self.ny, self.nx)
        return x.reshape(len(v), -1)


def run(case, ctx):
    import pymaster as nmt
    try:
        nmt.set_sht_calculator(case.get("calc", "ducc"))
        globals()["run_"+case["t"]](case, ctx)
    finally:
        nmt.set_sht_calculator("ducc")


def run_sht(case, ctx):
    import pymaster as nmt
    from pymaster import utils as u
    g, s, lmax, ni = case["g"], case["s"], case["lmax"], case["n_iter"]
    S, wcs, shape = sky(g, lmax)
    mi, ai = u.NmtMapInfo(wcs, shape), u.NmtAlmInfo(lmax)
    nc = 2 if s else 1
    ctx.check(mi.npix == S.npix, "npix", "%d" % mi.npix)
    n = S.npix
    eye = np.eye(nc*n)
    # the whole operator at once, then column by column
    for k in range(nc*n):
        v = eye[k].reshape(nc, n)
        want = iterated(S, v, s, lmax, ni, case["calc"], g)
        got = u.map2alm(v, s, mi, ai, n_iter=ni)
        ctx.close("map2alm", got, want, rtol=1e-9,
                  scale=max(np.abs(want).max(), 1e-3*np.max(S.w)))
        ctx.evaluated([k], got, nontrivial=bool(np.any(want != 0)))
    if ni:
        return
    nl = ai.nelem
    ctx.check(nl == (lmax+1)*(lmax+2)//2, "nalm", "%d" % nl)
    lm = [(l, m) for m in range(lmax+1) for l in range(m, lmax+1)]
    for c in range(nc):
        for i, (l, m) in enumerate(lm):
            if l < s:
                continue
            for ph in ((1., 1j) if m else (1.,)):
                a = np.zeros((nc, nl), complex)
                a[c, i] = ph
                want = S.a2m(a, s, lmax)
                got = u.alm2map(a, s, mi, ai)
                ctx.close("alm2map", got, want, rtol=1e-9, scale=1.,
                          detail="l=%d m=%d" % (l, m))
                ctx.evaluated(["a", c, l, m, ph == 1], got)
    ctx.sample(case)


def run_big(case, ctx):
    import pymaster as nmt
    from pymaster import utils as u
    from nmc import lib as L
    from nmc.curved import HpSky, RingSky
    g, lmax = BIG[case["g"]]
    s, ni = case["s"], case["n_iter"]
    nc = 2 if s else 1
    rng = np.random.RandomState(ctx.seed+31)
    k = (case["g"], ctx.seed)
    if isinstance(g, int):
        S, wcs, shape = HpSky(g, lmax), None, (12*g*g,)
        emb = cut = lambda v: v
    else:
        nth, nph, t0, ny, nx, ph0 = g
        wcs, shape = L.car_wcs(nth, nph, dec_sign=-1, ra_sign=1, theta0=t0,
                               ny=ny, nx=nx, phi_start=ph0, ra0=ph0)
        S = _BIG.get(k)
        if S is None:
            _BIG.clear()
            S = _BIG[k] = RingSky(
                (t0+np.arange(ny))*np.pi/nth, np.radians(ph0), nph,
                L.cc_weights(nth)[t0:t0+ny]*2*np.pi/nph, lmax)

        def emb(v):
            x = np.zeros((len(v), ny, nph))
            x[:, :, :nx] = v.reshape(-1, ny, nx)
            return x.reshape(len(v), -1)

        def cut(v):
            return v.reshape(-1, ny, nph)[:, :, :nx].reshape(len(v), -1)
    mi, ai = u.NmtMapInfo(wcs, shape), u.NmtAlmInfo(lmax)
    n = int(np.prod(shape))
    ctx.check(mi.npix == n and ai.nelem == (lmax+1)*(lmax+2)//2, "sizes",
              "%d %d" % (mi.npix, ai.nelem))
    v = rng.randn(nc, n)
    want = S.m2a(emb(v), s, lmax, ni)
    got = u.map2alm(v, s, mi, ai, n_iter=ni)
    ctx.close("big:map2alm", got, want, rtol=1e-9)
    ctx.evaluated("m2a", got)
    m = rng.rand(n)
    f = nmt.NmtField(m.reshape(shape), [q.reshape(shape) for q in v], spin=s,
                     wcs=wcs, n_iter=ni, n_iter_mask=1-ni % 2, lmax=lmax,
                     lmax_mask=lmax)
    a = S.m2a(emb(v*m), s, lmax, ni)
    ctx.close("big:field", f.get_alms(), a, rtol=1e-9)
    ctx.close("big:mask", f.get_mask_alms(), S.m2a(
        emb(m[None]), 0, lmax, 1-ni % 2)[0], rtol=1e-9)
    ctx.close("big:pcl", nmt.compute_coupled_cell(f, f), S.cl(a, a),
              rtol=1e-9)
    ctx.evaluated("field", a)
    if ni:
        return
    l = S.l_of(lmax)
    a = (rng.randn(nc, len(l))+1j*rng.randn(nc, len(l)))*(l >= s)
    a[:, :lmax+1] = a[:, :lmax+1].real
    ctx.close("big:alm2map", u.alm2map(a, s, mi, ai), cut(S.a2m(a, s, lmax)),
              rtol=1e-9)
    ctx.evaluated("a2m", a)


_BIG = {}


def run_field(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O
    g, s = case["g"], (case["s1"], case["s2"])
    lmax, lmask = 6, 5
    S, wcs, shape = sky(g, lmax)
    rng = np.random.RandomState(ctx.seed+11)
    n = S.npix
    fl, al = [], []
    for x in s:
        m = rng.rand(n)
        maps = rng.randn(2 if x else 1, n)
        f = nmt.NmtField(m.reshape(shape), [q.reshape(shape) for q in maps],
                         spin=x, wcs=wcs, n_iter=case["n_iter"],
                         n_iter_mask=case["n_mask"], lmax=lmax,
                         lmax_mask=lmask)
        a = iterated(S, maps*m, x, lmax, case["n_iter"], case["calc"], g)
        ctx.close("alms", f.get_alms(), a, rtol=1e-9)
        ctx.close("mask-alms", f.get_mask_alms(), iterated(
            sky(g, lmask)[0], m[None], 0, lmask, case["n_mask"],
            case["calc"], g)[0], rtol=1e-9)
        fl.append(f)
        al.append(a)
    want = S.cl(al[0], al[1])
    got = nmt.compute_coupled_cell(*fl)
    ctx.close("pcl", got, want, rtol=1e-9)
    n1, n2 = len(al[0]), len(al[1])
    sw = nmt.compute_coupled_cell(fl[1], fl[0])
    ctx.close("transpose", sw.reshape(n2, n1, -1).transpose(1, 0, 2).reshape(
        n1*n2, -1), got, rtol=1e-12)
    ctx.close("auto", nmt.compute_coupled_cell(fl[0], fl[0]),
              S.cl(al[0], al[0]), rtol=1e-9)
    ctx.evaluated("f", got)
    ctx.sample(dict(case, cl=got[0][:3].tolist()))


def run_rings(case, ctx):
    """Every band of consecutive rings: m=0 coefficients against the exact
    quadrature."""
    from pymaster import utils as u
    from nmc import lib as L
    nth, lmax = case["nth"], 3
    ai = u.NmtAlmInfo(lmax)
    W = L.cc_weights(nth)
    th = np.arange(nth+1)*np.pi/nth
    x = np.cos(th)
    P = np.array([np.ones(nth+1), np.sqrt(3.)*x, np.sqrt(5.)*(1.5*x**2-0.5),
                  np.sqrt(7.)*(2.5*x**3-1.5*x)])/np.sqrt(4*np.pi)
    rng = np.random.RandomState(ctx.seed+nth)
    step = 1 if nth < 50 or ctx.tier != "quick" else 7
    for nph in (2*nth, 9):
        for t0 in range(0, nth):
            for ny in sorted({1, 2, 3, nth+1-t0, (nth+1-t0)//2}):
                if ny < 1 or t0+ny > nth+1 or (t0*5+ny) % step:
                    continue
                for ds in (-1, 1):
                    wcs, shape = L.car_wcs(nth, nph, dec_sign=ds, ra_sign=1,
                                           theta0=t0, ny=ny, nx=4,
                                           phi_start=20., ra0=20.)
                    mi = u.NmtMapInfo(wcs, shape)
                    v = rng.randn(ny, 4)
                    d = v if ds < 0 else v[::-1]
                    a = u.map2alm(mi.reform_map(d[None]), 0, mi, ai,
                                  n_iter=0)[0][:lmax+1]
                    want = P[:, t0:t0+ny] @ (W[t0:t0+ny]*v.sum(1))*(
                        2*np.pi/nph)
                    ctx.close("rings", a, want, rtol=1e-9,
                              scale=np.max(W[t0:t0+ny])*2*np.pi/nph,
                              detail="%s" % ((nth, nph, t0, ny, ds),))
                    ctx.evaluated([nph, t0, ny, ds], want)


def run_pcl(case, ctx):
    """Every pair of unit coefficients, through the back door of maps that
    synthesise them exactly on a Clenshaw-Curtis grid."""
    import pymaster as nmt
    from nmc import lib as L
    lmax, sp = case["lmax"], (case["s1"], case["s2"])
    nth = 2*lmax+4
    C = L.CarGrid(nth, 2*nth)
    sht = C.sht(lmax)
    one = np.ones(C.shape)
    lm = [(l, m) for m in range(lmax+1) for l in range(m, lmax+1)]
    sets = []
    for s in sp:
        out = []
        for c in range(2 if s else 1):
            for i, (l, m) in enumerate(lm):
                for ph in ((1., 1j) if m else (1.,)):
                    if l < s:
                        continue
                    a = np.zeros((2 if s else 1, len(lm)), complex)
                    a[c, i] = ph
                    maps = sht.synth(a, s).reshape((-1,)+C.shape)
                    f = nmt.NmtField(one, maps, spin=s, wcs=C.wcs, lmax=lmax,
                                     lmax_mask=lmax, n_iter=0)
                    ctx.close("exact", f.get_alms(), a, rtol=1e-9)
                    out.append(((c, l, m, ph), f))
        sets.append(out)
    n2 = 2 if sp[1] else 1
    for (c1, l1, m1, p1), f in sets[0]:
        for (c2, l2, m2, p2), h in sets[1]:
            want = np.zeros(((2 if sp[0] else 1)*n2, lmax+1))
            if l1 == l2 and m1 == m2:
                want[c1*n2+c2, l1] = (p1*np.conj(p2)).real*(
                    2. if m1 else 1.)/(2*l1+1)
            got = nmt.compute_coupled_cell(f, h)
            ctx.close("pair", got, want, rtol=1e-9, scale=1.)
            ctx.evaluated([c1, l1, m1, p1 == 1, c2, l2, m2, p2 == 1], got,
                          nontrivial=bool(want.any()))
