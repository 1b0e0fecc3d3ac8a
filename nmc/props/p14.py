"""P14: catalogue fields against explicit sums over sources."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every catalogue that can be formed "
             "from a finite set of positions (poles, branch cuts, coincident "
             "and generic points) up to a given size, with every spin, unit "
             "convention, weighting convention, weight pattern and pair of "
             "fields in the bound, compared with explicit sums over sources")
RULE = ("all multisets of up to 3 positions x weight patterns x spins x "
        "(degrees|radians) x (weighted before|inside); pairs: every pair of "
        "kinds of field (catalogue, clustering, map) incl. itself: pseudo- "
        "spectra, coupling matrices.pairs also with catalogues of 1500 "
        "(12000) sources; deep: band limits to 130 (400) against the Wigner "
        "recursion. Non-trivial: non-zero result.")
ASSUMES = ["non-uniform transform of the catalogue is accurate to 1e-4 "
           "(library: epsilon=1e-5)"]
MIN_EVAL = 2000

POS = [(0., 0.), (np.pi, 1.), (np.pi/2, 0.), (np.pi/2, 2*np.pi), (0.3, 2.),
       (1.2, 4.5), (2.9, 6.2), (np.pi/2, np.pi)]


def cases(tier, seed):
    deep = tier != "quick"
    for k in (1, 2, 3) + ((4,) if deep else ()):
        for first in range(len(POS)):
            for s in range(4):
                yield dict(t="alms", k=k, first=first, s=s)
    kinds = ["c0", "c2", "c1", "cl", "m0", "m2", "c0b"]
    for a, b in itertools.product(kinds, repeat=2):
        for lmask in (5, 8):
            yield dict(t="pair", a=a, b=b, lmask=lmask)
    for n in (1500,) if not deep else (1500, 12000):
        for a, b in (("c0", "c0"), ("c2", "c2"), ("cl", "cl"), ("c2", "cl"),
                     ("m0", "c2"), ("c0b", "c1")):
            yield dict(t="pair", a=a, b=b, lmask=16, n=n)
    for k in range(4 if deep else 2):
        for pat in range(4):
            yield dict(t="clus", k=k, pat=pat)
    for s in (0, 1, 2, 5):
        for lmax, lmask in ((130, 75),) if not deep else (
                (130, 75), (70, 200), (400, 300)):
            yield dict(t="deep", s=s, lmax=lmax, lmask=lmask)
    yield dict(t="mut")


def ysum(s, pos, lmax):
    """[ncomp*nlm, ncomp, nsrc] analysis of unit sources."""
    from nmc import oracle as O
    sht = O.SHT(pos[:, 0], pos[:, 1], np.ones(len(pos)), lmax)
    return sht


def weights(pat, n, rng):
    return [np.ones(n), 0.2+rng.rand(n), np.where(np.arange(n) % 2, 0., 2.),
            rng.randn(n)][pat]


def deg(pos):
    return np.array([np.degrees(pos[:, 1]), 90-np.degrees(pos[:, 0])])


TOL = 1e-4


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_alms(case, ctx):
    import pymaster as nmt
    k, s = case["k"], case["s"]
    rng = np.random.RandomState(ctx.seed+case["first"])
    lmax, lmask = 4, 6
    for rest in itertools.combinations_with_replacement(
            range(case["first"], len(POS)), k-1):
        pos = np.array([POS[i] for i in (case["first"],)+rest])
        sht, shm = ysum(s, pos, lmax), ysum(0, pos, lmask)
        for pat in range(4):
            w = weights(pat, k, rng)
            v = rng.randn(2 if s else 1, k)
            want = sht.anal(v*w, s)
            wm = shm.anal(w[None], 0)[0]
            sc = max(np.abs(want).max(), np.abs(v*w).max())
            scm = max(np.abs(wm).max(), np.abs(w).max())
            for ll, fw, arr in itertools.product((0, 1), (0, 1), (0, 1)):
                if arr and (ll or fw):
                    continue
                p = deg(pos) if ll else pos.T
                val = v*w if fw else v
                if arr:  # lists are as good as arrays
                    p = [list(x) for x in p]
                    val = val[0].copy() if s == 0 else [list(x) for x in val]
                f = nmt.NmtFieldCatalog(
                    p, w if not arr else list(w), val, lmax, lmax_mask=lmask,
                    spin=s if s != 2 or ll else None, lonlat=bool(ll),
                    field_is_weighted=bool(fw))
                what = "%s pat=%d lonlat=%d weighted=%d" % (
                    pos.tolist(), pat, ll, fw)
                ctx.close("alms", f.get_alms(), want, rtol=TOL, scale=sc,
                          detail=what)
                ctx.close("mask-alms", f.get_mask_alms(), wm, rtol=TOL,
                          scale=scm, detail=what)
                ctx.close("Nw", f.Nw, np.sum(w**2)/(4*np.pi), rtol=1e-10)
                ctx.close("Nf", f.Nf, np.sum((v*w)**2)/(4*np.pi*len(v)),
                          rtol=1e-10)
                ctx.check(f.alpha is None, "alpha")
                ctx.evaluated([rest, pat, ll, fw, arr], want)


def run_deep(case, ctx):
    """Band limits of hundreds, against the Wigner recursion."""
    import pymaster as nmt
    from nmc.curved import PointSky
    s, lmax, lmask, n = case["s"], case["lmax"], case["lmask"], 150
    rng = np.random.RandomState(ctx.seed+91)
    pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                    rng.uniform(0, 2*np.pi, n)])
    S = PointSky(*pos, lmax)
    Sm = PointSky(*pos, lmask)
    for k in range(3):
        w = 0.2+rng.rand(n) if k else np.ones(n)
        v = rng.randn(2 if s else 1, n)
        f = nmt.NmtFieldCatalog(
            pos if k < 2 else deg(pos.T), w, v*w if k == 1 else v, lmax,
            lmax_mask=lmask, spin=s, field_is_weighted=k == 1,
            lonlat=k == 2)
        ctx.close("deep:alms", f.get_alms(), S.m2a(v*w, s), rtol=3e-5)
        wm = Sm.m2a(w[None], 0)
        ctx.close("deep:mask", f.get_mask_alms(), wm[0], rtol=3e-5)
        ctx.evaluated([k], f.get_alms())
    h = n//3
    g = nmt.NmtFieldCatalogClustering(pos[:, :h], w[:h], pos[:, h:], w[h:],
                                      lmask)
    al = w[:h].sum()/w[h:].sum()
    w0, w1 = w.copy(), w.copy()
    w0[h:], w1[:h] = 0, 0
    mk = al*Sm.m2a(w1[None], 0)[0]
    ctx.close("deep:clustering", g.get_alms()[0], Sm.m2a(w0[None], 0)[0]-mk,
              rtol=3e-5)
    ctx.close("deep:clustering-mask", g.get_mask_alms(), mk, rtol=3e-5)
    ctx.evaluated("clus", g.get_alms())


def field(kind, ctx, lmax, lmask, n=5):
    """(library field, alms, mask alms, Nf, Nw, spin, beam)"""
    import pymaster as nmt
    from nmc.props.p11 import sky
    rng = np.random.RandomState(ctx.seed+hash_(kind))
    one = np.ones(lmax+1)
    if kind[0] == "m":
        s = int(kind[1])
        S, wcs, shape = sky("hp2", lmax)
        m = rng.rand(S.npix)
        d = rng.randn(2 if s else 1, S.npix)
        f = nmt.NmtField(m, d, spin=s, lmax=lmax, lmax_mask=lmask, n_iter=0,
                         n_iter_mask=0)
        return (f, S.m2a(d*m, s, lmax), sky("hp2", lmask)[0].m2a(
            m[None], 0, lmask)[0], 0., 0., s, one)
    pos = np.array([np.arccos(rng.uniform(-1, 1, n)),
                    rng.uniform(0, 2*np.pi, n)]).T
    w = 0.2+rng.rand(n)
    if kind == "cl":
        posr = np.array([np.arccos(rng.uniform(-1, 1, 2*n)),
                         rng.uniform(0, 2*np.pi, 2*n)]).T
        wr = 0.2+rng.rand(2*n)
        f = nmt.NmtFieldCatalogClustering(pos.T, w, posr.T, wr, lmask)
        # band limits agree by construction
        al = w.sum()/wr.sum()
        mk = al*ysum(0, posr, lmask).anal(wr[None], 0)
        a = ysum(0, pos, lmask).anal(w[None], 0)-mk
        Nw = al**2*np.sum(wr**2)/(4*np.pi)
        return f, a, mk[0], np.sum(w**2)/(4*np.pi)+Nw, Nw, 0, \
            np.ones(lmask+1)
    s = int(kind[1])
    v = rng.randn(2 if s else 1, n)
    beam = np.exp(-0.1*np.arange(lmax+1)) if kind[-1] == "b" else one
    f = nmt.NmtFieldCatalog(pos.T, w, v, lmax, lmax_mask=lmask, spin=s,
                            beam=np.append(beam, [9., 9.])
                            if kind[-1] == "b" else None)
    return (f, ysum(s, pos, lmax).anal(v*w, s),
            ysum(0, pos, lmask).anal(w[None], 0)[0],
            np.sum((v*w)**2)/(4*np.pi*len(v)), np.sum(w**2)/(4*np.pi), s,
            beam)


def hash_(k):
    return sum(ord(c)*7**i for i, c in enumerate(k)) % 10007


def run_pair(case, ctx):
    import pymaster as nmt
    from nmc import oracle as O, lib as L
    lmask = case["lmask"]
    lmax = lmask if "cl" in (case["a"], case["b"]) else 5
    n = case.get("n", 5)
    A = field(case["a"], ctx, lmax, lmask, n)
    B = field(case["b"], ctx, lmax, lmask, n)
    pairs = [("cross", A, B)]
    if case["a"] == case["b"]:
        pairs.append(("auto", A, A))
    for name, X, Y in pairs:
        n1, n2 = len(X[1]), len(Y[1])
        want = np.array([O.alm2cl(p, q, lmax) for p in X[1] for q in Y[1]])
        sc = np.abs(want).max()
        if X is Y:
            for i in range(n1):
                want[i*n1+i] -= X[3]
        got = nmt.compute_coupled_cell(X[0], Y[0])
        ctx.close(name+":pcl", got, want, rtol=TOL, scale=sc)
        pm = O.alm2cl(X[2], Y[2], lmask)
        scm = np.abs(pm).max()
        if X is Y:
            pm = pm-X[4]
        b = nmt.NmtBin(ells=np.arange(lmax+1), bpws=np.maximum(
            np.arange(lmax+1)-1, 0)//2, weights=np.ones(lmax+1), lmax=lmax)
        w = nmt.NmtWorkspace.from_fields(X[0], Y[0], b)
        M = O.mcm_curved(pm, lmax, X[5], Y[5])
        ref = max(np.abs(M).max(), 0.1*scm)
        ctx.close(name+":mcm", w.get_coupling_matrix(), M, rtol=TOL,
                  scale=ref)
        # the library's own mask coefficients: tight
        ma = X[0].get_mask_alms()
        pm2 = O.alm2cl(ma, Y[0].get_mask_alms(), lmask)
        if X is Y:
            pm2 = pm2-X[0].Nw
        M2 = O.mcm_curved(pm2, lmax, X[5], Y[5])
        ctx.close(name+":mcm-tight", w.get_coupling_matrix(), M2, rtol=1e-9,
                  scale=ref)
        # beams enter coupling of spectra
        cl = np.random.RandomState(1).rand(n1*n2, lmax+1)
        bb = (X[6]*Y[6])[None]
        ctx.close(name+":couple", w.couple_cell(cl), (
            M2 @ (cl*bb).T.ravel()).reshape(-1, n1*n2).T, rtol=1e-9,
            scale=ref*10)
        if X[0].is_catalog or Y[0].is_catalog:
            if X is Y:
                k = nmt.NmtWorkspace.from_fields(X[0], Y[0], b,
                                                 normalization='FKP')
                c = np.random.RandomState(2).rand(n1*n2, lmax+1)
                ctx.close("fkp", k.decouple_cell(c), b.bin_cell(c)/X[4],
                          rtol=1e-9)
            else:
                ctx.raises("fkp-mixed", lambda: nmt.NmtWorkspace.from_fields(
                    X[0], Y[0], b, normalization='FKP'))
        ctx.evaluated([name], got)
    if case["a"] != case["b"]:
        # same numbers, other order
        g1 = nmt.compute_coupled_cell(A[0], B[0])
        g2 = nmt.compute_coupled_cell(B[0], A[0])
        n1, n2 = len(A[1]), len(B[1])
        ctx.close("order", g2.reshape(n2, n1, -1).transpose(1, 0, 2).reshape(
            n1*n2, -1), g1, rtol=1e-12)


def run_clus(case, ctx):
    import pymaster as nmt
    rng = np.random.RandomState(ctx.seed+case["k"]+90)
    lmax = 5
    for nd, nr in ((1, 1), (1, 3), (3, 2), (4, 6)):
        pd = np.array([POS[i] for i in rng.randint(0, len(POS), nd)])
        pr = np.array([POS[i] for i in rng.randint(0, len(POS), nr)])
        w = weights(case["pat"] % 3, nd, rng)
        wr = weights((case["pat"]+1) % 2, nr, rng)
        al = w.sum()/wr.sum()
        mk = al*ysum(0, pr, lmax).anal(wr[None], 0)
        a = ysum(0, pd, lmax).anal(w[None], 0)-mk
        Nw = al**2*np.sum(wr**2)/(4*np.pi)
        for ll in (0, 1):
            f = nmt.NmtFieldCatalogClustering(
                deg(pd) if ll else pd.T, w, deg(pr) if ll else pr.T, wr,
                lmax, lonlat=bool(ll))
            sc = max(1., np.abs(w).sum())
            ctx.close("clus:alms", f.get_alms(), a, rtol=TOL, scale=sc)
            ctx.close("clus:mask", f.get_mask_alms(), mk[0], rtol=TOL,
                      scale=sc)
            ctx.close("clus:alpha", f.alpha, al, rtol=1e-12)
            ctx.close("clus:Nw", f.Nw, Nw, rtol=1e-10)
            ctx.close("clus:Nf", f.Nf, np.sum(w**2)/(4*np.pi)+Nw, rtol=1e-10)
            ctx.evaluated([nd, nr, ll], a)


def run_mut(case, ctx):
    """Inputs unharmed; reuse gives the same field; refusals."""
    import pymaster as nmt
    rng = np.random.RandomState(ctx.seed)
    for s in (0, 2):
        p = np.array([np.degrees(rng.uniform(0, 6, 6)),
                      np.degrees(rng.uniform(-1, 1, 6))])
        w, v = rng.rand(6), rng.randn(2 if s else 1, 6)
        keep = [x.copy() for x in (p, w, v)]
        f = [nmt.NmtFieldCatalog(p, w, v, 5, spin=s, lonlat=True)
             for _ in range(2)]
        for x, y in zip((p, w, v), keep):
            ctx.close("mutated", x, y, rtol=0)
        ctx.close("again", f[1].get_alms(), f[0].get_alms(), rtol=1e-13)
        ctx.evaluated(s, f[0].get_alms())
    g = np.array([[1., 2.], [3., 4.]])
    one = np.ones(2)
    bad = [
        ("shape", lambda: nmt.NmtFieldCatalog(g[:, :1], one, [one], 5)),
        ("theta", lambda: nmt.NmtFieldCatalog(
            [[1., 3.2], [1., 1.]], one, [one], 5)),
        ("theta", lambda: nmt.NmtFieldCatalog(
            [[1., -.2], [1., 1.]], one, [one], 5)),
        ("phi", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [1., 6.3]], one, [one], 5)),
        ("phi", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [-1e-3, 6.]], one, [one], 5)),
        ("lat", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [-90.1, 6.]], one, [one], 5, lonlat=True)),
        ("lat", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [90.1, 6.]], one, [one], 5, lonlat=True)),
        ("lon", lambda: nmt.NmtFieldCatalog(
            [[361., 1.], [9., 6.]], one, [one], 5, lonlat=True)),
        ("field", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [2., 3.]], one, [one, one, one], 5)),
        ("field", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [2., 3.]], one, [one], 5, spin=2)),
        ("field", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [2., 3.]], one, [one, one], 5, spin=0)),
        ("beam", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [2., 3.]], one, [one], 5, beam=np.ones(5))),
        ("nofield", lambda: nmt.NmtFieldCatalog(
            [[1., 1.], [2., 3.]], one, None, 5)),
        ("rand", lambda: nmt.NmtFieldCatalogClustering(
            [[1., 1.], [2., 3.]], one, [[1., 4.], [1., 1.]], one, 5)),
    ]
    for k, fn in bad:
        ctx.raises("refuse:"+k, fn, exc=ValueError)
        ctx.evaluated(k, k)
    f = nmt.NmtFieldCatalog([[1., 1.], [2., 3.]], one, None, 5, spin=2)
    ctx.raises("refuse:noalms", lambda: nmt.compute_coupled_cell(f, f),
               exc=ValueError)
