"""P30: compatibility of fields, as a relation and as enforced."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the compatibility relation is "
             "computed on all ordered pairs of a finite family of fields and "
             "checked to be an equivalence on all triples; every operation is "
             "executed on every ordered pair (or 4-tuple) and must accept "
             "exactly the combinations of the reference relation")
RULE = ("fields over geometries (HEALPix sizes, rectangular storages, none) x "
        "lmax x lmax_mask x kind (spins, mask only, lite, catalogue, "
        "clustering, anisotropic, templates); operations: is_compatible, "
        "geometry comparison, pseudo-spectra, couplings (MASTER, FKP, TEB) "
        "with every band scheme, biases, one-call estimator with every "
        "workspace, covariances of every 4-tuple and every combination of "
        "workspaces; flat patches likewise. Non-trivial: every combination.")
ASSUMES = ["the values computed for accepted combinations are decided by the "
           "other properties"]
MIN_EVAL = 5000


NF = 27


def cases(tier, seed):
    deep = tier != "quick"
    yield dict(t="relation")
    for i in range(NF):
        yield dict(t="pairs", i=i)
    for i in range(NF if deep else len(COV)):
        for j in range(NF if deep else len(COV)):
            yield dict(t="cov", i=i, j=j, all=deep)
    yield dict(t="gauss")
    for i in range(len(FLAT)):
        yield dict(t="flat", i=i)
        for j in range(len(FLAT)):
            yield dict(t="flatcov", i=i, j=j, deep=deep)
    yield dict(t="flatgauss")


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


_F = {}


def family(seed):
    """name -> (field, model)."""
    if seed in _F:
        return _F[seed]
    import pymaster as nmt
    from nmc import lib as L
    rng = np.random.RandomState(seed+300)
    out = {}

    def add(name, geo, shape, wcs, spin=0, kind="map", lmax=5, lmask=5,
            **kw):
        if np.prod(shape) == 0:
            return
        m = 0.1+rng.rand(*shape)
        d = rng.randn(2 if spin else 1, *shape)
        if kind == "mask":
            d = None
        k = dict(spin=spin, wcs=wcs, lmax=lmax, lmax_mask=lmask, n_iter=0,
                 n_iter_mask=0)
        if kind == "temp":
            k["templates"] = rng.randn(1, *d.shape)
        if kind == "aniso":
            k.update(mask_22=m+0.1, mask_12=0*m)
        if kind == "lite":
            k["lite"] = True
        f = nmt.NmtField(m, d, **k)
        out[name] = (f, dict(geo=geo, lmax=f.ainfo.lmax if lmax is None
                             else lmax, lmask=f.ainfo_mask.lmax
                             if lmask is None else lmask, spin=spin,
                             kind=kind))
    add("h2a", "h2", (48,), None)
    add("h2b", "h2", (48,), None, spin=2)
    add("h2mask", "h2", (48,), None, kind="mask")
    add("h2lite", "h2", (48,), None, kind="lite")
    add("h2temp", "h2", (48,), None, kind="temp")
    add("h2aniso", "h2", (48,), None, spin=2, kind="aniso")
    add("h2m4", "h2", (48,), None, lmask=4)
    add("h2l4", "h2", (48,), None, lmax=4)
    add("h2m7", "h2", (48,), None, spin=2, lmask=7)
    add("h4", "h4", (192,), None)
    add("h4s1", "h4", (192,), None, spin=1)
    add("h4d", "h4", (192,), None, lmax=11, lmask=11)
    # rectangular: one geometry in three storages
    for i, (ds, rs, ra) in enumerate(((-1, 1, 180.), (1, -1, 180.),
                                      (1, 1, 150.))):
        w, sh = L.car_wcs(8, 12, ds, rs, ra0=ra)
        add("c%d" % i, "c", sh, w, spin=2 if i == 1 else 0,
            kind="temp" if i == 2 else "map")
    # same shape, other azimuths / other colatitudes / other pixels
    w, sh = L.car_wcs(8, 12, ra0=195., phi_start=15.)
    add("cphi", "cphi", sh, w)
    w, sh = L.car_wcs(8, 12, ra0=180., ny=6)
    add("cnorth", "cnorth", sh, w)
    w, sh = L.car_wcs(8, 12, ra0=180., theta0=2, ny=6)
    add("csouth", "csouth", sh, w)
    w, sh = L.car_wcs(8, 12, ra0=180., theta0=2, ny=6, nx=9)
    add("c54", "c54", sh, w)
    w, sh = L.car_wcs(9, 12, ra0=180., theta0=2, ny=6, nx=9)
    add("c54b", "c54b", sh, w)
    w, sh = L.car_wcs(12, 18, ra0=180., theta0=2, ny=9, nx=6)
    add("c54t", "c54t", sh, w)
    w, sh = L.car_wcs(8, 6, ra0=150., ny=8)      # 48 pixels, as HEALPix 2
    add("c48", "c48", sh, w)
    th, ph = np.arccos(rng.uniform(-1, 1, 30)), rng.uniform(0, 6, 30)
    for name, lmask, spin in (("cat", 5, 0), ("cat2", 5, 2), ("cat7", 7, 0)):
        f = nmt.NmtFieldCatalog([th, ph], 1+rng.rand(30), rng.randn(
            2 if spin else 1, 30), 5, lmax_mask=lmask, spin=spin)
        out[name] = (f, dict(geo=None, lmax=5, lmask=lmask, spin=spin,
                             kind="cat"))
    f = nmt.NmtFieldCatalogClustering([th[:9], ph[:9]], np.ones(9),
                                      [th, ph], np.ones(30), 5)
    out["clus"] = (f, dict(geo=None, lmax=5, lmask=5, spin=0, kind="clus"))
    assert len(out) <= NF, len(out)
    _F[seed] = out
    return out


def hkey(m):
    return (m["lmax"], m["lmask"])


def skey(m):
    return (m["geo"], m["lmax"], m["lmask"])


def accepts(ctx, key, fn, want, detail):
    """fn raises an Exception exactly when want is False."""
    try:
        r = fn()
        got, e = True, None
    except Exception as x:
        got, e, r = False, x, None
    ctx.check(got == want, key, "%s: %s (%r)" % (
        detail, "accepted" if got else "refused", e))
    ctx.evaluated([key, detail], want)
    return r


def run_relation(case, ctx):
    import pymaster as nmt
    F = family(ctx.seed)
    N = list(F)
    for strict, key in ((True, skey), (False, hkey)):
        R = {}
        for a, b in itertools.product(N, N):
            r = F[a][0].is_compatible(F[b][0], strict=strict)
            R[a, b] = r
            ctx.check(r is True or r is False, "type", str((a, b, r)))
            ctx.check(r == (key(F[a][1]) == key(F[b][1])), "relation",
                      "%s %s strict=%s: %s" % (a, b, strict, r))
            if strict:
                ctx.check(F[a][0].is_compatible(F[b][0]) == r, "default",
                          str((a, b)))
                if r:
                    ctx.check(F[a][0].is_compatible(F[b][0], strict=False),
                              "strict implies loose", str((a, b)))
            ctx.evaluated([strict, a, b], r)
        for a in N:
            ctx.check(R[a, a], "reflexive", a)
        for a, b, c in itertools.product(N, N, N):
            if R[a, b]:
                ctx.check(R[b, a], "symmetric", str((a, b)))
                if R[b, c]:
                    ctx.check(R[a, c], "transitive", str((a, b, c)))
    for a, b in itertools.product(N, N):
        x, y = F[a][0].minfo, F[b][0].minfo
        e = F[a][1]["geo"] == F[b][1]["geo"]
        if x is None or y is None:
            e = x is y
        ctx.check((x == y) == e and (x != y) == (not e), "geometry",
                  str((a, b)))
        p, q = F[a][0].ainfo, F[b][0].ainfo_mask
        e = p.lmax == q.lmax
        ctx.check((p == q) == e and (p != q) == (not e), "alm info",
                  str((a, b)))
    for a in N:
        for o in (None, 3, "x", F[a][0].ainfo):
            if F[a][0].minfo is not None:
                ctx.check((F[a][0].minfo == o) is False, "geometry other", a)
        for o in (None, 3, "x", F[a][0].minfo):
            ctx.check((F[a][0].ainfo == o) is False, "alm info other", a)
    # default maximum multipoles define the limits
    f = nmt.NmtField(np.ones(48), np.ones((1, 48)))
    ctx.check(f.ainfo.lmax == 5 and f.ainfo_mask.lmax == 5, "default lmax")
    g = nmt.NmtField(np.ones(48), np.ones((1, 48)), lmax=4)
    ctx.check(g.ainfo.lmax == 4 and g.ainfo_mask.lmax == 5, "default lmax 2",
              str((g.ainfo.lmax, g.ainfo_mask.lmax)))


_W = {}


def bins(lmax):
    from nmc import lib as L
    if lmax not in _W:
        _W[lmax] = L.Scheme(lmax, np.where(np.arange(lmax+1) < 2, -1,
                                           (np.arange(lmax+1)-2)//2)).nmt
    return _W[lmax]


def run_pairs(case, ctx):
    import pymaster as nmt
    F = family(ctx.seed)
    N = list(F)
    if case["i"] >= len(N):
        return
    a = N[case["i"]]
    fa, ma = F[a]
    wsp = {}
    for L_ in (4, 5, 11):
        m = np.ones(192)
        for n, s in ((1, (0, 0)), (2, (0, 2)), (4, (2, 2))):
            f = [nmt.NmtField(m, None, spin=x, lmax=L_, lmax_mask=L_)
                 for x in s]
            wsp[n, L_] = nmt.NmtWorkspace.from_fields(*f, bins(L_))
    for b in N:
        fb, mb = F[b]
        nm = a+","+b
        loose, strict = hkey(ma) == hkey(mb), skey(ma) == skey(mb)
        maps = "mask" not in (ma["kind"], mb["kind"])
        r = accepts(ctx, "coupled", lambda: nmt.compute_coupled_cell(fa, fb),
                    loose and maps, nm)
        nc = (2 if ma["spin"] else 1)*(2 if mb["spin"] else 1)
        if r is not None:
            ctx.check(r.shape == (nc, ma["lmax"]+1), "shape", nm)
        full = set("cat clus lite mask".split()).isdisjoint(
            (ma["kind"], mb["kind"])) and strict
        aniso = "aniso" in (ma["kind"], mb["kind"])
        cg = np.ones((nc, ma["lmax"]+1))
        bl = strict and not ({"cat", "clus", "lite"} &
                             {ma["kind"], mb["kind"]}) and maps
        if maps:    # without maps a bias is of no consequence
            accepts(ctx, "bias", lambda: nmt.deprojection_bias(fa, fb, cg),
                    bl, nm)
        cat = {"cat", "clus"} & {ma["kind"], mb["kind"]}
        for L_ in (4, 5, 11):
            ok = loose and ma["lmax"] == L_
            w = accepts(ctx, "mcm", lambda: nmt.NmtWorkspace.from_fields(
                fa, fb, bins(L_)), ok, nm+" %d" % L_)
            if w is not None:
                for K in (4, 5, 11):
                    accepts(ctx, "decouple", lambda: w.decouple_cell(
                        np.ones((nc, K+1))), K >= L_, nm+" %d" % K)
                    accepts(ctx, "couple", lambda: w.couple_cell(
                        np.ones((nc, K+1))), K >= L_, nm+" %d" % K)
            teb = ok and ma["spin"] == 0 and mb["spin"] != 0 and not aniso
            accepts(ctx, "teb", lambda: nmt.NmtWorkspace.from_fields(
                fa, fb, bins(L_), is_teb=True), teb, nm+" %d" % L_)
            fkp = ok and (a == b if cat else strict)
            accepts(ctx, "fkp", lambda: nmt.NmtWorkspace.from_fields(
                fa, fb, bins(L_), normalization="FKP"), fkp, nm+" %d" % L_)
            accepts(ctx, "full", lambda: nmt.compute_full_master(
                fa, fb, bins(L_)), full and ma["lmax"] == L_,
                nm+" %d" % L_)
            accepts(ctx, "full fkp", lambda: nmt.compute_full_master(
                fa, fb, bins(L_), normalization="FKP"),
                full and ma["lmax"] == L_, nm+" %d" % L_)
            for n in (1, 2, 4):
                accepts(ctx, "full wsp", lambda: nmt.compute_full_master(
                    fa, fb, workspace=wsp[n, L_]),
                    full and ma["lmax"] >= L_ and n == nc,
                    nm+" %d %d" % (n, L_))


COV = ["h2a", "h2b", "h2mask", "h2lite", "h2m4", "h2l4", "h4", "c0", "c1",
       "cphi", "cat", "h2aniso"]


def run_cov(case, ctx):
    import pymaster as nmt
    F = family(ctx.seed)
    N = list(F) if case["all"] else COV
    if max(case["i"], case["j"]) >= len(N):
        return
    a1, a2 = N[case["i"]], N[case["j"]]
    for b1, b2 in itertools.product(N, N):
        q = [a1, a2, b1, b2]
        ms = [F[x][1] for x in q]
        ok = len({skey(m) for m in ms}) == 1 and not (
            {"cat", "clus", "aniso"} & {m["kind"] for m in ms})
        accepts(ctx, "covariance",
                lambda: nmt.NmtCovarianceWorkspace.from_fields(
                    *[F[x][0] for x in q]), ok, ",".join(q))
    # omitted pair: the first one
    ms = [F[x][1] for x in (a1, a2)]
    ok = len({skey(m) for m in ms}) == 1 and not (
        {"cat", "clus", "aniso"} & {m["kind"] for m in ms})
    accepts(ctx, "covariance2",
            lambda: nmt.NmtCovarianceWorkspace.from_fields(
                F[a1][0], F[a2][0]), ok, a1+","+a2)


def run_gauss(case, ctx):
    """Coefficients and workspaces of every maximum multipole."""
    import pymaster as nmt
    m = 0.5+np.random.RandomState(ctx.seed).rand(192)
    Ls = (4, 5, 7)
    sp = ((0, 0), (0, 2), (2, 0), (2, 2))
    cw = {}
    w = {}
    for L_ in Ls:
        f = {s: nmt.NmtField(m, None, spin=s, lmax=L_, lmax_mask=8)
             for s in (0, 2)}
        cw[L_, 0] = nmt.NmtCovarianceWorkspace.from_fields(*[f[0]]*4)
        cw[L_, 1] = nmt.NmtCovarianceWorkspace.from_fields(
            *[f[0]]*4, spin0_only=True)
        for s in sp:
            w[L_, s] = nmt.NmtWorkspace.from_fields(f[s[0]], f[s[1]],
                                                    bins(L_))
    n = {0: 1, 2: 2}
    for Lc, Lx in itertools.product(Ls, Ls):
        for sa, sb in itertools.product(sp, sp):
            c = [np.ones((n[x]*n[y], Lx+1)) for x in sa for y in sb]
            for La, Lb, z in itertools.product(Ls, Ls, (0, 1)):
                for wa, wb in ((sa, sb), (sb, sa)):
                    match = n[wa[0]]*n[wa[1]] == n[sa[0]]*n[sa[1]] and \
                        n[wb[0]]*n[wb[1]] == n[sb[0]]*n[sb[1]]
                    if match and (wa, wb) != (sa, sb):
                        continue        # same sizes: cannot be told apart
                    ok = Lx >= Lc and Lc >= max(La, Lb) and match and not (
                        z and (any(sa) or any(sb)))
                    for cp in (False, True):
                        accepts(ctx, "gaussian",
                                lambda: nmt.gaussian_covariance(
                                    cw[Lc, z], *sa, *sb, *c, w[La, wa],
                                    w[Lb, wb], coupled=cp), ok,
                                str((Lc, Lx, La, Lb, sa, sb, wa, wb, z, cp)))


#        nx ny lx ly
FLAT = [(6, 5, 0.3, 0.2), (5, 6, 0.3, 0.2), (6, 5, 0.2, 0.3),
        (6, 5, 0.3, 0.3), (10, 3, 0.3, 0.2), (6, 6, 0.3, 0.2),
        (6, 5, 0.3, 0.2000001)]


def fbins(k):
    import pymaster as nmt
    return [nmt.NmtBinFlat([5., 30.], [30., 70.]),
            nmt.NmtBinFlat([5., 30., 50.], [30., 50., 70.]),
            nmt.NmtBinFlat([5., 31.], [31., 70.])][k]


def ffield(i, spin, seed, lite=False, temp=False, mask=False):
    import pymaster as nmt
    nx, ny, lx, ly = FLAT[i]
    rng = np.random.RandomState(seed+i+spin)
    d = rng.randn(2 if spin else 1, ny, nx)
    return nmt.NmtFieldFlat(lx, ly, 0.1+rng.rand(ny, nx), None if mask else d,
                            spin=spin, lite=lite, templates=[
                                rng.randn(*d.shape)] if temp else None)


def run_flat(case, ctx):
    import pymaster as nmt
    i = case["i"]
    B = [fbins(k) for k in range(3)]
    kinds = [("s0", 0, {}), ("s2", 2, {}), ("t", 2, dict(temp=True)),
             ("lite", 0, dict(lite=True)), ("mask", 0, dict(mask=True))]
    ell = np.array([0., 50., 200.])
    wsp = {}
    for j in range(len(FLAT)):
        f = {s: ffield(j, s, 0) for s in (0, 2)}
        for s in itertools.product((0, 2), repeat=2):
            for k in range(3):
                w = nmt.NmtWorkspaceFlat()
                w.compute_coupling_matrix(f[s[0]], f[s[1]], B[k])
                wsp[j, s, k] = w
    for (na, sa, ka), j, (nb, sb, kb) in itertools.product(
            kinds, range(len(FLAT)), kinds):
        fa, fb = ffield(i, sa, ctx.seed, **ka), ffield(j, sb, ctx.seed+9,
                                                       **kb)
        nm = "%s %d %s %d" % (na, i, nb, j)
        same = i == j
        nc = (2 if sa else 1)*(2 if sb else 1)
        maps = "mask" not in (na, nb)
        lite = "lite" in (na, nb)
        accepts(ctx, "flat coupled", lambda: nmt.compute_coupled_cell_flat(
            fa, fb, B[0]), same and maps, nm)
        w = nmt.NmtWorkspaceFlat()
        accepts(ctx, "flat mcm", lambda: w.compute_coupling_matrix(
            fa, fb, B[0]), same, nm)
        w2 = nmt.NmtWorkspaceFlat()
        accepts(ctx, "flat teb", lambda: w2.compute_coupling_matrix(
            fa, fb, B[0], is_teb=True), same and sa == 0 and sb != 0, nm)
        cg = np.ones((nc, 3))
        accepts(ctx, "flat bias", lambda: nmt.deprojection_bias_flat(
            fa, fb, B[0], ell, cg), same and not lite and maps, nm)
        accepts(ctx, "flat full", lambda: nmt.compute_full_master_flat(
            fa, fb, B[0]), same and maps and not lite, nm)
        for jw, k, n in itertools.product(range(len(FLAT)), range(3),
                                          ((0, 0), (0, 2), (2, 2))):
            if (1+(n[0] > 0))*(1+(n[1] > 0)) != nc:
                continue
            accepts(ctx, "flat full wsp", lambda:
                    nmt.compute_full_master_flat(
                        fa, fb, B[0], workspace=wsp[jw, n, k]),
                    same and maps and not lite and jw == i and k == 0,
                    nm+" wsp %d %d" % (jw, k))


def run_flatcov(case, ctx):
    import pymaster as nmt
    B = [fbins(k) for k in range(3)]
    f = [ffield(i, 0, ctx.seed) for i in range(len(FLAT))]
    i, j = case["i"], case["j"]
    for k, l in itertools.product(range(len(FLAT)), repeat=2):
        for b1, b2 in itertools.product(range(3), repeat=2):
            if b1 and not (i == j == k == l):
                continue
            cw = nmt.NmtCovarianceWorkspaceFlat()
            accepts(ctx, "flat covariance",
                    lambda: cw.compute_coupling_coefficients(
                        f[i], f[j], B[b1], f[k], f[l], B[b2]),
                    i == j == k == l and b1 == b2,
                    str((i, j, k, l, b1, b2)))


def run_flatgauss(case, ctx):
    import pymaster as nmt
    B = [fbins(k) for k in range(3)]
    n = {0: 1, 2: 2}
    ell = np.array([0., 50., 200.])
    w, cw = {}, {}
    sp = ((0, 0), (0, 2), (2, 2))
    for k in range(3):
        f = {s: ffield(0, s, 0) for s in (0, 2)}
        for s in sp:
            x = w[k, s] = nmt.NmtWorkspaceFlat()
            x.compute_coupling_matrix(f[s[0]], f[s[1]], B[k])
        c = cw[k] = nmt.NmtCovarianceWorkspaceFlat()
        c.compute_coupling_coefficients(f[0], f[0], B[k])
    for kc, ka, kb in itertools.product(range(3), repeat=3):
        for sa, sb, wa, wb in itertools.product(sp, repeat=4):
            c = [np.ones((n[x]*n[y], 3)) for x in sa for y in sb]
            ok = kc == ka == kb and sa == wa and sb == wb
            accepts(ctx, "flat gaussian", lambda:
                    nmt.gaussian_covariance_flat(
                        cw[kc], *sa, *sb, ell, *c, w[ka, wa], w[kb, wb]),
                    ok, str((kc, ka, kb, sa, sb, wa, wb)))
