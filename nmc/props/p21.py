"""P21: inputs are never modified, results never aliased."""
import copy
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration of call histories on the real code: "
             "every public call with every array argument in every memory "
             "layout and type, alone and in pairs, followed by changes of the "
             "arguments and of the results; all ordered pairs and triples of "
             "operations on shared objects, with the complete observable "
             "state of all objects compared after each step")
RULE = ("calls: (call, argument, variant) and (call, two arguments, two "
        "variants): variants Fortran order, transposed, negative strides, "
        "strided, read-only, big-endian, unaligned, ndarray subclass, "
        "zero-stride, float32, integer, boolean, lists, tuples, long double. "
        "ops: all histories up to the depth over the operations of a "
        "universe of objects with results overwritten after each. "
        "big: the calls with larger arrays. "
        "Non-trivial: the argument was accepted / the operation returned "
        "numbers.")
ASSUMES = ["accessors documented to return the object's own arrays "
           "(NmtField.get_mask/get_maps/get_alms/get_templates/"
           "get_mask_alms/get_anisotropic_mask*) may alias the object",
           "the canonical results are checked by the other properties"]
MIN_EVAL = 1500

STRICT = ["F", "T", "neg", "strided", "ro", "be", "unal", "sub", "zero"]
LOOSE = ["f4", "int", "bool", "list", "tuple", "ld"]
# what the documentation asks for where a plain conversion is not promised
REFUSE_OK = set(LOOSE)
BIG = ["C", "F", "strided", "sub", "list"]


# a low-level wrapper of the transform library, which converts nothing
NATIVE_ONLY = ("alm2map",)


class Sub(np.ndarray):
    pass


def variant(a, v):
    """(argument in that layout, array whose bytes must not change)."""
    a = np.array(a)
    if v == "C":
        x = a.copy()
        return x, x
    if v == "F":
        x = np.asfortranarray(a)
        return x, x
    if v == "T":
        base = np.ascontiguousarray(a.T)
        return base.T, base
    if v == "neg":
        sl = (slice(None, None, -1),)*a.ndim
        base = np.ascontiguousarray(a[sl])
        return base[sl], base
    if v == "strided":
        base = np.full([2*n+1 for n in a.shape], 99, dtype=a.dtype)
        sl = tuple(slice(1, 2*n+1, 2) for n in a.shape)
        base[sl] = a
        return base[sl], base
    if v == "ro":
        x = a.copy()
        x.flags.writeable = False
        return x, x
    if v == "be":
        x = a.astype(a.dtype.newbyteorder(">"))
        return x, x
    if v == "unal":
        raw = np.zeros(a.nbytes+1, dtype=np.uint8)
        x = raw[1:].view(a.dtype).reshape(a.shape)
        x[...] = a
        return x, raw
    if v == "sub":
        x = a.copy().view(Sub)
        return x, x
    if v == "zero":  # the same memory seen several times along axis 0
        base = np.ascontiguousarray(a[0])
        return np.broadcast_to(base, a.shape), base
    if v == "f4":
        x = a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)
        return x, x
    if v == "ld":
        x = a.astype(np.clongdouble if np.iscomplexobj(a) else np.longdouble)
        return x, x
    if v == "int":
        x = a.astype(np.int64)
        return x, x
    if v == "bool":
        x = a.astype(bool)
        return x, x
    if v == "list":
        x = a.tolist()
        return x, x
    x = tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist())
    return x, x


def values(a, v):
    """Values the variant can represent, in the canonical type."""
    if v == "int":
        return np.ceil(3*a.real).astype(a.dtype)
    if v == "bool":
        return (a.real > np.mean(a.real)).astype(a.dtype)
    if v == "zero":
        return np.array(np.broadcast_to(a[0], a.shape))
    if v == "f4":
        return a.astype(np.complex64 if np.iscomplexobj(a) else
                        np.float32).astype(a.dtype)
    return a


def snapshot(x):
    if isinstance(x, np.ndarray):
        return (x.tobytes(), x.dtype.str, x.shape, x.strides, str(x.flags))
    return copy.deepcopy(x)


def overwrite(arg, base):
    """The caller reuses the memory of the argument afterwards."""
    if isinstance(base, np.ndarray):
        base.flags.writeable = True
        if base.dtype == bool:
            base[...] = ~base
        else:
            base[...] = 37
    elif isinstance(base, list):
        def rec(l):
            for i, y in enumerate(l):
                if isinstance(y, list):
                    rec(y)
                else:
                    l[i] = 37.
        rec(base)


def applicable(a, v, kind):
    if v in ("F", "T"):
        return a.ndim > 1
    if v == "zero":
        return a.ndim > 1 or kind == "const"
    if kind == "i":
        return v not in ("f4", "bool", "ld", "int")
    return True


# ---------------------------------------------------------------------------
# calls: name -> (arrays, build(arrays) -> object, observe(object) -> list)

SEED = [1]


def setup_worker(tier, seed):
    SEED[0] = seed


def R(seed, *shape):
    return np.round(np.random.RandomState(seed+1000*SEED[0]).rand(*shape)*64+1)/64


def curved_obs(f, fixed):
    """Everything a caller can get out of a field, by value."""
    import pymaster as nmt
    out = [np.array(f.beam, dtype=float), np.array(f.get_mask_alms()),
           nmt.compute_coupled_cell(f, f)]
    for g in ("get_mask", "get_maps", "get_templates",
              "get_anisotropic_mask", "get_anisotropic_mask_alms",
              "get_alms"):
        try:
            out.append(np.array(getattr(f, g)()))
        except Exception:
            pass
    b = fixed["bins"](f.ainfo.lmax)
    w = nmt.NmtWorkspace.from_fields(f, f, b)
    out += [w.get_coupling_matrix()]
    if f.temp is not None:
        out += [nmt.deprojection_bias(f, f, np.ones(out[2].shape))]
    try:
        out += [nmt.uncorr_noise_deprojection_bias(f, 1+f.get_mask())]
    except Exception:
        pass
    out += [np.array([f.Nw, f.Nf])]
    return out


def flat_obs(f):
    import pymaster as nmt
    b = nmt.NmtBinFlat(np.array([0., 12., 25.]), np.array([12., 25., 60.]))
    l = np.arange(80.)
    out = [f.get_mask(), f.get_ell_sampling()]
    try:
        out += [f.get_maps(), f.get_templates()]
        out += [nmt.deprojection_bias_flat(
            f, f, b, l, np.ones([f.fl.nmaps**2, 80]))]
    except Exception:
        pass
    if not f.fl.lite or hasattr(f, "_has"):
        out += [nmt.compute_coupled_cell_flat(f, f, b)]
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(f, f, b)
    out += [w.couple_cell(l, np.ones([f.fl.nmaps**2, 80]))]
    return out


def ident(x):
    return x if isinstance(x, (list, tuple)) else [x]


def calls(big=False):
    """Table of public calls: name -> (arrays, kinds, build, observe)."""
    import pymaster as nmt
    from nmc import lib as L
    LM, ns = (26, 16) if big else (5, 2)
    hs = (12*ns**2,)
    NC = 400 if big else 12
    NE = 300 if big else 6
    z = 5 if big else 1
    fixed = dict(bins=lambda l: L.Scheme(l, np.where(
        np.arange(l+1) < 2, -1, (np.arange(l+1)-2)//2)).nmt)

    def binobs(b):
        return [b.get_effective_ells(), b.get_nell_list(),
                b.bin_cell(np.arange(b.lmax+1.)[None]+1),
                b.unbin_cell(np.arange(1.+b.get_n_bands())[1:])] + [
                    g(i) for i in range(b.get_n_bands())
                    for g in (b.get_ell_list, b.get_weight_list)]

    def bflat(b):
        return [b.get_effective_ells(),
                b.bin_cell(np.arange(60.), np.arange(60.)),
                b.unbin_cell(np.arange(1.+b.get_n_bands())[1:],
                             np.arange(60.))]

    geom = dict(ra0=100., theta0=1, ny=6*z, nx=10*z, phi_start=20.)
    car, shp = L.car_wcs(8*z, 14*z, -1, 1, **geom)
    car2, shp2 = L.car_wcs(8*z, 14*z, 1, -1, **geom)
    carf, shpf = L.car_wcs(8*z, 14*z, 1, -1, ra0=180.)
    C = {}
    ell = np.arange(2, NE+2)
    C["NmtBin"] = (dict(bpws=(ell-2)//2, ells=ell, weights=R(1, NE),
                        f_ell=R(2, NE)), dict(bpws="i", ells="i"),
                   lambda **a: nmt.NmtBin(lmax=NE+1, **a), binobs)
    C["from_edges"] = (dict(ell_ini=np.array([2, 4, 7]),
                            ell_end=np.array([4, 7, 9]), f_ell=R(2, 7)),
                       dict(ell_ini="i", ell_end="i"),
                       lambda **a: nmt.NmtBin.from_edges(**a), binobs)
    C["from_lmax_linear"] = (dict(f_ell=R(2, NE+3)), {},
                             lambda f_ell: nmt.NmtBin.from_lmax_linear(
                                 NE+2, 2, f_ell=f_ell), binobs)
    C["from_nside_linear"] = (dict(f_ell=R(2, 3*ns)), {},
                              lambda f_ell: nmt.NmtBin.from_nside_linear(
                                  ns, 2, f_ell=f_ell), binobs)
    C["NmtBinFlat"] = (dict(l0=np.array([2., 9.5, 20.]),
                            lf=np.array([9.5, 20., 50.])), {},
                       lambda **a: nmt.NmtBinFlat(**a), bflat)
    sch = fixed["bins"](LM)
    nb = sch.get_n_bands()
    for d in (1, 2):
        sh = lambda n: (n,) if d == 1 else (3, n)
        C["bin_cell%d" % d] = (dict(c=R(3, *sh(LM+1))), {},
                               lambda c: sch.bin_cell(c), ident)
        C["unbin_cell%d" % d] = (dict(c=R(3, *sh(nb))), {},
                                 lambda c: sch.unbin_cell(c), ident)
        bs = nmt.NmtBinFlat(np.array([2., 9.5]), np.array([9.5, 20.]))
        C["flat_bin%d" % d] = (dict(l=np.arange(30.), c=R(3, *sh(30))), {},
                               lambda l, c: bs.bin_cell(l, c), ident)
        C["flat_unbin%d" % d] = (dict(c=R(3, *sh(2)), l=np.arange(30.)), {},
                                 lambda c, l: bs.unbin_cell(c, l), ident)

    fobs = lambda f: curved_obs(f, fixed)
    for geo, sh, kw in (("hp", hs, {}), ("car", shp, dict(wcs=car)),
                        ("car2", shp2, dict(wcs=car2))):
        kw = dict(kw, lmax=LM, lmax_mask=LM, n_iter=1, n_iter_mask=1)

        def fld(kw=kw, **fix):
            k2 = dict(kw, **fix)
            return lambda **a: nmt.NmtField(
                a.pop("mask"), a.pop("maps", None), **dict(a, **k2))
        base = dict(mask=R(5, *sh))
        one = dict(base, maps=R(6, 1, *sh), beam=R(7, LM+2),
                   templates=R(8, 2, 1, *sh))
        two = dict(base, maps=R(9, 2, *sh), beam=R(7, LM+1),
                   templates=R(10, 2, 2, *sh))
        kd = dict(beam="const")
        C["Field0-"+geo] = (one, kd, fld(), fobs)
        C["Field0in-"+geo] = (one, kd, fld(masked_on_input=True), fobs)
        C["Field0lite-"+geo] = (one, kd, fld(lite=True), fobs)
        C["Field2-"+geo] = (two, kd, fld(), fobs)
        C["Field2in-"+geo] = (two, kd, fld(masked_on_input=True), fobs)
        C["Field2B-"+geo] = (two, kd, fld(purify_b=True), fobs)
        C["Field2Bin-"+geo] = (two, kd, fld(purify_b=True, purify_e=True,
                                            masked_on_input=True), fobs)
        C["Field2none-"+geo] = (dict(base, maps=R(9, 2, *sh)), {},
                                fld(), fobs)
        C["Field2m-"+geo] = (dict(base, maps=R(9, 2, *sh)), {},
                             fld(masked_on_input=True), fobs)
        C["FieldA-"+geo] = (dict(base, maps=R(9, 2, *sh), beam=R(7, LM+1),
                                 mask_22=1+R(11, *sh),
                                 mask_12=0.1*R(12, *sh)), kd, fld(), fobs)
        C["FieldM-"+geo] = (dict(base, beam=R(7, LM+1)), kd,
                            lambda kw=kw, **a: nmt.NmtField(
                                a["mask"], None, beam=a["beam"], spin=2,
                                **kw),
                            lambda f: [np.array(f.beam), np.array(
                                f.get_mask()), np.array(f.get_mask_alms()),
                                nmt.NmtWorkspace.from_fields(
                                    f, f, sch).get_coupling_matrix()])
    pos = np.array([R(21, NC)*2.9, R(22, NC)*6.])
    posd = np.array([R(21, NC)*300, R(22, NC)*80])
    for ll in (False, True):
        p = posd if ll else pos
        for s in (1, 2):
            C["Catalog%d%d" % (s, ll)] = (
                dict(positions=p, weights=R(23, NC), field=R(24, s, NC),
                     beam=R(25, LM+1)), {},
                lambda ll=ll, **a: nmt.NmtFieldCatalog(
                    a["positions"], a["weights"], a["field"], LM,
                    beam=a["beam"], lonlat=ll), fobs)
        C["Clustering%d" % ll] = (
            dict(positions=p, weights=R(23, NC), positions_rand=p[:, ::-1],
                 weights_rand=R(26, NC)), {},
            lambda ll=ll, **a: nmt.NmtFieldCatalogClustering(
                a["positions"], a["weights"], a["positions_rand"],
                a["weights_rand"], LM, lonlat=ll), fobs)
    # flat fields
    ny, nx = 6*z, 8*z
    fb = np.array([np.arange(90.), R(31, 90)])
    for nm, n, fix in (("0", 1, {}), ("0in", 1, dict(masked_on_input=True)),
                       ("2", 2, {}), ("2B", 2, dict(purify_b=True)),
                       ("2Bin", 2, dict(purify_b=True, purify_e=True,
                                        masked_on_input=True)),
                       ("0l", 1, dict(lite=True))):
        C["FieldFlat"+nm] = (
            dict(mask=R(32, ny, nx), maps=R(33, n, ny, nx), beam=fb,
                 templates=R(34, 2, n, ny, nx)), {},
            lambda fix=fix, **a: nmt.NmtFieldFlat(
                0.5, 0.4, a["mask"], a["maps"], templates=a["templates"],
                beam=a["beam"], **fix), flat_obs)
    C["FieldFlatM"] = (dict(mask=R(32, ny, nx), beam=fb), {},
                       lambda mask, beam: nmt.NmtFieldFlat(
                           0.5, 0.4, mask, None, spin=2, beam=beam),
                       flat_obs)
    # workspaces
    m1, m2 = R(41, *hs), R(42, *hs)
    kw = dict(lmax=LM, lmax_mask=LM, n_iter=0, n_iter_mask=0)
    f0 = nmt.NmtField(m1, R(43, 1, *hs), templates=R(44, 1, 1, *hs), **kw)
    f2 = nmt.NmtField(m2, R(45, 2, *hs), templates=R(46, 1, 2, *hs), **kw)
    f2b = nmt.NmtField(m2, R(45, 2, *hs), templates=R(46, 1, 2, *hs),
                       purify_b=True, **kw)
    W = lambda: nmt.NmtWorkspace.from_fields(f0, f2, sch)
    wobs = lambda w: [w.get_coupling_matrix(), w.get_bandpower_windows(),
                      w.couple_cell(np.ones([2, LM+1])),
                      w.decouple_cell(np.ones([2, LM+1]))]
    ran = 0.3*R(47, 2*(LM+1), 2*(LM+1))+np.eye(2*(LM+1))

    def upd(fn):
        def g(**a):
            w = W()
            fn(w, **a)
            return w
        return g
    C["update_beams"] = (dict(beam1=R(48, LM+1), beam2=R(49, LM+3)),
                         dict(beam1="const", beam2="const"),
                         upd(lambda w, beam1, beam2: w.update_beams(
                             beam1, beam2)), wobs)
    C["update_mcm"] = (dict(m=ran), {},
                       upd(lambda w, m: w.update_coupling_matrix(m)),
                       lambda w: wobs(w)[:3])
    w0 = W()
    n = (2, LM+1)
    C["couple"] = (dict(c=R(51, *n)), {}, lambda c: w0.couple_cell(c), ident)
    C["couple-long"] = (dict(c=R(51, 2, LM+4)), {},
                        lambda c: w0.couple_cell(c), ident)
    C["decouple"] = (dict(c=R(51, *n), b=R(52, *n), n=R(53, *n)), {},
                     lambda c, b, n: w0.decouple_cell(c, b, n), ident)
    C["decouple-long"] = (dict(c=R(51, 2, LM+3), b=R(52, 2, LM+2),
                               n=R(53, 2, LM+4)),
                          {}, lambda c, b, n: w0.decouple_cell(c, b, n),
                          ident)
    for nm, a, b in (("00", f0, f0), ("02", f0, f2), ("22B", f2, f2b),
                     ("2B2B", f2b, f2b)):
        k = a.nmaps*b.nmaps
        C["depro"+nm] = (dict(g=R(54, k, LM+1)), {},
                         lambda g, a=a, b=b: nmt.deprojection_bias(a, b, g),
                         ident)
        C["full"+nm] = (dict(noise=R(55, k, LM+1), guess=R(56, k, LM+1)), {},
                        lambda noise, guess, a=a, b=b:
                        nmt.compute_full_master(
                            a, b, sch, cl_noise=noise, cl_guess=guess),
                        ident)
    for nm, a in (("0", f0), ("2", f2), ("2B", f2b)):
        C["noise"+nm] = (dict(v=R(57, *hs)), {}, lambda v, a=a:
                         nmt.uncorr_noise_deprojection_bias(a, v), ident)
    # the same on rectangular maps, with both orders of the axes
    for geo, sh, wc in (("car", shp, car), ("car2", shp2, car2)):
        kc = dict(wcs=wc, **kw)
        fc = nmt.NmtField(R(58, *sh), R(59, 2, *sh),
                          templates=R(60, 1, 2, *sh), **kc)
        C["noise-"+geo] = (dict(v=R(57, *sh)), {}, lambda v, fc=fc:
                           nmt.uncorr_noise_deprojection_bias(fc, v), ident)
        mi = nmt.NmtMapInfo(wc, sh)
        C["reform-"+geo] = (
            dict(m=R(61, 2, *sh)), {},
            lambda m, mi=mi: np.array(mi.reform_map(m)), ident)
    mi = nmt.NmtMapInfo(None, hs)
    ai = nmt.NmtAlmInfo(LM)
    C["reform"] = (dict(m=R(61, 2, *hs)), {},
                   lambda m: np.array(mi.reform_map(m)), ident)
    for it in (0, 2):
        C["map2alm%d" % it] = (
            dict(m=R(62, 2, *hs)), {}, lambda m, it=it:
            nmt.utils.map2alm(m, 2, mi, ai, n_iter=it), ident)
    C["alm2map"] = (dict(a=R(63, 2, ai.nelem)+1j*R(64, 2, ai.nelem)), dict(a="z"),
                    lambda a: nmt.utils.alm2map(a, 2, mi, ai), ident)
    # flat workspaces and estimators
    bf = nmt.NmtBinFlat(np.array([0., 12., 25.]), np.array([12., 25., 60.]))
    ff = nmt.NmtFieldFlat(0.5, 0.4, R(71, ny, nx), R(72, 2, ny, nx),
                          templates=R(73, 1, 2, ny, nx))
    lf = np.arange(90.)
    cx, cy = np.array([5., 11.]), np.array([30., 40.])

    def wflat(x, y):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(ff, ff, bf, x, y)
        return w
    wfo = lambda w: [w.couple_cell(lf, np.ones([4, 90])),
                     w.decouple_cell(np.ones([4, 3]))]
    C["wflat"] = (dict(x=cx, y=cy), dict(x="const", y="const"), wflat, wfo)
    wf = wflat(cx, cy)
    C["couple-flat"] = (dict(l=lf, c=R(74, 4, 90)), {},
                        lambda l, c: wf.couple_cell(l, c), ident)
    C["decouple-flat"] = (dict(c=R(75, 4, 3), b=R(76, 4, 3), n=R(77, 4, 3)),
                          {}, lambda c, b, n: wf.decouple_cell(c, b, n),
                          ident)
    C["coupled-flat"] = (dict(x=cx, y=cy), {}, lambda x, y:
                         nmt.compute_coupled_cell_flat(ff, ff, bf, x, y),
                         ident)
    C["depro-flat"] = (dict(l=lf, c=R(74, 4, 90), x=cx, y=cy), {},
                       lambda l, c, x, y: nmt.deprojection_bias_flat(
                           ff, ff, bf, l, c, x, y), ident)
    C["full-flat"] = (dict(noise=R(75, 4, 3), guess=R(74, 4, 90),
                           ells_guess=lf, x=cx, y=cy), {},
                      lambda noise, guess, ells_guess, x, y:
                      nmt.compute_full_master_flat(
                          ff, ff, bf, cl_noise=noise, cl_guess=guess,
                          ells_guess=ells_guess, ell_cut_x=x, ell_cut_y=y),
                      ident)
    C["full-flat-w"] = (dict(noise=R(75, 4, 3), guess=R(74, 4, 90),
                             ells_guess=lf), {},
                        lambda noise, guess, ells_guess:
                        nmt.compute_full_master_flat(
                            ff, ff, bf, cl_noise=noise, cl_guess=guess,
                            ells_guess=ells_guess, workspace=wf), ident)
    # covariances
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f2, f0, f2)
    wa = W()
    C["cov"] = (dict(a1b1=R(81, 1, LM+1), a1b2=R(82, 2, LM+1),
                     a2b1=R(83, 2, LM+1), a2b2=R(84, 4, LM+1)), {},
                lambda a1b1, a1b2, a2b1, a2b2: nmt.gaussian_covariance(
                    cw, 0, 2, 0, 2, a1b1, a1b2, a2b1, a2b2, wa), ident)
    C["cov-coupled"] = (dict(a1b1=R(81, 1, LM+1), a1b2=R(82, 2, LM+1),
                             a2b1=R(83, 2, LM+1), a2b2=R(84, 4, LM+1)), {},
                        lambda a1b1, a1b2, a2b1, a2b2:
                        nmt.gaussian_covariance(
                            cw, 0, 2, 0, 2, a1b1, a1b2, a2b1, a2b2, wa,
                            coupled=True), ident)
    fz = nmt.NmtFieldFlat(0.5, 0.4, R(71, ny, nx), R(72, 1, ny, nx))
    wz = nmt.NmtWorkspaceFlat()
    wz.compute_coupling_matrix(fz, fz, bf)
    cf = nmt.NmtCovarianceWorkspaceFlat()
    cf.compute_coupling_coefficients(fz, fz, bf)
    C["cov-flat"] = (dict(l=lf, c1=R(85, 1, 90), c2=R(86, 1, 90),
                          c3=R(87, 1, 90), c4=R(88, 1, 90)), {},
                     lambda l, c1, c2, c3, c4: nmt.gaussian_covariance_flat(
                         cf, 0, 0, 0, 0, l, c1, c2, c3, c4, wz), ident)
    # masks and simulations
    hole = (R(91, 4*hs[0]) > 0.3)*R(92, 4*hs[0])
    holf = (R(93, ny, nx) > 0.3)*R(94, ny, nx)
    for ty in ("C1", "C2", "Smooth"):
        C["apo"+ty] = (dict(m=hole), {}, lambda m, ty=ty:
                       nmt.mask_apodization(m, 20., ty), ident)
        C["apoflat"+ty] = (dict(m=holf), {}, lambda m, ty=ty:
                           nmt.mask_apodization_flat(m, 0.5, 0.4, 8., ty),
                           ident)
    cl = np.array([2+R(95, LM+1), 0.1*R(96, LM+1), 0.1*R(97, LM+1),
                   2+R(98, LM+1), 0.1*R(99, LM+1), 2+R(90, LM+1)])
    C["syn"] = (dict(cls=cl, spin_arr=np.array([0, 2]),
                     beam=R(101, 2, LM+1)), dict(spin_arr="i"),
                lambda **a: nmt.synfast_spherical(ns, seed=3, **a), ident)
    C["syn-car"] = (dict(cls=cl, spin_arr=np.array([0, 2]),
                         beam=R(101, 2, LM+1)), dict(spin_arr="i"),
                    lambda **a: nmt.synfast_spherical(
                        ns, seed=3, wcs=carf, **a), ident)
    C["synflat"] = (dict(cls=np.repeat(cl, 20, axis=1),
                         spin_arr=np.array([0, 2]),
                         beam=R(101, 2, 20*(LM+1))),
                    dict(spin_arr="i"),
                    lambda **a: nmt.synfast_flat(nx, ny, 0.5, 0.4, seed=3,
                                                 **a), ident)
    nv = 60 if big else 3
    s = R(102, nv, nv)
    C["pinv"] = (dict(m=s+s.T+5*nv*np.eye(nv)/3), {},
                 lambda m: nmt.moore_penrose_pinvh(m, 1E-3), ident)
    C["pinv0"] = (dict(m=s+s.T+5*nv*np.eye(nv)/3), {},
                  lambda m: nmt.moore_penrose_pinvh(m, None), ident)
    return C


_T = {}


def table(big=False):
    if big not in _T:
        _T[big] = calls(big)
    return _T[big]


def wcs_state():
    from nmc import lib as L
    return L


def cases(tier, seed):
    names = NAMES
    for n in names:
        yield dict(t="call", name=n, k=1)
        yield dict(t="call", name=n, k=1, big=True)
        for i in range(6):  # up to C(4, 2) pairs of arguments
            yield dict(t="call", name=n, k=2, i=i)
        if tier != "quick":
            for i in range(4):
                yield dict(t="call", name=n, k=3, i=i)
    for a in OPS:
        yield dict(t="ops", first=a, depth=2 if tier == "quick" else 3)


NAMES = (["NmtBin", "from_edges", "from_lmax_linear", "from_nside_linear",
          "NmtBinFlat"] +
         [p+str(d) for d in (1, 2) for p in ("bin_cell", "unbin_cell",
                                             "flat_bin", "flat_unbin")] +
         [k+"-"+g for g in ("hp", "car", "car2") for k in (
             "Field0", "Field0in", "Field0lite", "Field2", "Field2in",
             "Field2B", "Field2Bin", "Field2none", "Field2m", "FieldA",
             "FieldM")] +
         ["Catalog%d%d" % (s, l) for s in (1, 2) for l in (0, 1)] +
         ["Clustering0", "Clustering1"] +
         ["FieldFlat"+x for x in ("0", "0in", "2", "2B", "2Bin", "0l", "M")] +
         ["update_beams", "update_mcm", "couple", "couple-long", "decouple",
          "decouple-long"] +
         [p+n for n in ("00", "02", "22B", "2B2B") for p in (
             "depro", "full")] + ["noise0", "noise2", "noise2B"] +
         ["noise-car", "noise-car2", "reform-car", "reform-car2", "reform",
          "map2alm0", "map2alm2", "alm2map", "wflat", "couple-flat",
          "decouple-flat", "coupled-flat", "depro-flat", "full-flat",
          "full-flat-w", "cov", "cov-coupled", "cov-flat", "apoC1", "apoC2",
          "apoSmooth", "apoflatC1", "apoflatC2", "apoflatSmooth", "syn",
          "syn-car", "synflat", "pinv", "pinv0"])


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_call(case, ctx):
    arrays, kinds, build, observe = table(
        case.get("big", False))[case["name"]]
    ctx.check(set(table()) == set(NAMES), "harness-table",
              lambda: str(set(table()) ^ set(NAMES)))
    names = sorted(arrays)
    ref = {}

    def reference(chosen):
        key = tuple(sorted((n, v) for n, v in chosen.items()
                           if v in ("int", "bool", "zero", "f4")))
        if key not in ref:
            a = {n: values(arrays[n].copy(), chosen.get(n, "C"))
                 for n in names}
            try:
                ref[key] = [np.array(x) for x in observe(build(**a))]
            except Exception as e:
                ref[key] = e
        return ref[key]
    combos = list(itertools.combinations(names, case["k"]))
    if "i" in case:
        combos = combos[case["i"]::6 if case["k"] == 2 else 4]
    for args in combos:
        for vs in itertools.product(BIG if "big" in case else
                                    ["C"]+STRICT+LOOSE, repeat=case["k"]):
            if case["k"] > 1 and "C" in vs:
                continue
            if case["k"] > 2 and len(set(vs)) > 2:
                continue
            if not all(applicable(arrays[n], v, kinds.get(n))
                       for n, v in zip(args, vs)):
                continue
            one(case["name"], ctx, arrays, names, dict(zip(args, vs)),
                build, observe, reference, kinds)


def one(name, ctx, arrays, names, chosen, build, observe, reference, kinds):
    det = "%s%r" % (name, chosen)
    want = reference(chosen)
    if isinstance(want, Exception):
        if not any(v in ("int", "bool", "zero") for v in chosen.values()):
            ctx.fail("canonical-refused", "%s %r" % (det, want))
        return
    av, base, snap = {}, {}, {}
    for n in names:
        v = chosen.get(n, "C")
        av[n], base[n] = variant(values(arrays[n], v), v)
        snap[n] = snapshot(base[n]), snapshot(av[n])
    acc = True
    obj = got = None
    try:
        obj = build(**av)
        got = observe(obj)
    except Exception as e:
        acc = False
        err = e
    for n in names:
        ctx.check(snap[n] == (snapshot(base[n]), snapshot(av[n])),
                  "input-modified", "%s changed %s" % (det, n))
    ctx.evaluated(chosen, np.array(got[0]) if acc else str(err)[:40],
                  nontrivial=acc)
    if not acc:
        ctx.check(name in NATIVE_ONLY or any(v in REFUSE_OK
                                             for v in chosen.values()),
                  "layout-refused", lambda: "%s raised %r" % (det, err))
        return
    tol = 2e-5 if "f4" in chosen.values() else 1e-9
    if not ctx.check(len(got) == len(want), "layout-changes-result", det):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.close("layout-changes-result", g, w, rtol=tol,
                  detail="%s result %d" % (det, i))
    # the caller overwrites its arrays
    first = [np.array(x) for x in got]
    for n in names:
        overwrite(av[n], base[n])
    for i, (g, w) in enumerate(zip(got, first)):
        ctx.check(np.array_equal(g, w, equal_nan=True), "result-aliases-input",
                  "%s result %d changed with the input" % (det, i))
    if observe is not ident:
        # and the results it was given
        for x in got:
            wipe(x)
        last = observe(obj)
        for i, (g, w) in enumerate(zip(last, first)):
            ctx.close("object-aliases-caller", g, w, rtol=1e-12,
                      detail="%s observable %d after the caller changed its "
                      "arguments and the results" % (det, i))
    ctx.add("histories")


def wipe(x):
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = -91


# ---------------------------------------------------------------------------
# histories of operations on shared objects

OPS = ["mcm", "mcm-teb", "mcm-fkp", "mcm-tz", "coupled", "coupled-cat",
       "depro", "depro-B", "noise", "full", "full-cat", "cov-new", "cov",
       "covc", "couple", "decouple", "windows", "matrix", "bins", "bin",
       "write", "write-cov", "flat-mcm", "flat-coupled", "flat-depro",
       "flat-full", "flat-get", "flat-cov", "flat-couple", "flat-write",
       "updates", "syn", "apo", "params", "wcs", "flat-bin"]


class Universe(object):
    def __init__(self, seed):
        import pymaster as nmt
        from nmc import lib as L
        r = np.random.RandomState(seed+3)
        LM = 5
        self.lmax = LM
        kw = dict(lmax=LM, lmax_mask=LM, n_iter=1, n_iter_mask=1)
        self.wcs, sh = L.car_wcs(8, 14, 1, -1, ra0=100., theta0=1, ny=6,
                                 nx=11, phi_start=20.)
        self.sh = sh
        m = 0.3+r.rand(48)
        self.F = {
            "0": nmt.NmtField(m, r.randn(1, 48), templates=r.randn(2, 1, 48),
                              beam=0.5+r.rand(LM+2), **kw),
            "2": nmt.NmtField(0.3+r.rand(48), r.randn(2, 48),
                              templates=r.randn(1, 2, 48), **kw),
            "B": nmt.NmtField(0.3+r.rand(48), r.randn(2, 48), purify_b=True,
                              templates=r.randn(1, 2, 48), **kw),
            "l": nmt.NmtField(m, r.randn(1, 48), lite=True, **kw),
            "a": nmt.NmtField(m, r.randn(2, 48), mask_22=m+0.3,
                              mask_12=0.1*m, **kw),
            "k": nmt.NmtFieldCatalog(
                np.array([3*r.rand(9), 6*r.rand(9)]), r.rand(9),
                r.randn(2, 9), LM),
            "r": nmt.NmtField(0.3+r.rand(*sh), r.randn(2, *sh), wcs=self.wcs,
                              templates=r.randn(1, 2, *sh), **kw),
        }
        self.b = L.Scheme(LM, np.where(np.arange(LM+1) < 2, -1,
                                       (np.arange(LM+1)-2)//2),
                          f_ell=1.+np.arange(LM+1)).nmt
        self.b2 = L.all_bins(LM)
        self.w = nmt.NmtWorkspace.from_fields(self.F["0"], self.F["2"],
                                              self.b)
        self.cw = nmt.NmtCovarianceWorkspace.from_fields(
            self.F["0"], self.F["2"])
        self.cl = {k: r.rand(k, LM+1) for k in (1, 2, 4)}
        ny, nx = 6, 8
        self.G = {
            "0": nmt.NmtFieldFlat(0.5, 0.4, r.rand(ny, nx),
                                  r.randn(1, ny, nx),
                                  templates=r.randn(1, 1, ny, nx)),
            "2": nmt.NmtFieldFlat(0.5, 0.4, r.rand(ny, nx),
                                  r.randn(2, ny, nx), purify_b=True,
                                  templates=r.randn(1, 2, ny, nx)),
            "z": nmt.NmtFieldFlat(0.5, 0.4, r.rand(ny, nx),
                                  r.randn(1, ny, nx))}
        self.bf = nmt.NmtBinFlat(np.array([0., 12., 25.]),
                                 np.array([12., 25., 60.]))
        self.wf = nmt.NmtWorkspaceFlat()
        self.wf.compute_coupling_matrix(self.G["0"], self.G["2"], self.bf)
        self.wz = nmt.NmtWorkspaceFlat()
        self.wz.compute_coupling_matrix(self.G["z"], self.G["z"], self.bf)
        self.cf = nmt.NmtCovarianceWorkspaceFlat()
        self.cf.compute_coupling_coefficients(self.G["z"], self.G["z"],
                                              self.bf)
        self.lf = np.arange(90.)
        self.cf_in = {k: r.rand(k, 90) for k in (1, 2, 4)}
        self.hole = (r.rand(192) > 0.3)*1.
        self.cuts = [5., 11.], [30., 40.]

    def state(self):
        """All observables, by value, in a fixed order."""
        import pymaster as nmt
        S = []
        for k in sorted(self.F):
            f = self.F[k]
            S.append(np.array(f.beam))
            for g in ("mask", "mask_a", "maps", "temp", "alm", "alm_temp"):
                v = getattr(f, g)
                if v is not None:
                    S.append(np.array(v))
            S.append(np.array([f.Nw, f.Nf, f.ainfo.lmax,
                               f.ainfo_mask.lmax, f.spin]))
        for b in (self.b, self.b2):
            S += [b.get_effective_ells(), b.get_nell_list(),
                  b.bin_cell(np.ones(self.lmax+1)),
                  b.unbin_cell(np.ones(b.get_n_bands()))]
        S += [self.w.get_coupling_matrix(), self.w.get_bandpower_windows(),
              self.w.decouple_cell(self.cl[2])]
        S += [nmt.gaussian_covariance(
            self.cw, 0, 0, 0, 0, *[self.cl[1]]*4, self.w00())]
        for k in sorted(self.G):
            g = self.G[k]
            S += [g.get_mask(), g.get_maps(), g.get_templates()]
        S += [self.bf.get_effective_ells(),
              self.wf.couple_cell(self.lf, self.cf_in[2]),
              self.wf.decouple_cell(np.ones([2, 3])),
              self.wz.decouple_cell(np.ones([1, 3]))]
        S += [nmt.gaussian_covariance_flat(
            self.cf, 0, 0, 0, 0, self.lf, *[self.cf_in[1]]*4, self.wz)]
        S += [self.cl[k] for k in (1, 2, 4)] + [
            self.cf_in[k] for k in (1, 2, 4)] + [
            self.lf, self.hole, np.array(self.cuts)]
        S += [np.array([float(v) if not isinstance(v, str) else len(v)
                        for v in nmt.get_default_params().values()])]
        S += [self.wcs.wcs.crval, self.wcs.wcs.crpix, self.wcs.wcs.cdelt]
        return [np.array(x) for x in S]

    def w00(self):
        import pymaster as nmt
        if not hasattr(self, "_w00"):
            self._w00 = nmt.NmtWorkspace.from_fields(
                self.F["l"], self.F["l"], self.b)
        return self._w00


def do(op, U, tmp):
    """One operation; returns the arrays handed to the caller."""
    import pymaster as nmt
    F, G, c, g = U.F, U.G, U.cl, U.cf_in
    if op == "mcm":
        w = nmt.NmtWorkspace.from_fields(F["2"], F["B"], U.b)
        return [w.get_coupling_matrix()]
    if op == "mcm-teb":
        return [nmt.NmtWorkspace.from_fields(
            F["0"], F["2"], U.b, is_teb=True).get_coupling_matrix()]
    if op == "mcm-fkp":
        return [nmt.NmtWorkspace.from_fields(
            F["a"], F["0"], U.b, normalization="FKP").get_coupling_matrix()]
    if op == "mcm-tz":
        return [nmt.NmtWorkspace.from_fields(
            F["2"], F["r"], U.b, l_toeplitz=3, l_exact=2,
            dl_band=1).get_coupling_matrix()]
    if op == "coupled":
        return [nmt.compute_coupled_cell(F[x], F[y])
                for x in "02Blar" for y in "02Blar"]
    if op == "coupled-cat":
        return [nmt.compute_coupled_cell(F["k"], F[y]) for y in "02kl"]
    if op == "depro":
        return [nmt.deprojection_bias(F["0"], F["2"], c[2]),
                nmt.deprojection_bias(F["r"], F["r"], c[4])]
    if op == "depro-B":
        return [nmt.deprojection_bias(F["B"], F["2"], c[4], n_iter=0)]
    if op == "noise":
        return [nmt.uncorr_noise_deprojection_bias(F[k], 1+F[k].get_mask())
                for k in "02B"] + [nmt.uncorr_noise_deprojection_bias(
                    F["r"], np.ones(U.sh))]
    if op == "full":
        return [nmt.compute_full_master(F["0"], F["2"], U.b, cl_noise=c[2],
                                        cl_guess=c[2], workspace=U.w),
                nmt.compute_full_master(F["B"], F["B"], U.b, cl_guess=c[4])]
    if op == "full-cat":
        return [U.w00().decouple_cell(
            nmt.compute_coupled_cell(F["l"], F["l"]))]
    if op == "cov-new":
        cw = nmt.NmtCovarianceWorkspace.from_fields(F["0"], F["2"], F["B"],
                                                    F["0"])
        return [nmt.gaussian_covariance(cw, 0, 0, 0, 0, *[c[1]]*4, U.w00())]
    if op == "cov":
        return [nmt.gaussian_covariance(U.cw, 0, 2, 0, 2, c[1], c[2], c[2],
                                        c[4], U.w)]
    if op == "covc":
        return [nmt.gaussian_covariance(U.cw, 0, 2, 0, 2, c[1], c[2], c[2],
                                        c[4], U.w, coupled=True)]
    if op == "couple":
        return [U.w.couple_cell(c[2])]
    if op == "decouple":
        return [U.w.decouple_cell(c[2], 0.1*c[2], c[2])]
    if op == "windows":
        return [U.w.get_bandpower_windows(), U.w00().get_bandpower_windows()]
    if op == "matrix":
        return [U.w.get_coupling_matrix()]
    if op == "bins":
        return [U.b.get_effective_ells(), U.b.get_nell_list()] + [
            h(i) for i in range(2) for h in (U.b.get_ell_list,
                                             U.b.get_weight_list)]
    if op == "bin":
        return [U.b.bin_cell(c[4]), U.b.bin_cell(c[1][0]),
                U.b.unbin_cell(c[4][:, :2]), U.b.unbin_cell(c[1][0, :2])]
    if op == "flat-bin":
        return [U.bf.get_effective_ells(), U.bf.bin_cell(U.lf, g[4]),
                U.bf.unbin_cell(c[4][:, :3], U.lf)]
    if op == "write":
        U.w.write_to(tmp+"/w.fits")
        return [nmt.NmtWorkspace.from_file(
            tmp+"/w.fits").get_coupling_matrix()]
    if op == "write-cov":
        U.cw.write_to(tmp+"/c.fits")
        cw = nmt.NmtCovarianceWorkspace.from_file(tmp+"/c.fits")
        return [nmt.gaussian_covariance(cw, 0, 0, 0, 0, *[c[1]]*4, U.w00())]
    if op == "flat-mcm":
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(G["2"], G["2"], U.bf, *U.cuts)
        return [w.couple_cell(U.lf, g[4])]
    if op == "flat-coupled":
        return [nmt.compute_coupled_cell_flat(G[x], G[y], U.bf, *U.cuts)
                for x in "02z" for y in "02z"]
    if op == "flat-depro":
        return [nmt.deprojection_bias_flat(G[x], G[y], U.bf, U.lf, g[k],
                                           *U.cuts)
                for x, y, k in ("001", "022", "224")
                for k in (int(k),)]
    if op == "flat-full":
        return [nmt.compute_full_master_flat(
            G["0"], G["2"], U.bf, cl_guess=g[2], ells_guess=U.lf,
            workspace=U.wf)]
    if op == "flat-get":
        return [h() for k in "02z" for h in (
            G[k].get_mask, G[k].get_maps, G[k].get_templates,
            G[k].get_ell_sampling)]
    if op == "flat-cov":
        return [nmt.gaussian_covariance_flat(
            U.cf, 0, 0, 0, 0, U.lf, *[g[1]]*4, U.wz)]
    if op == "flat-couple":
        return [U.wf.couple_cell(U.lf, g[2]),
                U.wf.decouple_cell(c[2][:, :3], c[2][:, 1:4], c[2][:, 2:5])]
    if op == "flat-write":
        U.wf.write_to(tmp+"/wf.fits")
        U.cf.write_to(tmp+"/cf.fits")
        w = nmt.NmtWorkspaceFlat()
        w.read_from(tmp+"/wf.fits")
        return [w.couple_cell(U.lf, g[2])]
    if op == "updates":  # on a copy made through a file
        U.w.write_to(tmp+"/u.fits")
        w = nmt.NmtWorkspace.from_file(tmp+"/u.fits")
        w.update_bins(U.b2)
        w.update_beams(c[1][0], c[2][1])
        w.update_coupling_matrix(np.eye(2*(U.lmax+1)))
        return [w.get_coupling_matrix(), w.decouple_cell(c[2])]
    if op == "syn":
        return [nmt.synfast_spherical(2, 1+0.01*c[1], [0], beam=c[1],
                                      seed=4),
                nmt.synfast_flat(8, 6, 0.5, 0.4, 1+0.01*g[1], [0], seed=4)]
    if op == "apo":
        return [nmt.mask_apodization(U.hole, 20., t)
                for t in ("C1", "C2", "Smooth")] + [
                    nmt.mask_apodization_flat(
                        U.hole[:48].reshape(6, 8), 0.5, 0.4, 9., "C1")]
    if op == "params":
        d = nmt.get_default_params()
        out = [np.array([d["n_iter_default"], d["tol_pinv_default"]])]
        for k in d:
            d[k] = -5
        return out
    if op == "wcs":
        f = nmt.NmtField(np.ones(U.sh), [np.ones(U.sh)], wcs=U.wcs, lmax=4,
                         lmax_mask=4, n_iter=0)
        return [nmt.compute_coupled_cell(f, f)]
    raise KeyError(op)


def same(a, b):
    """Equal up to the order of summation inside the computed ones."""
    return a.shape == b.shape and (
        a.tobytes() == b.tobytes() or
        np.max(np.abs(a-b)) <= 1e-11*np.max(np.abs(b)))


def run_ops(case, ctx):
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix="nmc-")
    try:
        ops(case, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ops(case, ctx, tmp):
    U = Universe(ctx.seed)
    U.w00()
    S0 = U.state()
    ref = {}
    for op in OPS:
        fresh = Universe(ctx.seed)
        ref[op] = [np.array(x) for x in do(op, fresh, tmp)]
    seqs = [[case["first"], y] for y in OPS]
    if case["depth"] > 2:
        seqs = [s+[z] for s in seqs for z in OPS]
    done = None
    for s in seqs:
        for i, op in enumerate(s):
            if done is not None and i < len(s)-2:
                continue  # prefix already executed on this universe
            out = do(op, U, tmp)
            det = "%s after %s" % (op, s[:i])
            ctx.check(len(out) == len(ref[op]), "op-result", det)
            for j, (g, w) in enumerate(zip(out, ref[op])):
                ctx.close("result-depends-on-history", g, w, rtol=1e-11,
                          detail="%s result %d" % (det, j))
            for x in out:  # the caller overwrites what it was given
                wipe(x)
            S = U.state()
            bad = [k for k, (a, b) in enumerate(zip(S, S0))
                   if not same(a, b)]
            ctx.check(not bad and len(S) == len(S0), "object-changed",
                      "%s changed observables %s" % (det, bad[:5]))
            ctx.transition(s[:i], op, s[:i+1])
        done = s
        ctx.evaluated(s)
        ctx.trace()
