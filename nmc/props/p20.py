"""P20: invalid input is refused with an exception, never a crash."""
import itertools
import sys
import numpy as np

LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive fault enumeration on the real code under "
             "AddressSanitizer: for every public call, every argument is "
             "replaced by every member of an alphabet of invalid values, "
             "alone and in pairs; after every faulty call the valid call must "
             "give its result and every object involved its observables")
RULE = ("For every public call (constructors, methods, functions) every "
        "argument x {missing, wrong type, wrong object, uninitialised object, "
        "incompatible object, every axis shorter/longer/empty/doubled, wrong "
        "number of dimensions, transposed, not finite, out of range}, and all "
        "pairs of such faults in different arguments; the mandatory ones must "
        "raise, none may crash or hang, and results accepted may not contain "
        "memory outside the arguments (heap filled with a marker). "
        "Non-trivial: the fault was refused.")
ASSUMES = ["AddressSanitizer sees the library's own code, not FFTW, GSL, "
           "CFITSIO or ducc",
           "sizes beyond the memory of the machine are out of bounds"]
KINDS = ["asan"]
MIN_EVAL = 3000
CASE_TIMEOUT = 240
LM = 5
SEED = [1]


def setup_worker(tier, seed):
    SEED[0] = seed


def R(seed, *shape):
    return 0.25+np.random.RandomState(seed+1000*SEED[0]).rand(*shape)


class Other(object):
    pass


# --- arguments: (kind, valid value, options) -------------------------------

def arr(v, axes=None, opt=False, may=()):
    """axes: per axis 'eq' exact, 'ge' at least, 'any'."""
    v = np.asarray(v)
    return ("arr", v, dict(axes=axes or ["eq"]*v.ndim, opt=opt, may=may))


def num(v, bad=(), may=(), opt=False, huge=False):
    """huge: very large numbers cost neither memory nor time."""
    return ("num", v, dict(bad=list(bad), may=may, opt=opt, huge=huge))


def obj(v, bad=(), opt=False, maybad=()):
    return ("obj", v, dict(bad=list(bad), opt=opt, maybad=list(maybad)))


def flag(v):
    return ("flag", v, {})


def resize(v, k, n):
    """Same content with axis k cut or continued to length n."""
    idx = np.arange(n) % max(v.shape[k], 1)
    return np.take(v, idx, axis=k)


def faults(kind, v, o):
    """(name, value, mandatory)."""
    out = []
    may = o.get("may", ())

    def add(name, val, must=True):
        out.append((name, val, must and name not in may))
    def loose(name, val):
        # whether a wrong type can be made sense of is up to the library
        add(name, val, False)
    if kind == "flag":
        return [("none", None, False), ("str", "x", False),
                ("int", 7, False)]
    add("none", None, not o.get("opt"))
    loose("str", "abc")
    loose("dict", {"a": 1})
    if kind == "arr":
        f = v.dtype.kind == "f"
        loose("number", 1.5)
        loose("other", Other())
        add("empty", np.zeros(0))
        loose("objects", np.array([Other()]*3, dtype=object))
        loose("strings", np.full(v.shape, "a"))
        add("complex", v+1j, False)
        ax = o["axes"]
        for k in range(v.ndim):
            n = v.shape[k]
            if ax[k] != "any":
                add("short%d" % k, resize(v, k, n-1), n > 0)
                add("half%d" % k, resize(v, k, n//2))
            add("none%d" % k, resize(v, k, 0))
            add("long%d" % k, resize(v, k, n+1), ax[k] == "eq")
            add("double%d" % k, resize(v, k, 2*n), ax[k] == "eq")
        add("lessdim", v[0], v.ndim > 1 or not f)
        add("moredim", v[None])
        if v.ndim > 1:
            add("flat", v.ravel())
            if v.shape[-1] != v.shape[-2]:
                add("swapped", np.swapaxes(v, -1, -2))
            add("ragged", [list(np.ravel(x)[:1+i])
                           for i, x in enumerate(list(v)+[v[0]])][:len(v)],
                len(v) > 1)
        if f:
            for nm, x in (("nan", np.nan), ("inf", np.inf),
                          ("neg", -1.)):
                add(nm, np.full(v.shape, x), False)
                w = v.copy()
                w.flat[-1] = x
                add("one"+nm, w, False)
            add("zero", np.zeros(v.shape), False)
        else:
            add("negative", v-1000, False)
            add("noninteger", v+0.5, False)
    elif kind == "num":
        loose("array", np.array([1., 2.]))
        loose("list", [1])
        loose("other", Other())
        for x in o["bad"]:
            add("bad:%r" % (x,), x)
        for x in (-1, 0, 37, 1.5, float("nan"), float("inf"), 2**31,
                  -2**40):
            if "huge" in o and x not in o["bad"] and (
                    abs(x) < 100 or x != x or o["huge"]):
                add("may:%r" % (x,), x, False)
    else:
        add("number", 3)
        add("other", Other())
        add("array", np.ones(3))
        for i, x in enumerate(o["bad"]):
            add("bad%d" % i, x)
        for i, x in enumerate(o["maybad"]):
            add("may%d" % i, x, False)
    return out


_T = {}


def table():
    if not _T:
        _T.update(build())
    return _T


def build():
    """Public calls: name -> (function, arguments, observe)."""
    import pymaster as nmt
    from nmc import lib as L
    C = {}
    hs = (48,)
    kw = dict(lmax=LM, lmax_mask=LM, n_iter=0, n_iter_mask=0)
    l = np.arange(LM+1)
    mk = lambda lm, f=None: L.Scheme(lm, np.where(
        np.arange(lm+1) < 2, -1, (np.arange(lm+1)-2)//2), f_ell=f).nmt
    b, b4 = mk(LM), mk(LM-1)
    b3 = L.Scheme(LM, np.where(l < 2, -1, (l-2)//1)).nmt
    nb = b.get_n_bands()
    f0 = nmt.NmtField(R(1, *hs), R(2, 1, *hs), templates=R(3, 1, 1, *hs),
                      beam=R(4, LM+1), **kw)
    f2 = nmt.NmtField(R(5, *hs), R(6, 2, *hs), templates=R(7, 1, 2, *hs),
                      **kw)
    fB = nmt.NmtField(R(5, *hs), R(6, 2, *hs), templates=R(7, 2, 2, *hs),
                      purify_b=True, **kw)
    fm = nmt.NmtField(R(8, *hs), None, spin=2, **kw)
    fl = nmt.NmtField(R(8, *hs), R(9, 1, *hs), lite=True, **kw)
    fa = nmt.NmtField(R(8, *hs), R(9, 2, *hs), mask_22=1+R(10, *hs),
                      mask_12=0.1*R(11, *hs), **kw)
    f4 = nmt.NmtField(R(12, 192), R(13, 1, 192), **kw)
    fs = nmt.NmtField(R(1, *hs), R(2, 1, *hs), **dict(kw, lmax=LM-1))
    fk = nmt.NmtField(R(1, *hs), R(2, 1, *hs), **dict(kw, lmax_mask=LM-1))
    pos = np.array([2.9*R(21, 9)/1.25, 6.2*R(22, 9)/1.25])
    fc = nmt.NmtFieldCatalog(pos, R(23, 9), R(24, 2, 9), LM)
    car, sh = L.car_wcs(8, 14, 1, -1, ra0=100., theta0=1, ny=6, nx=11,
                        phi_start=20.)
    fr = nmt.NmtField(R(14, *sh), R(15, 2, *sh), wcs=car,
                      templates=R(16, 1, 2, *sh), **kw)
    ny, nx = 6, 8
    LX, LY = 0.5, 0.4
    T = 90
    g0 = nmt.NmtFieldFlat(LX, LY, R(31, ny, nx), R(32, 1, ny, nx),
                          templates=R(33, 1, 1, ny, nx))
    gz = nmt.NmtFieldFlat(LX, LY, R(31, ny, nx), R(32, 1, ny, nx))
    g2 = nmt.NmtFieldFlat(LX, LY, R(34, ny, nx), R(35, 2, ny, nx),
                          templates=R(36, 1, 2, ny, nx))
    gm = nmt.NmtFieldFlat(LX, LY, R(34, ny, nx), None, spin=2)
    gs = nmt.NmtFieldFlat(LX, LY, R(34, ny-1, nx), R(35, 1, ny-1, nx))
    gx = nmt.NmtFieldFlat(LX*1.3, LY, R(34, ny, nx), R(35, 1, ny, nx))
    gt = nmt.NmtFieldFlat(LX, LY, R(34, nx, ny), R(35, 1, nx, ny))
    bf = nmt.NmtBinFlat(np.array([0., 12., 25.]), np.array([12., 25., 60.]))
    bg = nmt.NmtBinFlat(np.array([0., 25.]), np.array([25., 60.]))
    W = lambda *a, **k: nmt.NmtWorkspace.from_fields(*a, **k)
    w00, w02, w22 = W(f0, f0, b), W(f0, f2, b), W(f2, f2, b)
    wteb = W(f0, f2, b, is_teb=True)
    ws = W(fs, fs, b4)
    import os
    import tempfile
    d = tempfile.mkdtemp(dir=os.environ.get("NMC_SCRATCH"))
    w00.write_to(d+"/w.fits")
    wn = nmt.NmtWorkspace.from_file(d+"/w.fits", read_unbinned_MCM=False)
    wv = nmt.NmtWorkspace()

    def WF(x, y, bb=bf, **k):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(x, y, bb, **k)
        return w
    v00, v02, v22 = WF(g0, g0), WF(g0, g2), WF(g2, g2)
    vz = WF(gz, gz)
    vg = WF(gz, gz, bg)
    vv = nmt.NmtWorkspaceFlat()
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f2)
    c0 = nmt.NmtCovarianceWorkspace.from_fields(f0, f2, spin0_only=True)
    cs = nmt.NmtCovarianceWorkspace.from_fields(fs, fs)
    cv = nmt.NmtCovarianceWorkspace()
    cf = nmt.NmtCovarianceWorkspaceFlat()
    cf.compute_coupling_coefficients(gz, gz, bf)
    cg = nmt.NmtCovarianceWorkspaceFlat()
    cg.compute_coupling_coefficients(gz, gz, bg)
    cvf = nmt.NmtCovarianceWorkspaceFlat()
    curved = [f0, f2, fB, fm, fl, fa, f4, fr, fc]
    flat = [g0, g2, gz, gm]
    ident = lambda x: x if isinstance(x, (list, tuple)) else [x]
    keep = dict(f0=f0, f2=f2, fB=fB, fr=fr, b=b, w00=w00, w02=w02, w22=w22,
                g0=g0, g2=g2, gz=gz, bf=bf, v00=v00, v02=v02, v22=v22,
                vz=vz, cw=cw, cf=cf, wteb=wteb)

    # --- bins
    e = np.arange(2, 8)

    def binobs(x):
        return [x.get_effective_ells(), x.get_nell_list(),
                x.bin_cell(np.ones(x.lmax+1))]
    C["NmtBin"] = (nmt.NmtBin, dict(
        bpws=arr((e-2)//2), ells=arr(e), lmax=num(7, opt=True),
        weights=arr(R(41, 6), opt=True), f_ell=arr(R(42, 6), opt=True)),
        binobs)
    C["NmtBin.edges"] = (nmt.NmtBin.from_edges, dict(
        ell_ini=arr(np.array([2, 4, 7]), ["any"], may=("long0", "double0")),
        ell_end=arr(np.array([4, 7, 9]), ["any"], may=("long0", "double0")),
        f_ell=arr(R(42, 7), opt=True), is_Dell=flag(False)), binobs)
    C["NmtBin.lmax"] = (nmt.NmtBin.from_lmax_linear, dict(
        lmax=num(8, bad=[-1]), nlb=num(2, bad=[0, -1]),
        f_ell=arr(R(42, 9), opt=True), is_Dell=flag(False)), binobs)
    C["NmtBin.nside"] = (nmt.NmtBin.from_nside_linear, dict(
        nside=num(2, bad=[0, -1]), nlb=num(2, bad=[0, -1]),
        f_ell=arr(R(42, 6), opt=True), is_Dell=flag(False)), binobs)
    noself = [None, Other(), bf]
    B = nmt.NmtBin
    C["bin_cell"] = (B.bin_cell, dict(
        self=obj(b, bad=[bf, w00]), cls_in=arr(R(43, 2, LM+1), [
            "any", "eq"], may=("lessdim",))), ident)
    C["unbin_cell"] = (B.unbin_cell, dict(
        self=obj(b, bad=[bf, w00]), cls_in=arr(R(43, 2, nb), [
            "any", "eq"], may=("lessdim",))), ident)
    for m in ("get_ell_list", "get_weight_list", "get_ell_min",
              "get_ell_max"):
        C[m] = (getattr(B, m), dict(
            self=obj(b, bad=[w00]), b=num(1, bad=[
                -1, nb, nb+1, 10**6, -nb-1, 2**31])), ident)
    for m in ("get_effective_ells", "get_nell_list", "get_n_bands"):
        C[m] = (getattr(B, m), dict(self=obj(b, bad=[w00, 0])), ident)
    C["NmtBinFlat"] = (nmt.NmtBinFlat, dict(
        l0=arr(np.array([2., 9.5, 20.]), ["any"], may=(
            "long0", "double0", "short0", "half0", "none0")),
        lf=arr(np.array([9.5, 20., 50.]), ["any"], may=(
            "short0", "half0", "none0"))),
        lambda x: [x.get_effective_ells()])
    F = nmt.NmtBinFlat
    C["flat.bin_cell"] = (F.bin_cell, dict(
        self=obj(bf, bad=[b, w00]), ells=arr(np.arange(30.)),
        cls_in=arr(R(43, 2, 30), ["any", "eq"], may=("lessdim",))), ident)
    C["flat.unbin_cell"] = (F.unbin_cell, dict(
        self=obj(bf, bad=[b, w00]), cls_in=arr(R(43, 2, 3), [
            "any", "eq"], may=("lessdim",)),
        ells=arr(np.arange(30.), ["any"], may=("empty", "none0"))),
        ident)
    C["flat.get_effective_ells"] = (F.get_effective_ells, dict(
        self=obj(bf, bad=[w00])), ident)

    # --- fields
    def fobs(f):
        return [np.array(nmt.compute_coupled_cell(f, f)),
                W(f, f, mk(f.ainfo.lmax)).get_coupling_matrix()]
    spin = dict(bad=[-1], may=())
    for nm, n, fix in (("0", 1, {}), ("2", 2, {}),
                       ("2B", 2, dict(purify_b=True)),
                       ("in", 2, dict(masked_on_input=True))):
        C["NmtField"+nm] = (
            lambda fix=fix, **a: nmt.NmtField(
                a.pop("mask"), a.pop("maps"), **dict(a, **fix)),
            dict(mask=arr(R(1, *hs)), maps=arr(R(2, n, *hs), opt=True,
                                               may=("moredim",)),
                 templates=arr(R(3, 2, n, *hs), ["any", "eq", "eq"],
                               opt=True, may=("moredim",)),
                 beam=arr(R(4, LM+1), ["ge"], opt=True,
                          may=("complex",)),
                 spin=num(2 if n == 2 else 0, bad=[
                     -1, -2, 0 if n == 2 else 2], opt=True),
                 lmax=num(LM, bad=[0, -1], opt=True),
                 lmax_mask=num(LM, bad=[0, -1], opt=True),
                 n_iter=num(1, opt=True), n_iter_mask=num(1, opt=True),
                 tol_pinv=num(1E-8, opt=True)), fobs)
    C["NmtFieldA"] = (
        lambda **a: nmt.NmtField(a.pop("mask"), a.pop("maps"),
                                 **dict(a, **kw)),
        dict(mask=arr(R(1, *hs)), maps=arr(R(2, 2, *hs), opt=True),
             mask_22=arr(R(3, *hs)), mask_12=arr(0.1*R(4, *hs)),
             spin=num(2, bad=[0], opt=True)), fobs)
    C["NmtFieldM"] = (
        lambda **a: nmt.NmtField(a.pop("mask"), None, **dict(a, **kw)),
        dict(mask=arr(R(1, *hs)), spin=num(2, bad=[])),
        lambda f: [W(f, f, b).get_coupling_matrix()])
    C["NmtFieldCAR"] = (
        lambda **a: nmt.NmtField(a.pop("mask"), a.pop("maps"),
                                 **dict(a, **kw)),
        dict(mask=arr(R(1, *sh), ["any", "any"], may=("swapped",)),
             maps=arr(R(2, 2, *sh), opt=True),
             templates=arr(R(3, 1, 2, *sh), ["any", "eq", "eq", "eq"],
                           opt=True),
             wcs=obj(car, bad=[b])), fobs)
    C["NmtFieldCatalog"] = (
        nmt.NmtFieldCatalog, dict(
            positions=arr(pos), weights=arr(R(23, 9)),
            field=arr(R(24, 2, 9), opt=True), lmax=num(LM, bad=[-1]),
            lmax_mask=num(LM, bad=[-1], opt=True),
            spin=num(2, bad=[0], opt=True),
            beam=arr(R(25, LM+1), ["ge"], opt=True),
            lonlat=flag(False)), fobs)
    C["NmtFieldCatalogPos"] = (
        nmt.NmtFieldCatalog, dict(
            positions=("num", pos, dict(bad=[
                pos-7, pos+7, pos*np.array([[1], [-1]]),
                pos*np.array([[-1], [1]]), pos*np.nan])),
            weights=arr(R(23, 9)),
            field=arr(R(24, 1, 9), may=(
                "long0", "double0", "lessdim", "flat")),
            lmax=num(LM)), fobs)
    C["NmtFieldCatalogClustering"] = (
        nmt.NmtFieldCatalogClustering, dict(
            positions=arr(pos), weights=arr(R(23, 9)),
            positions_rand=arr(pos[:, ::-1]), weights_rand=arr(R(26, 9)),
            lmax=num(LM, bad=[-1]), lonlat=flag(False)), fobs)
    C["NmtFieldCatalogM"] = (
        lambda **a: nmt.NmtFieldCatalog(a.pop("positions"), a.pop("weights"),
                                        None, LM, **a), dict(
            positions=arr(pos), weights=arr(R(23, 9)),
            spin=num(2, bad=[-1, -2])),
        lambda f: [W(f, f, b).get_coupling_matrix()])
    # positions in the other convention: degrees, longitude first
    deg = np.array([np.degrees(pos[1]), 90-np.degrees(pos[0])])
    badpos = lambda p, d: [
        p-d, p+d, p*np.nan, p+np.where(np.arange(9) == 8, d, 0)*np.array([[0], [1]]),
        p+np.where(np.arange(9) == 0, d, 0)*np.array([[1], [0]])]
    C["NmtFieldCatalogDeg"] = (
        lambda **a: nmt.NmtFieldCatalog(lonlat=True, spin=2, **a), dict(
            positions=("num", deg, dict(bad=badpos(deg, 400.))),
            weights=arr(R(23, 9)), field=arr(R(24, 2, 9), opt=True),
            lmax=num(LM)),
        fobs)
    posr = pos[:, ::-1].copy()
    for nm, ll, p, q, dp in (("Pos", False, pos, posr, 7.),
                            ("Deg", True, deg, deg[:, ::-1].copy(), 400.)):
        C["Clustering"+nm] = (
            lambda ll=ll, **a: nmt.NmtFieldCatalogClustering(
                lonlat=ll, lmax=LM, **a), dict(
                positions=("num", p, dict(bad=badpos(p, dp))),
                positions_rand=("num", q, dict(bad=badpos(q, dp))),
                weights=arr(R(23, 9)), weights_rand=arr(R(26, 9))), fobs)
    for m in ("get_mask", "get_maps", "get_alms", "get_mask_alms",
              "get_templates"):
        C["field."+m] = (getattr(nmt.NmtField, m), dict(
            self=obj(f0, bad=[w00] + (
                [fm] if m in ("get_maps", "get_alms") else []) +
                ([fc] if m in ("get_mask", "get_maps") else []))), ident)
    C["field.get_anisotropic_mask"] = (
        nmt.NmtField.get_anisotropic_mask, dict(
            self=obj(fa, bad=[f0, fc, w00])), ident)
    C["field.get_anisotropic_mask_alms"] = (
        nmt.NmtField.get_anisotropic_mask_alms, dict(
            self=obj(fa, bad=[f0, fc, w00])), ident)

    def gobs(f):
        return [f.get_mask(), nmt.compute_coupled_cell_flat(f, f, bf)]
    fb = np.array([np.arange(float(T)), R(37, T)])
    for nm, n, fix in (("0", 1, {}), ("2", 2, {}),
                       ("2B", 2, dict(purify_b=True)),
                       ("in", 2, dict(masked_on_input=True)),
                       ("l", 1, dict(lite=True))):
        C["NmtFieldFlat"+nm] = (
            lambda fix=fix, **a: nmt.NmtFieldFlat(**dict(a, **fix)),
            dict(lx=num(LX, bad=[-1, 0]), ly=num(LY, bad=[-1, 0]),
                 mask=arr(R(31, ny, nx)),
                 maps=arr(R(32, n, ny, nx), opt=True),
                 templates=arr(R(33, 2, n, ny, nx), [
                     "any", "eq", "eq", "eq"], opt=True),
                 beam=arr(fb, ["eq", "any"], opt=True),
                 spin=num(2 if n == 2 else 0, bad=[
                     0 if n == 2 else 2], opt=True),
                 tol_pinv=num(1E-8, opt=True)), gobs)
    C["NmtFieldFlatM"] = (
        nmt.NmtFieldFlat, dict(
            lx=num(LX, bad=[-1, 0]), ly=num(LY, bad=[-1, 0]),
            mask=arr(R(31, ny, nx), ["any", "any"], may=("swapped",)),
            maps=("flag", None, {}), spin=num(2)),
        lambda f: [f.get_mask(), WF(f, f).couple_cell(
            np.arange(90.), np.ones([f.fl.nmaps**2, 90]))])
    for m in ("get_mask", "get_maps", "get_templates", "get_ell_sampling"):
        C["flat."+m] = (getattr(nmt.NmtFieldFlat, m), dict(
            self=obj(g0, bad=[w00, f0] + (
                [gm] if m in ("get_maps", "get_templates") else []))),
            ident)

    # --- workspaces
    wobs = lambda w: [w.get_coupling_matrix()]
    tz = [dict(l_toeplitz=-1, l_exact=-1, dl_band=-1),
          dict(l_toeplitz=3, l_exact=2, dl_band=1)]
    for i, z in enumerate(tz):
        bad = [[], []] if i == 0 else None
        C["from_fields%d" % i] = (nmt.NmtWorkspace.from_fields, dict(
            fl1=obj(f0, bad=[fs, fk, g0, w00, b], maybad=[f4, fr, fc, fa]),
            fl2=obj(f2, bad=[fs, fk, g0, w00, b], maybad=[f4, fr, fc, fa]),
            bins=obj(b, bad=[b4, bf, f0]),
            normalization=num("MASTER", bad=["", "master", 0]),
            is_teb=flag(False),
            l_toeplitz=num(z["l_toeplitz"], bad=[] if not i else [
                LM, LM+1, 1000]),
            l_exact=num(z["l_exact"], bad=[] if not i else [
                0, -1, 4, LM, 1000],
                may=() if i else ("none", "str", "dict", "array", "list",
                                  "other")),
            dl_band=num(z["dl_band"], bad=[] if not i else [-1, LM, 1000],
                        may=() if i else ("none", "str", "dict", "array",
                                          "list", "other"))), wobs)
    C["from_fields-teb"] = (nmt.NmtWorkspace.from_fields, dict(
        fl1=obj(f0, bad=[f2, fB, fm, fs, fa]),
        fl2=obj(f2, bad=[f0, fl, fs, fa]),
        bins=obj(b, bad=[b4, bf]), is_teb=flag(True)), wobs)
    C["from_fields-FKP"] = (nmt.NmtWorkspace.from_fields, dict(
        fl1=obj(f0, bad=[f4, fr, fc, fs]), fl2=obj(f2, bad=[f4, fr, fc, fs]),
        bins=obj(b, bad=[b4, bf]), normalization=num("FKP")), wobs)
    C["compute_coupling_matrix"] = (
        lambda **a: (lambda w: (w.compute_coupling_matrix(**a), w)[1])(
            nmt.NmtWorkspace()), dict(
                fl1=obj(f0, bad=[fs, fk, g0, None]),
                fl2=obj(f2, bad=[fs, fk, g0, None]),
                bins=obj(b, bad=[b4, bf])), wobs)
    X = nmt.NmtWorkspace

    def fresh(w, fn):
        """Call on a copy of the workspace when it is a workspace."""
        def call(self, **a):
            if isinstance(self, nmt.NmtWorkspace) and \
                    self.wsp is not None and self.has_unbinned:
                self.write_to(d+"/copy.fits")
                self = nmt.NmtWorkspace.from_file(d+"/copy.fits")
            fn(self, **a)
            return self
        return call
    noW = [wv, wn, v00, f0, cw]
    C["update_beams"] = (fresh(w02, X.update_beams), dict(
        self=obj(w02, bad=noW), beam1=arr(R(51, LM+1), ["ge"]),
        beam2=arr(R(52, LM+1), ["ge"])), wobs)
    C["update_bins"] = (fresh(w02, X.update_bins), dict(
        self=obj(w02, bad=noW), bins=obj(b3, bad=[b4, bf, f0])), wobs)
    C["update_coupling_matrix"] = (
        fresh(w02, X.update_coupling_matrix), dict(
            self=obj(w02, bad=noW),
            new_matrix=arr(np.eye(2*(LM+1))+0.1*R(53, 12, 12),
                           may=("flat",))), wobs)
    for nm, w, k in (("00", w00, 1), ("02", w02, 2), ("teb", wteb, 7)):
        others = [x for x in (w00, w02, wteb) if x is not w]
        C["couple_cell"+nm] = (X.couple_cell, dict(
            self=obj(w, bad=noW+others),
            cl_in=arr(R(54, k, LM+1), ["eq", "ge"])), ident)
        C["decouple_cell"+nm] = (X.decouple_cell, dict(
            self=obj(w, bad=[wv, v00, f0, cw]+others),
            cl_in=arr(R(54, k, LM+1), ["eq", "ge"]),
            cl_bias=arr(R(55, k, LM+1), ["eq", "ge"], opt=True),
            cl_noise=arr(R(56, k, LM+1), ["eq", "ge"], opt=True)), ident)
    for m in ("get_coupling_matrix", "get_bandpower_windows"):
        C[m] = (getattr(X, m), dict(self=obj(w02, bad=noW)), ident)
    C["write_to"] = (
        lambda self, fname: (self.write_to(fname), X.from_file(
            fname).get_coupling_matrix())[1], dict(
                self=obj(w02, bad=[wv, f0]),
                fname=num(d+"/x.fits", bad=["", d+"/no/x.fits", d])),
        ident)
    C["read"] = (lambda fname, **a: X.from_file(fname, **a), dict(
        fname=num(d+"/w.fits", bad=["", d+"/no.fits", d], may=("none",)),
        read_unbinned_MCM=flag(True)), wobs)

    # --- curved estimators
    for x, y, nm in ((f0, f2, "02"), (fB, fB, "BB"), (fr, fr, "rr")):
        n = x.nmaps*y.nmaps
        inc = [f4, fs, fk, fl, fc, g0, w00] + (
            [f0] if x is fr else [fr])
        C["deprojection_bias"+nm] = (nmt.deprojection_bias, dict(
            f1=obj(x, bad=inc, maybad=[fm]),
            f2=obj(y, bad=inc, maybad=[fm]),
            cl_guess=arr(R(57, n, LM+1)), n_iter=num(0, opt=True)), ident)
        shp = sh if x is fr else hs
        C["noise_bias"+nm] = (nmt.uncorr_noise_deprojection_bias, dict(
            f1=obj(x, bad=[fl, fc, g0, w00] + ([f0] if x is fr else []),
                   maybad=[fm]),
            map_var=arr(R(58, *shp), may=("moredim",) + (
                ("flat",) if x is fr else ())),
            n_iter=num(0, opt=True)), ident)
    C["compute_coupled_cell"] = (nmt.compute_coupled_cell, dict(
        f1=obj(f0, bad=[fs, fk, fm, g0, w00]),
        f2=obj(f2, bad=[fs, fk, fm, g0, w00])), ident)
    C["compute_full_master"] = (nmt.compute_full_master, dict(
        f1=obj(f0, bad=[fs, fk, fm, g0, w00]),
        f2=obj(f2, bad=[fs, fk, fm, g0, w00]),
        b=obj(b, bad=[b4, bf]),
        cl_noise=arr(R(59, 2, LM+1), opt=True),
        cl_guess=arr(R(60, 2, LM+1), opt=True)), ident)
    C["compute_full_masterW"] = (nmt.compute_full_master, dict(
        f1=obj(f0, bad=[fs, fk, fm, f2, g0]),
        f2=obj(f2, bad=[fs, fk, fm, f0, g0]),
        workspace=obj(w02, bad=[wv, w00, w22, wteb, v02]),
        cl_noise=arr(R(59, 2, LM+1), opt=True),
        cl_guess=arr(R(60, 2, LM+1), opt=True)), ident)

    # --- flat
    cx, cy = np.array([5., 11.]), np.array([30., 40.])
    cut = dict(ell_cut_x=arr(cx, ["ge"]), ell_cut_y=arr(cy, ["ge"]))
    gbad = [gs, gx, gt, f0, w00]
    Y = nmt.NmtWorkspaceFlat
    C["flat.compute_coupling_matrix"] = (
        lambda **a: (lambda w: (w.compute_coupling_matrix(**a), w)[1])(
            Y()), dict(fl1=obj(g0, bad=gbad), fl2=obj(g2, bad=gbad),
                       bins=obj(bf, bad=[b]), is_teb=flag(False), **cut),
        lambda w: [w.couple_cell(np.arange(90.), np.ones([w.wsp.ncls, 90]))])
    C["flat.compute-teb"] = (
        lambda **a: (lambda w: (w.compute_coupling_matrix(**a), w)[1])(
            Y()), dict(fl1=obj(g0, bad=gbad+[g2]),
                       fl2=obj(g2, bad=gbad+[gz]),
                       bins=obj(bf, bad=[b]), is_teb=flag(True)),
        lambda w: [w.couple_cell(np.arange(90.), np.ones([w.wsp.ncls, 90]))])
    noV = [vv, w00, f0, cf]
    for nm, w, k in (("00", v00, 1), ("02", v02, 2)):
        others = [x for x in (v00, v02) if x is not w]
        C["flat.couple_cell"+nm] = (Y.couple_cell, dict(
            self=obj(w, bad=noV+others), ells=arr(np.arange(90.)),
            cl_in=arr(R(61, k, 90))), ident)
        C["flat.decouple_cell"+nm] = (Y.decouple_cell, dict(
            self=obj(w, bad=noV+others), cl_in=arr(R(62, k, 3)),
            cl_bias=arr(R(63, k, 3), opt=True),
            cl_noise=arr(R(64, k, 3), opt=True)), ident)
    C["flat.write_to"] = (
        lambda self, fname: self.write_to(fname) or [], dict(
            self=obj(v02, bad=[vv]),
            fname=num(d+"/y.fits", bad=["", d+"/no/x.fits", d])), ident)
    C["coupled_flat"] = (nmt.compute_coupled_cell_flat, dict(
        f1=obj(g0, bad=gbad+[gm]), f2=obj(g2, bad=gbad+[gm]),
        b=obj(bf, bad=[b]), **cut), ident)
    C["deprojection_bias_flat"] = (nmt.deprojection_bias_flat, dict(
        f1=obj(g0, bad=gbad+[gm, g2]), f2=obj(g2, bad=gbad+[gm, g0]),
        b=obj(bf, bad=[b]), ells=arr(np.arange(90.)),
        cl_guess=arr(R(65, 2, 90)), **cut), ident)
    C["full_flat"] = (nmt.compute_full_master_flat, dict(
        f1=obj(g0, bad=gbad+[gm, g2]), f2=obj(g2, bad=gbad+[gm, g0]),
        b=obj(bf, bad=[b, bg]), cl_noise=arr(R(66, 2, 3), opt=True),
        cl_guess=arr(R(65, 2, 90), opt=True), ells_guess=arr(
            np.arange(90.)), **cut), ident)
    C["full_flatW"] = (nmt.compute_full_master_flat, dict(
        f1=obj(g0, bad=gbad+[gm, g2]), f2=obj(g2, bad=gbad+[gm, g0]),
        b=obj(bf, bad=[b, bg]), cl_noise=arr(R(66, 2, 3), opt=True),
        workspace=obj(v02, bad=[v00, v22, w02], opt=True, maybad=[vv])),
        ident)

    # --- covariances
    C["cov.from_fields"] = (nmt.NmtCovarianceWorkspace.from_fields, {
        **{k: obj(v, bad=[f4, fr, fs, fk, fa, fc, g0, w00],
                  opt=k[2] == "b") for k, v in
           dict(fla1=f0, fla2=f2, flb1=f2, flb2=f0).items()},
        **dict(l_toeplitz=num(3, bad=[LM, 1000]),
               l_exact=num(2, bad=[0, -1, LM, 1000, 4]),
               dl_band=num(1, bad=[-1, LM]), spin0_only=flag(False))},
        lambda c: [nmt.gaussian_covariance(
            c, 0, 0, 0, 0, *[R(71, 1, LM+1)]*4, w00)])
    cl = lambda s, k: arr(R(s, k, LM+1), ["eq", "ge"], may=(
        "long1", "double1"))
    for nm, cp in (("", False), ("-coupled", True)):
        # a decoupled covariance needs no unbinned matrix
        C["cov"+nm] = (
            lambda cp=cp, **a: nmt.gaussian_covariance(coupled=cp, **a),
            dict(cw=obj(cw, bad=[cv, cs, c0, cf, w00, f0]),
                 spin_a1=num(0, bad=[2]), spin_a2=num(2, bad=[0]),
                 spin_b1=num(0, bad=[2]), spin_b2=num(2, bad=[0]),
                 cla1b1=cl(81, 1), cla1b2=cl(82, 2), cla2b1=cl(83, 2),
                 cla2b2=cl(84, 4),
                 wa=obj(w02, bad=[wv, w00, w22, ws, v02] + (
                     [wn] if cp else [])),
                 wb=obj(w02, bad=[wv, w00, w22, ws, v02], opt=True)), ident)
    C["cov.flat.compute"] = (
        lambda **a: (lambda c: (c.compute_coupling_coefficients(**a), c)[1])(
            nmt.NmtCovarianceWorkspaceFlat()), {
                **{k: obj(gz, bad=gbad, opt=k[2] == "b") for k in
                   ("fla1", "fla2", "flb1", "flb2")},
                "bin_a": obj(bf, bad=[b, bg]),
                "bin_b": obj(bf, bad=[b, bg], opt=True)},
        lambda c: [nmt.gaussian_covariance_flat(
            c, 0, 0, 0, 0, np.arange(90.), *[R(91, 1, 90)]*4, vz)])
    for m, o, bad in (("write_to", cw, [cv]), ("write_to", cf, [cvf])):
        C["cov.%s.%s" % (type(o).__name__[-4:], m)] = (
            lambda self, fname: self.write_to(fname) or [], dict(
                self=obj(o, bad=bad), fname=num(d+"/z.fits", bad=[
                    "", d+"/no/x.fits", d])), ident)
    C["cov.flat"] = (nmt.gaussian_covariance_flat, dict(
        cw=obj(cf, bad=[cvf, cg, cw]), spin_a1=num(0, bad=[2]),
        spin_a2=num(0, bad=[2]), spin_b1=num(0, bad=[2]),
        spin_b2=num(0, bad=[2]), larr=arr(np.arange(90.)),
        cla1b1=arr(R(91, 1, 90)), cla1b2=arr(R(92, 1, 90)),
        cla2b1=arr(R(93, 1, 90)), cla2b2=arr(R(94, 1, 90)),
        wa=obj(vz, bad=[vv, v22, vg, w00]),
        wb=obj(vz, bad=[vv, v22, vg, w00], opt=True)), ident)

    # --- utilities
    hole = (R(95, 192) > 0.5)*R(96, 192)
    for ty in ("C1", "C2", "Smooth"):
        C["apo"+ty] = (nmt.mask_apodization, dict(
            mask_in=arr(hole), aposize=num(20., bad=[-1]),
            apotype=num(ty, bad=["C3", "", "smooth", 1])), ident)
        C["apoflat"+ty] = (nmt.mask_apodization_flat, dict(
            mask_in=arr(hole[:48].reshape(6, 8), ["any", "any"],
                        may=("swapped",)),
            lx=num(LX, bad=[-1, 0]), ly=num(LY, bad=[-1, 0]),
            aposize=num(9., bad=[-1]),
            apotype=num(ty, bad=["C3", "", "smooth", 1])), ident)
    cls = np.array([2+R(97, LM+1), 0.1*R(98, LM+1), 0.1*R(99, LM+1),
                    2+R(97, LM+1), 0.1*R(98, LM+1), 2+R(99, LM+1)])
    C["synfast_spherical"] = (nmt.synfast_spherical, dict(
        nside=num(2, bad=[0]), cls=arr(cls, ["eq", "any"]),
        spin_arr=arr(np.array([0, 2]), may=()),
        beam=arr(R(100, 2, LM+1), ["eq", "ge"], opt=True),
        seed=num(5), lmax=num(LM, opt=True)), ident)
    wf, wh, wl = [L.car_wcs(9, 14, -1, 1, theta0=t, ny=n)[0] for t, n in
                  ((0, 10), (0.5, 9), (1.5, 7))]
    C["synfast_car"] = (nmt.synfast_spherical, dict(
        nside=("flag", None, {}), cls=arr(cls, ["eq", "any"]),
        spin_arr=arr(np.array([0, 2])), wcs=obj(
            wf, bad=[b, wh, wl]), seed=num(5), lmax=num(LM, opt=True)),
        ident)
    C["synfast_flat"] = (nmt.synfast_flat, dict(
        nx=num(8, bad=[0, -1]), ny=num(6, bad=[0, -1]),
        lx=num(LX, bad=[0, -1]), ly=num(LY, bad=[0, -1]),
        cls=arr(np.repeat(cls, 20, axis=1), ["eq", "eq"]),
        spin_arr=arr(np.array([0, 2])),
        beam=arr(R(101, 2, 120), opt=True), seed=num(5)), ident)
    s = R(102, 3, 3)
    C["pinv"] = (nmt.moore_penrose_pinvh, dict(
        mat=arr(s+s.T+4*np.eye(3), may=("moredim",)),
        tol_pinv=num(1E-3, opt=True)), ident)
    C["MapInfo"] = (nmt.NmtMapInfo, dict(
        wcs=obj(car, bad=[b, 5]), axes=("num", list(sh), dict(bad=[
            [], [48], [6], [6, 11, 2]]))),
        lambda m: [np.array([m.npix, m.theta_min, m.get_lmax()])])
    C["MapInfoHP"] = (lambda axes: nmt.NmtMapInfo(None, axes), dict(
        axes=("num", [48], dict(bad=[[], [47], [49], [0], [6, 8], [-48],
                                     [12*9]]))),
        lambda m: [np.array([m.npix, m.get_lmax()])])
    C["reform_map"] = (lambda m: nmt.NmtMapInfo(car, sh).reform_map(m), dict(
        m=arr(R(103, 2, *sh), ["any", "eq", "eq"], may=(
            "lessdim", "moredim", "none0"))),
        lambda x: [np.array(x)])
    C["reform_mapHP"] = (lambda m: nmt.NmtMapInfo(None, hs).reform_map(m),
                         dict(m=arr(R(103, 2, *hs), ["any", "eq"], may=(
                             "lessdim", "moredim", "none0"))),
                         lambda x: [np.array(x)])
    C["AlmInfo"] = (nmt.NmtAlmInfo, dict(lmax=num(LM)), lambda a: [
        np.array([a.lmax, a.nelem])])
    C["set_sht_calculator"] = (
        lambda calc_name: nmt.set_sht_calculator(calc_name) or [],
        dict(calc_name=num("ducc", bad=["", "Ducc", "libsharp", 0])), ident)
    C["set_n_iter_default"] = (
        lambda n_iter, mask: nmt.set_n_iter_default(n_iter, mask) or [],
        dict(n_iter=num(3, bad=[-1, float("nan")]), mask=flag(False)), ident)
    C["set_tol_pinv_default"] = (
        lambda tol_pinv: nmt.set_tol_pinv_default(tol_pinv) or [],
        dict(tol_pinv=num(1E-10, bad=[-1, 1.5, 2**31, float("nan"),
                                      float("inf")])), ident)
    C["_keep"] = keep
    return C


def state(K):
    """Observables of every object shared by the calls."""
    import pymaster as nmt
    S = []
    for k in ("f0", "f2", "fB", "fr"):
        f = K[k]
        S += [f.get_mask(), f.get_maps(), f.get_alms(), f.get_templates(),
              f.beam, f.get_mask_alms()]
    for k in ("w00", "w02", "w22", "wteb"):
        w = K[k]
        S += [w.get_coupling_matrix(), w.decouple_cell(
            np.ones([w.wsp.ncls, LM+1]))]
    S += [K["b"].get_effective_ells(), K["b"].bin_cell(np.arange(LM+1.))]
    for k in ("g0", "g2", "gz"):
        g = K[k]
        S += [g.get_mask(), g.get_maps(), g.get_templates()]
    S += [K["bf"].get_effective_ells()]
    for k in ("v00", "v02", "v22", "vz"):
        w = K[k]
        S += [w.couple_cell(np.arange(90.), np.ones([w.wsp.ncls, 90])),
              w.decouple_cell(np.ones([w.wsp.ncls, 3]))]
    S += [nmt.gaussian_covariance(K["cw"], 0, 0, 0, 0,
                                  *[np.ones([1, LM+1])]*4, K["w00"]),
          nmt.gaussian_covariance_flat(K["cf"], 0, 0, 0, 0, np.arange(90.),
                                       *[np.ones([1, 90])]*4, K["vz"])]
    S += [np.array([v for v in nmt.get_default_params().values()
                    if not isinstance(v, str)], dtype=float)]
    return [np.array(x) for x in S]


def cases(tier, seed):
    for n in NAMES:
        yield dict(t="single", name=n)
        yield dict(t="joint", name=n)
        for i in range(2 if tier == "quick" else 8):
            yield dict(t="pair", name=n, i=i, of=2 if tier == "quick" else 8,
                       full=tier != "quick")
    for n in OBJECTS:
        for how in ("copy", "deepcopy", "pickle"):
            for first in ("copy", "original"):
                yield dict(t="copies", name=n, how=how, first=first)


OBJECTS = ("NmtField", "NmtFieldCatalog", "NmtBin", "NmtBinFlat",
           "NmtFieldFlat", "NmtWorkspace", "NmtWorkspaceFlat",
           "NmtCovarianceWorkspace", "NmtCovarianceWorkspaceFlat")
NAMES = """
AlmInfo MapInfo MapInfoHP NmtBin NmtBin.edges NmtBin.lmax NmtBin.nside
NmtBinFlat NmtField0 NmtField2 NmtField2B NmtFieldA NmtFieldCAR
NmtFieldCatalog NmtFieldCatalogClustering NmtFieldCatalogPos NmtFieldFlat0
NmtFieldFlat2 NmtFieldFlat2B NmtFieldFlatM NmtFieldFlatin NmtFieldFlatl
NmtFieldM NmtFieldin NmtFieldCatalogM NmtFieldCatalogDeg ClusteringPos
ClusteringDeg synfast_car apoC1 apoC2 apoSmooth apoflatC1 apoflatC2 apoflatSmooth
bin_cell compute_coupled_cell compute_coupling_matrix compute_full_master
compute_full_masterW couple_cell00 couple_cell02 couple_cellteb coupled_flat
cov cov-coupled cov.Flat.write_to cov.flat cov.flat.compute cov.from_fields
cov.pace.write_to decouple_cell00 decouple_cell02 decouple_cellteb
deprojection_bias02 deprojection_biasBB deprojection_bias_flat
deprojection_biasrr field.get_alms field.get_anisotropic_mask
field.get_anisotropic_mask_alms field.get_maps field.get_mask
field.get_mask_alms field.get_templates flat.bin_cell flat.compute-teb
flat.compute_coupling_matrix flat.couple_cell00 flat.couple_cell02
flat.decouple_cell00 flat.decouple_cell02 flat.get_effective_ells
flat.get_ell_sampling flat.get_maps flat.get_mask flat.get_templates
flat.unbin_cell flat.write_to from_fields-FKP from_fields-teb from_fields0
from_fields1 full_flat full_flatW get_bandpower_windows get_coupling_matrix
get_effective_ells get_ell_list get_ell_max get_ell_min get_n_bands
get_nell_list get_weight_list noise_bias02 noise_biasBB noise_biasrr pinv read
reform_map reform_mapHP set_n_iter_default set_sht_calculator
set_tol_pinv_default synfast_flat synfast_spherical unbin_cell update_beams
update_bins update_coupling_matrix write_to
""".split()


def fresh(name):
    """(object of that class, function giving its observables)."""
    import pymaster as nmt
    r = np.random.RandomState(5)
    m = 0.2+r.rand(48)
    b = nmt.NmtBin.from_lmax_linear(LM, 3)
    f = nmt.NmtField(m, r.randn(2, 48), lmax=LM, lmax_mask=LM)
    bf = nmt.NmtBinFlat([1., 40.], [40., 80.])
    g = nmt.NmtFieldFlat(0.2, 0.2, 0.2+r.rand(6, 6), r.randn(2, 6, 6))
    c = np.ones((4, LM+1))
    if name == "NmtField":
        return f, lambda x: [x.get_alms(), x.get_maps(), x.get_mask_alms(),
                             nmt.compute_coupled_cell(x, x),
                             float(x.is_compatible(f))]
    if name == "NmtFieldCatalog":
        p = np.array([r.rand(9)*3, r.rand(9)*6])
        return nmt.NmtFieldCatalog(p, r.rand(9), r.randn(1, 9), lmax=LM), \
            lambda x: [x.get_alms(), x.Nf, x.Nw,
                       nmt.compute_coupled_cell(x, x)]
    if name == "NmtBin":
        return b, lambda x: [x.get_effective_ells(), x.bin_cell(c)]
    if name == "NmtBinFlat":
        return bf, lambda x: [x.get_effective_ells()]
    if name == "NmtFieldFlat":
        return g, lambda x: [x.get_maps(), x.get_mask(),
                             x.get_ell_sampling()]
    if name == "NmtWorkspace":
        return nmt.NmtWorkspace.from_fields(f, f, b), lambda x: [
            x.get_coupling_matrix(), x.decouple_cell(c)]
    if name == "NmtCovarianceWorkspace":
        w = nmt.NmtWorkspace.from_fields(f, f, b)
        return nmt.NmtCovarianceWorkspace.from_fields(f, f), lambda x: [
            nmt.gaussian_covariance(x, 2, 2, 2, 2, c, c, c, c, w)]
    w = nmt.NmtWorkspaceFlat()
    w.compute_coupling_matrix(g, g, bf)
    if name == "NmtWorkspaceFlat":
        return w, lambda x: [x.decouple_cell(np.ones((4, 2)))]
    cw = nmt.NmtCovarianceWorkspaceFlat()
    cw.compute_coupling_coefficients(g, g, bf)
    c = np.ones((4, 50))
    return cw, lambda x: [nmt.gaussian_covariance_flat(
        x, 2, 2, 2, 2, np.arange(50.), c, c, c, c, w)]


def run_copies(case, ctx):
    """A copy is refused or independent of the original."""
    import copy
    import gc
    import pickle
    o, see = fresh(case["name"])
    want = [np.array(x) for x in see(o)]
    how = {"copy": copy.copy, "deepcopy": copy.deepcopy,
           "pickle": lambda x: pickle.loads(pickle.dumps(x))}[case["how"]]
    try:
        c = how(o)
    except Exception as e:
        c, err = None, type(e).__name__
    else:
        err = "copied"
        for x, w in zip(see(c), want):
            ctx.close("copy:"+case["name"], x, w, rtol=1e-12)
    if c is not None:
        if case["first"] == "copy":
            del c
        else:
            o = c
            del c
    gc.collect()
    junk = [np.full(n, 7e77) for n in (1, 3, 20, 100, 400, 1000)]
    for x, w in zip(see(o), want):
        ctx.close("copy:"+case["name"], x, w, rtol=1e-12,
                  detail="after the other was deleted")
    del o, junk
    gc.collect()
    ctx.evaluated([case["name"], case["how"], case["first"]], err)
    ctx.sample(case)


def run(case, ctx):
    if case["t"] == "copies":
        return run_copies(case, ctx)
    T = table()
    fn, args, observe = T[case["name"]]
    import pymaster as nmt
    ref = [np.array(x) for x in observe(fn(**valid(args)))]
    S0 = state(T["_keep"])
    if case["t"] == "single":
        ctx.check(set(T)-{"_keep"} == set(NAMES), "harness-table",
                  lambda: str(set(T) ^ set(NAMES)))
        for n in sorted(args):
            for nm, val, must in faults(*args[n]):
                attempt(case["name"], ctx, fn, args, observe,
                        {n: (nm, val, must)}, ref)
    elif case["t"] == "joint":
        # every axis of one length in every argument changed together
        ax = {}
        for n in sorted(args):
            if args[n][0] == "arr":
                for k, m in enumerate(args[n][1].shape):
                    ax.setdefault(m, []).append((n, k))
        for m in sorted(ax):
            for new in (0, 1, 2, m-1, m+1, 2*m):
                if new == m or new < 0:
                    continue
                names = sorted({n for n, k in ax[m]})
                for r in range(2, len(names)+1):
                    for sub in itertools.combinations(names, r):
                        fs = {}
                        for n in sub:
                            v = args[n][1]
                            for n1, k in ax[m]:
                                if n1 == n:
                                    v = resize(v, k, new)
                            fs[n] = ("%d->%d" % (m, new), v, False)
                        attempt(case["name"], ctx, fn, args, observe, fs,
                                ref)
    else:
        many = []
        for n in sorted(args):
            fs = faults(*args[n])
            if not case["full"]:  # shapes, objects and ranges only
                fs = [x for x in fs if x[0].rstrip("0123456789") in (
                    "none", "short", "long", "half", "double", "flat",
                    "swapped", "lessdim", "moredim", "bad", "may", "empty")
                    or x[0][:4] == "bad:"]
            many.append([(n, x) for x in fs])
        todo = [(x, y) for a, c in itertools.combinations(many, 2)
                for x in a for y in c]
        for x, y in todo[case["i"]::case["of"]]:
            attempt(case["name"], ctx, fn, args, observe, dict([x, y]), ref)
    S = state(T["_keep"])
    bad = [i for i, (a, b) in enumerate(zip(S, S0)) if a.shape != b.shape or
           not np.allclose(a, b, rtol=0, atol=1e-11*np.max(np.abs(b), initial=0))]
    ctx.check(not bad, "objects-damaged", "after faulty calls of %s: %s" % (
        case["name"], bad))
    ctx.sample(case)


def valid(args):
    return {n: (a[1].copy() if isinstance(a[1], np.ndarray) else a[1])
            for n, a in args.items()}


def attempt(name, ctx, fn, args, observe, fs, ref):
    import pymaster as nmt
    a = valid(args)
    det = "%s(%s)" % (name, ", ".join("%s=%s" % (n, f[0])
                                      for n, f in sorted(fs.items())))
    for n, f in fs.items():
        a[n] = f[1]
    print(det, file=sys.stderr, flush=True)
    got = err = None
    try:
        got = fn(**a)
    except Exception as e:
        err = e
    out = None
    if err is None:
        try:  # what it returned must be usable or refuse
            out = [np.array(x) for x in observe(got)]
        except Exception as e:
            out = repr(e)[:60]
    must = len(fs) == 1 and list(fs.values())[0][2]
    ctx.check(err is not None or not must, "accepted:%s:%s" % (
        name, "+".join(sorted(fs))), lambda: "%s accepted, gives %s" % (
            det, str(out)[:300]))
    if err is None and isinstance(out, list) and not any(
            f[0] in ("may:2147483648", "may:-1099511627776") for f in
            fs.values()):
        for x in out:  # marker of memory nobody wrote
            if x.dtype.kind in "fc" and x.size:
                z = np.abs(x[np.isfinite(x)])
                ctx.check(not np.any(z > 1e290), "uninitialised:"+name,
                          "%s returns %s" % (det, x))
    if "calculator" not in name and name.startswith("set_"):
        # accepted values of the defaults are put back
        nmt.set_n_iter_default(3)
        nmt.set_n_iter_default(3, mask=True)
        nmt.set_tol_pinv_default(1E-10)
    ctx.evaluated(det, type(err).__name__ if err is not None else
                  ("%s" % det), nontrivial=err is not None)
    # the next valid call is not affected
    try:
        again = observe(fn(**valid(args)))
    except Exception as e:
        ctx.fail("valid-call-after-refusal:"+name, "%s then %r" % (det, e))
        return
    for i, (g, w) in enumerate(zip(again, ref)):
        ctx.close("valid-call-after-refusal:"+name, g, w, rtol=1e-10,
                  detail="after %s result %d" % (det, i))
    ctx.trace()
