"""P32: results depend only on the arguments of the calls made."""
import gc
import itertools
import os
import pickle
import sys
import traceback
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("exhaustive exploration of bounded histories on the real code: "
             "every ordered pair of configurations that differ from a base in "
             "one parameter is executed in one process (objects kept, "
             "dropped, buffers refilled in place, and interleaved with every "
             "single preemption point), and compared with executions of each "
             "configuration alone in a fresh process")
RULE = ("Ten pipelines through the public interface; configurations: the base "
        "and each alternative of each parameter (values, sizes, spins, "
        "options); histories: all ordered pairs of configurations x {objects "
        "kept, dropped, same buffers refilled}; interleavings: first k steps "
        "of one, all of the other, the rest, for every k and every pair with "
        "the base (thorough: every ordered pair). In the quick tier the pairs of one "
        "configuration follow each other in one process, in the thorough tier "
        "each also runs in a process of its own. "
        "+big: larger sizes, pairs with the base. "
        "Reference: a fresh process. Non-trivial: the two configurations "
        "differ.")
ASSUMES = ["results of one process are reproducible to 1e-10"]
KINDS = ["omp"]
MIN_EVAL = 3000
CASE_TIMEOUT = 600


SEED = [1]


def setup_worker(tier, seed):
    SEED[0] = seed


# --- values ----------------------------------------------------------------

def rnd(tag, *shape):
    """Numbers determined by the tag."""
    s = (sum((i+1)*ord(c)*7919 for i, c in enumerate(str(tag))) +
         10**6*SEED[0]) % (2**31)
    return np.random.RandomState(s).rand(*shape)


class Buf(object):
    """Where arrays handed to the library live."""

    def __init__(self, inplace):
        self.inplace, self.d = inplace, {}

    def __call__(self, key, v):
        v = np.array(v)
        if self.inplace:
            k = (key, v.shape, v.dtype.str)
            if k in self.d:
                self.d[k][...] = v
            else:
                self.d[k] = v
            return self.d[k]
        return v


class P(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def nm(s):
    return 1 if s == 0 else 2


# --- pipelines: parameters (first: base) and steps -------------------------

PIPES = {}


def pipe(**par):
    def dec(fn):
        PIPES[fn.__name__] = (par, fn)
        return fn
    return dec


@pipe(nside=[2, 4], lmax=[5, 4], lmax_mask=[5, 4], mask="abc", maps="ab",
      temp=["a", "b", None], beam=["a", "b"], spin=[2, 0, 1],
      pure=[(0, 0), (1, 0), (0, 1), (1, 1)], n_iter=[0, 2], n_iter_mask=[0, 3],
      tol=[1e-10, 0.3], moi=[False, True], lite=[False, True], nlb=[2, 3],
      guess="ab")
def field(p, nmt, A):
    npix = 12*p.nside**2
    n = nm(p.spin)
    pu = p.pure if p.spin == 2 else (0, 0)
    m = A("m", (0.2+rnd(p.mask, npix))*(np.arange(npix) % 7 != 3))
    t = None
    if p.temp:
        t = rnd("t"+p.temp, 2, n, npix)-0.5
        t[1] = t[0]+0.1*t[1]
        t = A("t", t)
    d = rnd("d"+p.maps, n, npix)-0.5
    beam = A("b", 0.3+rnd("B"+p.beam, p.lmax+1))
    f = nmt.NmtField(m, A("d", d), templates=t, beam=beam, spin=p.spin,
                     purify_e=bool(pu[0]), purify_b=bool(pu[1]),
                     n_iter=p.n_iter, n_iter_mask=p.n_iter_mask,
                     lmax=p.lmax, lmax_mask=p.lmax_mask, tol_pinv=p.tol,
                     masked_on_input=p.moi, lite=p.lite)
    yield f, [f.get_alms(), f.get_mask_alms(), f.get_mask()] + (
        [] if p.lite else [f.get_maps(), f.get_templates()] if p.temp else
        [f.get_maps()])
    g = nmt.NmtField(A("gm", 0.2+rnd("gm", npix)),
                     A("gd", rnd("gd", 1, npix)), n_iter=p.n_iter,
                     lmax=p.lmax, lmax_mask=p.lmax_mask,
                     n_iter_mask=p.n_iter_mask)
    cl = nmt.compute_coupled_cell(f, g)
    yield g, [cl]
    b = nmt.NmtBin.from_lmax_linear(p.lmax, p.nlb)
    w = nmt.NmtWorkspace.from_fields(f, g, b)
    yield (w, b), [w.get_coupling_matrix()]
    gs = A("q", rnd("q"+p.guess, cl.shape[0], p.lmax+1))
    yield None, [w.decouple_cell(cl), w.couple_cell(gs),
                 w.get_bandpower_windows(), b.get_effective_ells()] + (
        [] if p.lite else [nmt.compute_full_master(f, g, b, cl_guess=gs)])
    if p.temp and not p.lite:
        yield None, [nmt.deprojection_bias(f, g, gs, n_iter=p.n_iter)]
        v = A("v", rnd("v"+p.guess, npix))
        yield None, [nmt.uncorr_noise_deprojection_bias(
            f, v, n_iter=p.n_iter)]
    yield None, [f.get_alms(), w.get_coupling_matrix()]


@pipe(nside=[2], mask="ab", m22="ab", m12="ab", maps="ab", lmax=[5, 4],
      spin=[2, 1],
      n_iter=[0, 2], who=["both", "first", "second"])
def aniso(p, nmt, A):
    npix = 12*p.nside**2
    kw = dict(lmax=p.lmax, lmax_mask=p.lmax, n_iter=p.n_iter,
              n_iter_mask=p.n_iter, spin=p.spin)
    fs = []
    for i in "12":
        k = dict(kw)
        if p.who in ("both", {"1": "first", "2": "second"}[i]):
            k.update(mask_22=A("m22"+i, 0.5+rnd(p.m22+i, npix)),
                     mask_12=A("m12"+i, 0.1*rnd("z"+p.m12+i, npix)))
        fs.append(nmt.NmtField(A("m"+i, 0.5+rnd("m"+p.mask+i, npix)),
                               A("d"+i, rnd("d"+p.maps+i, 2, npix)-0.5), **k))
        yield fs[-1], [fs[-1].get_alms(), fs[-1].get_mask_alms()] + (
            [x for x in fs[-1].get_anisotropic_mask_alms()]
            if "mask_22" in k else [])
    b = nmt.NmtBin.from_lmax_linear(p.lmax, 2)
    w = nmt.NmtWorkspace.from_fields(fs[0], fs[1], b)
    yield w, [w.get_coupling_matrix()]
    yield None, [nmt.compute_full_master(fs[0], fs[1], b)]


@pipe(shape=[(6, 11), (7, 11), (6, 10), (11, 6)], dth=[14, 12, 13], dph=[14, 16], th0=[1, 2],
      ph0=[20., 10.], sx=[1, -1], sy=[-1, 1], ra0=[100., 120.], mask="ab",
      maps="ab", temp=["a", "b"], lmax=[5, 4], n_iter=[0, 1], spin=[2, 0])
def car(p, nmt, A):
    from nmc import lib as L
    wcs, sh = L.car_wcs(p.dth, p.dph, p.sx, p.sy, ra0=p.ra0, theta0=p.th0,
                        ny=p.shape[0], nx=p.shape[1], phi_start=p.ph0)
    mi = nmt.NmtMapInfo(wcs, sh)
    yield mi, [np.array([mi.npix, mi.nring, mi.theta_min, mi.d_theta,
                         mi.phi0, mi.d_phi, mi.get_lmax()])
               if hasattr(mi, "nring") else np.array([mi.npix]),
               np.array(mi.reform_map(A("r", rnd("r", 1, *sh))))]
    n = nm(p.spin)
    f = nmt.NmtField(A("m", 0.2+rnd("m"+p.mask, *sh)),
                     A("d", rnd("d"+p.maps, n, *sh)-0.5),
                     templates=A("t", rnd("t"+p.temp, 1, n, *sh)-0.5),
                     wcs=wcs, spin=p.spin, lmax=p.lmax, lmax_mask=p.lmax,
                     n_iter=p.n_iter, n_iter_mask=p.n_iter)
    yield f, [f.get_alms(), f.get_mask_alms(), f.get_maps(), f.get_mask(),
              f.get_templates()]
    b = nmt.NmtBin.from_lmax_linear(p.lmax, 2)
    w = nmt.NmtWorkspace.from_fields(f, f, b)
    yield w, [w.get_coupling_matrix(), nmt.compute_coupled_cell(f, f)]
    gs = A("q", rnd("q", n*n, p.lmax+1))
    yield None, [nmt.deprojection_bias(f, f, gs, n_iter=p.n_iter),
                 nmt.uncorr_noise_deprojection_bias(
                     f, A("v", rnd("v", *sh)), n_iter=p.n_iter)]
    yield None, [f.get_alms()]


@pipe(n=[9, 12], pos="ab", weights="ab", field="ab", lmax=[5, 4],
      lmax_mask=[5, 6], spin=[2, 0], beam=["a", "b"], lonlat=[False, True],
      rand="ab", nrand=[20], clustering=[False, True])
def catalogue(p, nmt, A):
    pos = np.array([2.9*rnd("x"+p.pos, p.n), 6.2*rnd("y"+p.pos, p.n)])
    rp = np.array([2.9*rnd("x"+p.rand, p.nrand),
                   6.2*rnd("y"+p.rand, p.nrand)])
    if p.lonlat:
        pos, rp = [np.array([np.degrees(z[1]), 90-np.degrees(z[0])])
                   for z in (pos, rp)]
    wt = A("w", 0.2+rnd("w"+p.weights, p.n))
    if p.clustering:
        f = nmt.NmtFieldCatalogClustering(
            A("p", pos), wt, A("rp", rp), A("rw", 0.2+rnd("rw"+p.rand,
                                                       p.nrand)), p.lmax, lonlat=p.lonlat)
    else:
        f = nmt.NmtFieldCatalog(
            A("p", pos), wt, A("f", rnd("f"+p.field, nm(p.spin), p.n)-0.5),
            p.lmax, lmax_mask=p.lmax_mask, spin=p.spin,
            beam=A("b", 0.3+rnd("B"+p.beam, p.lmax+1)), lonlat=p.lonlat)
    yield f, [f.get_alms(), f.get_mask_alms(), np.array([f.Nf, f.Nw])]
    yield None, [nmt.compute_coupled_cell(f, f)]
    b = nmt.NmtBin.from_lmax_linear(p.lmax, 3)
    w = nmt.NmtWorkspace.from_fields(f, f, b)
    yield w, [w.get_coupling_matrix()]
    yield None, [f.get_alms(), nmt.compute_coupled_cell(f, f)]


@pipe(n=[9], how=["edges", "linear", "dell"], lmax=[9, 10], nlb=[3, 4],
      weights="ab", fell=["a", "b", None], cl="ab", l0="ab")
def bins(p, nmt, A):
    n = p.n
    if p.how == "edges":
        b = nmt.NmtBin(bpws=A("B", np.arange(n)//p.nlb),
                       ells=A("L", np.arange(n)+(1 if p.l0 == "a" else 2)),
                       weights=A("W", 0.2+rnd("W"+p.weights, n)),
                       lmax=p.lmax, f_ell=None if p.fell is None else
                       A("F", 0.3+rnd("F"+p.fell, n)))
    else:
        b = nmt.NmtBin.from_lmax_linear(p.lmax, p.nlb,
                                        is_Dell=p.how == "dell")
    k = b.get_n_bands()
    yield b, [b.get_effective_ells(), b.get_nell_list()]
    yield None, [b.bin_cell(A("c", rnd("c"+p.cl, 2, p.lmax+1))),
                 b.unbin_cell(A("u", rnd("u"+p.cl, 2, k)))]
    yield None, [x for i in range(k) for x in (
        b.get_ell_list(i), b.get_weight_list(i), b.get_ell_min(i),
        b.get_ell_max(i))]
    e = np.arange(0, 60, 10.+p.nlb)+(0 if p.l0 == "a" else 3)
    bf = nmt.NmtBinFlat(A("e0", e[:-1]), A("e1", e[1:]))
    ells = A("fl", np.arange(2., 70, 1.5 if p.fell == "a" else 1.25))
    yield bf, [bf.get_effective_ells(),
               bf.bin_cell(ells, A("fc", rnd("fc"+p.cl, 1, len(ells))))]
    yield None, [bf.unbin_cell(A("fu", rnd("fu"+p.cl, 1, len(e)-1)), ells)]


def pair(p, nmt, A, s1, s2, lmax, lmm):
    npix = 12*p.nside**2
    kw = dict(lmax=lmax, lmax_mask=lmm, n_iter=0, n_iter_mask=0)
    out = []
    for i, s, m in (("1", s1, p.m1), ("2", s2, p.m2)):
        out.append(nmt.NmtField(
            A("m"+i, 0.2+rnd("m"+i+m, npix)),
            A("d"+i, rnd("d"+i, nm(s), npix)-0.5), spin=s,
            beam=A("b"+i, 0.3+rnd("b"+i+p.beam, lmax+1)),
            purify_b=bool(s == 2 and p.pure), **kw))
    return out


@pipe(nside=[2], m1="ab", m2="ab",
      spins=[(0, 2), (0, 0), (2, 2), (1, 2)], lmax=[6, 5],
      lmm=[6, 8], beam="ab", pure=[0, 1], nlb=[2, 3], teb=[0, 1],
      norm=["MASTER", "FKP"], toep=[None, (4, 2, 2), (3, 2, 1)],
      newbeam=["a", "b", None], newbins=[3, 2, None], newmat=[None, "a", "b"],
      noise="ab", fname="ab", unbinned=[True, False])
def workspace(p, nmt, A):
    f1, f2 = pair(p, nmt, A, *p.spins, p.lmax, p.lmm)
    b = nmt.NmtBin.from_lmax_linear(p.lmax, p.nlb)
    tz = dict(zip(("l_toeplitz", "l_exact", "dl_band"), p.toep)) \
        if p.toep else {}
    teb = bool(p.teb) and p.spins == (0, 2) and not p.pure
    w = nmt.NmtWorkspace.from_fields(f1, f2, b, is_teb=teb,
                                     normalization=p.norm, **tz)
    n = w.wsp.ncls
    c = A("c", rnd("c"+p.noise, n, p.lmax+1))
    z = A("z", rnd("z"+p.noise, n, p.lmax+1))

    def see(x):
        return [x.get_coupling_matrix(), x.couple_cell(c),
                x.get_bandpower_windows(), x.decouple_cell(c, cl_noise=z)]
    yield (w, b, f1, f2), see(w)
    fn = p.fname+".fits"
    w.write_to(fn)
    x = nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=p.unbinned)
    yield x, see(x) if p.unbinned else [x.decouple_cell(c, cl_noise=z)]
    if p.newmat:
        w.update_coupling_matrix(A("M", w.get_coupling_matrix()*(
            0.9+0.2*rnd("M"+p.newmat, n*(p.lmax+1), n*(p.lmax+1)))))
        yield None, see(w)
    if p.newbeam:
        w.update_beams(A("n1", 0.3+rnd("n"+p.newbeam, p.lmax+1)),
                       A("n2", 0.3+rnd("N"+p.newbeam, p.lmax+1)))
        yield None, see(w)
    if p.newbins:
        b = nmt.NmtBin.from_lmax_linear(p.lmax, p.newbins)
        w.update_bins(b)
        yield b, see(w)
    yield None, [w.get_coupling_matrix()] + (
        [x.get_coupling_matrix()] if p.unbinned else [])


@pipe(nside=[2], m1="ab", m2="ab", lmax=[6, 5], lmm=[6, 8], beam="ab", nlb=[2, 3],
      only0=[False, True], cl="ab", toep=[None, (4, 2, 2)],
      order=["1212", "1122", "1221"], fname="ab", coupled=[False, True],
      spins=[(0, 2), (0, 0), (2, 2)], pure=[0])
def covariance(p, nmt, A):
    f = dict(zip("12", pair(p, nmt, A, *p.spins, p.lmax, p.lmm)))
    b = nmt.NmtBin.from_lmax_linear(p.lmax, p.nlb)
    s = dict(zip("12", p.spins))
    if p.only0:
        s = dict.fromkeys("12", 0)
    o = [f[i] for i in p.order]
    wf = lambda i, j: nmt.NmtWorkspace.from_fields(f[i], f[j], b)
    if s == dict(zip("12", p.spins)):
        wa, wb = wf(p.order[0], p.order[1]), wf(p.order[2], p.order[3])
    else:
        z = pair(p, nmt, A, 0, 0, p.lmax, p.lmm)
        wa = wb = nmt.NmtWorkspace.from_fields(z[0], z[1], b)
    yield (f, b, wa, wb), []
    tz = dict(zip(("l_toeplitz", "l_exact", "dl_band"), p.toep)) \
        if p.toep else {}
    c = nmt.NmtCovarianceWorkspace.from_fields(*o, spin0_only=p.only0, **tz)
    q = [A("c%d" % i, rnd("c%d%s" % (i, p.cl), nm(s[p.order[x]]) *
                          nm(s[p.order[y]]), p.lmax+1))
         for i, (x, y) in enumerate(((0, 2), (0, 3), (1, 2), (1, 3)))]
    go = lambda x: nmt.gaussian_covariance(
        x, *[s[i] for i in p.order], *q, wa, wb, coupled=p.coupled)
    yield c, [go(c)]
    c.write_to(p.fname+".fits")
    d = nmt.NmtCovarianceWorkspace.from_file(p.fname+".fits")
    yield d, [go(d)]
    yield None, [go(c)]


@pipe(shape=[(6, 8), (8, 6), (6, 7), (9, 8)],
      size=[(0.5, 0.4), (0.4, 0.5), (0.7, 0.4), (0.5, 0.3)], mask="ab",
      maps="ab", temp=["a", "b", None], beam=["a", "b", None],
      spin=[2, 0, 1], pure=[(0, 0), (1, 0), (0, 1)], moi=[False, True],
      lite=[False, True], tol=[1e-10, 0.3], bands="abc", cutx=[None, "a", "b"],
      cuty=[None, "a"], guess="ab", lg=[90, 120], teb=[0, 1], fname="ab")
def flat(p, nmt, A):
    n = nm(p.spin)
    sh = p.shape
    t = None
    if p.temp:
        t = rnd("t"+p.temp, 2, n, *sh)-0.5
        t[1] = t[0]+0.1*t[1]
        t = A("t", t)
    bm = None if p.beam is None else A("b", np.array(
        [np.arange(120.), 0.3+rnd("b"+p.beam, 120)]))
    pu = p.pure if p.spin == 2 else (0, 0)
    f = nmt.NmtFieldFlat(*p.size, A("m", 0.2+rnd("m"+p.mask, *sh)),
                         A("d", rnd("d"+p.maps, n, *sh)-0.5), templates=t,
                         beam=bm, spin=p.spin, purify_e=bool(pu[0]),
                         purify_b=bool(pu[1]), tol_pinv=p.tol,
                         masked_on_input=p.moi, lite=p.lite)
    yield f, [f.get_mask(), f.get_ell_sampling()] + (
        [] if p.lite else [f.get_maps()]+([f.get_templates()] if p.temp
                                          else []))
    g = nmt.NmtFieldFlat(*p.size, A("gm", 0.2+rnd("gm", *sh)),
                         A("gd", rnd("gd", 1, *sh)-0.5))
    e = np.array(dict(a=[0., 14., 27., 60.], b=[0., 16., 27., 60.],
                      c=[0., 14., 27.])[p.bands])
    b = nmt.NmtBinFlat(A("e0", e[:-1]), A("e1", e[1:]))
    kw = {}
    if p.cutx:
        kw["ell_cut_x"] = [-5., dict(a=5., b=2.)[p.cutx]]
    if p.cuty:
        kw["ell_cut_y"] = [14., 22.]
    cl = nmt.compute_coupled_cell_flat(f, g, b, **kw)
    yield (g, b), [cl]
    teb = p.teb and p.spin == 2 and pu == (0, 0)
    w = nmt.NmtWorkspaceFlat()
    if teb:
        w.compute_coupling_matrix(g, f, b, is_teb=True, **kw)
    else:
        w.compute_coupling_matrix(f, g, b, **kw)
    k = w.wsp.ncls
    l = A("l", np.arange(float(p.lg)))
    gs = A("q", rnd("q"+p.guess, k, p.lg))
    c1 = A("c1", rnd("c1", k, len(e)-1))
    see = lambda x: [x.couple_cell(l, gs), x.decouple_cell(c1)]
    yield w, see(w)
    w.write_to(p.fname+".fits")
    x = nmt.NmtWorkspaceFlat()
    x.read_from(p.fname+".fits")
    yield x, see(x)
    if p.temp and not p.lite:
        yield None, [nmt.deprojection_bias_flat(f, g, b, l, gs[:n], **kw)]
    if not teb and not p.lite:
        yield None, [nmt.compute_full_master_flat(f, g, b, **kw)]
    yield None, see(w)


@pipe(m1="ab", m2="ab", shape=[(6, 8), (8, 6), (6, 7)],
      size=[(0.5, 0.4), (0.4, 0.5), (0.7, 0.4)], bands="ab", cl="ab",
      lg=[90, 120], order=["1212", "1122", "1221"], spins=[(0, 2), (0, 0)],
      fname="ab")
def covflat(p, nmt, A):
    sh = p.shape
    f = {}
    for i, s, m in (("1", p.spins[0], p.m1), ("2", p.spins[1], p.m2)):
        f[i] = nmt.NmtFieldFlat(*p.size, A("m"+i, 0.2+rnd("m"+i+m, *sh)),
                                A("d"+i, rnd("d"+i, nm(s), *sh)), spin=s)
    e = np.array(dict(a=[0., 14., 27., 60.], b=[0., 16., 27., 60.])[p.bands])
    b = nmt.NmtBinFlat(A("e0", e[:-1]), A("e1", e[1:]))
    o = [f[i] for i in p.order]
    s = [dict(zip("12", p.spins))[i] for i in p.order]
    ww = []
    for i in (0, 2):
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(o[i], o[i+1], b)
        ww.append(w)
    yield (f, b, ww), []
    c = nmt.NmtCovarianceWorkspaceFlat()
    c.compute_coupling_coefficients(o[0], o[1], b, flb1=o[2], flb2=o[3])
    l = A("l", np.arange(float(p.lg)))
    q = [A("c%d" % i, rnd("c%d%s" % (i, p.cl), nm(s[x])*nm(s[y]), p.lg))
         for i, (x, y) in enumerate(((0, 2), (0, 3), (1, 2), (1, 3)))]
    go = lambda x: nmt.gaussian_covariance_flat(x, *s, l, *q, ww[0], ww[1])
    yield c, [go(c)]
    c.write_to(p.fname+".fits")
    d = nmt.NmtCovarianceWorkspaceFlat()
    d.read_from(p.fname+".fits")
    yield d, [go(d)]
    yield None, [go(c)]


@pipe(nside=[4, 8], hole="abc", apos=[20., 30.], ap=["C1", "C2", "Smooth"],
      lx=[0.5, 0.7], shape=[(9, 8), (8, 9)], seed=[5, 6], cls="ab",
      lmax=[6, 5], beam=["a", "b", None], spins=[(0, 2), (0, 0), (2, 2)],
      sim=["hp", "car", "car2"], tol=[1e-3, 0.4], mat="ab")
def tools(p, nmt, A):
    from nmc import lib as L
    npix = 12*p.nside**2
    h = (rnd("h"+p.hole, 12)[nest(p.nside)] > 0.4)*1.
    yield None, [nmt.mask_apodization(A("m", h*(1+(p.hole == "c"))), p.apos,
                                      p.ap)]
    hf = rnd("h"+p.hole, 9, 9)[:p.shape[0], :p.shape[1]] > 0.15
    yield None, [nmt.mask_apodization_flat(A("mf", hf*1.), p.lx, 0.4,
                                           p.apos/4, p.ap)]
    n = sum(nm(s) for s in p.spins)
    r = 0.1*rnd("r"+p.cls, p.lmax+1, n, n)
    r = np.einsum("lij,lkj->ikl", r, r)
    iu = [(i, j) for i in range(n) for j in range(i, n)]
    c = np.array([r[i, j] for i, j in iu])
    bm = None if p.beam is None else A("b", 0.3+rnd(
        "b"+p.beam, len(p.spins), p.lmax+1))
    if p.sim == "hp":
        yield None, [nmt.synfast_spherical(
            p.nside, A("c", c), list(p.spins), beam=bm, seed=p.seed,
            lmax=p.lmax)]
    else:
        wcs = L.car_wcs(9, 14, -1, 1, theta0=0,
                        ny=10 if p.sim == "car" else 11)[0] \
            if p.sim == "car" else L.car_wcs(10, 20, -1, 1, theta0=0,
                                             ny=18)[0]
        yield None, [nmt.synfast_spherical(
            None, A("c", c), list(p.spins), beam=bm, seed=p.seed, wcs=wcs,
            lmax=p.lmax)]
    bf = None if p.beam is None else A("bf", 0.3+rnd(
        "b"+p.beam, len(p.spins), 120))
    yield None, [nmt.synfast_flat(
        p.shape[1], p.shape[0], p.lx, 0.4,
        A("cf", np.repeat(c, -(-120//c.shape[1]), axis=1)[:, :120]),
        list(p.spins), beam=bf, seed=p.seed)]
    v = np.linalg.qr(rnd("q"+p.mat, 3, 3))[0]
    yield None, [nmt.moore_penrose_pinvh(
        A("M", (v*[1., 0.2, 1e-5]).dot(v.T)), p.tol)]
    ai = nmt.NmtAlmInfo(p.lmax)
    mi = nmt.NmtMapInfo(None, [npix])
    yield (ai, mi), [np.array([ai.nelem, ai.lmax, mi.npix, mi.get_lmax()])]


def nest(nside):
    """A coarse pixel for every pixel (blobs, not geometry)."""
    return (np.arange(12*nside**2)*12)//(12*nside**2)


# --- larger sizes ----------------------------------------------------------

BIG = dict(
    field=dict(nside=[32, 16], lmax=[40, 45], lmax_mask=[40, 45]),
    aniso=dict(nside=[16], lmax=[30, 35]),
    workspace=dict(nside=[16], lmax=[34, 40], lmm=[34, 45],
                   toep=[None, (14, 5, 5), (12, 5, 5)]),
    covariance=dict(nside=[16], lmax=[34, 40], lmm=[34, 45],
                    toep=[None, (14, 5, 5)]),
    car=dict(shape=[(60, 81), (70, 81), (60, 70)], dth=[140, 120],
             dph=[140, 160], lmax=[40, 35]),
    catalogue=dict(n=[900, 1200], lmax=[60, 50], lmax_mask=[60, 70],
                   nrand=[2000]),
    bins=dict(n=[1200], lmax=[1201, 1300], nlb=[3, 40]),
    flat=dict(shape=[(60, 48), (48, 60), (61, 48)]),
    covflat=dict(shape=[(36, 48), (48, 36), (36, 47)]),
    tools=dict(nside=[32, 16], lmax=[60, 50]))
for _k, _d in BIG.items():
    PIPES[_k+"+big"] = (dict(PIPES[_k][0], **_d), PIPES[_k][1])


# --- configurations --------------------------------------------------------

def configs(name):
    par = PIPES[name][0]
    out = [()]
    for k in sorted(par):
        out += [(k, i) for i in range(1, len(par[k]))]
    return out


def params(name, cfg):
    par = PIPES[name][0]
    d = {k: v[0] for k, v in par.items()}
    if cfg:
        d[cfg[0]] = par[cfg[0]][cfg[1]]
    return P(**d)


# --- executions ------------------------------------------------------------

def execute(job):
    """[results of each configuration], in this process."""
    import pymaster as nmt
    name, cfgs, mode = job[:3]
    fn = PIPES[name][1]
    A = Buf(mode == "inplace")
    cp = lambda r: [np.array(x) for x in r]
    kept, out = [], []
    if mode == "switch":
        k = job[3]
        g = [fn(params(name, c), nmt, A) for c in cfgs]
        res = [[] for c in cfgs]
        seq = [0]*k+[1]*99+[0]*99
        done = [False, False]
        for i in seq:
            if done[i]:
                continue
            try:
                o, r = next(g[i])
            except StopIteration:
                done[i] = True
                continue
            res[i].append(cp(r))
            kept.append(o)
        return res
    for c in cfgs:
        out.append([])
        for o, r in fn(params(name, c), nmt, A):
            out[-1].append(cp(r))
            if mode == "keep":
                kept.append(o)
            del o, r
        if mode == "drop":
            gc.collect()
    return out


def forked(job):
    """The same in a fresh process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                x = execute(job)
            except Exception:
                x = traceback.format_exc()[-1500:]
            with os.fdopen(w, "wb") as f:
                pickle.dump(x, f, protocol=4)
            os._exit(0)
        finally:
            os._exit(9)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if st:
        return "process ended with status %d" % st
    return pickle.loads(data)


_ref = {}


def reference(name, cfg, ctx):
    if (name, cfg) not in _ref:
        x = forked((name, [cfg], "keep"))
        _ref[name, cfg] = x if isinstance(x, str) else x[0]
    return _ref[name, cfg]


def same(a, b, rtol):
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b[np.isfinite(b)]), initial=0)
    return np.allclose(a, b, rtol=0, atol=rtol*s, equal_nan=True)


def cases(tier, seed):
    for name in sorted(PIPES):
        for c in configs(name):
            if name.endswith("+big") and c:
                continue
            yield dict(t="pair", name=name, first=list(c))
            if not c or tier != "quick":
                yield dict(t="switch", name=name, first=list(c))
            else:
                yield dict(t="switch", name=name, first=list(c), base=True)
            if tier != "quick":
                yield dict(t="alone", name=name, first=list(c))


def run(case, ctx):
    name, first = case["name"], tuple(case["first"])
    C = configs(name)
    if case["t"] == "switch" and name.endswith("+big"):
        jobs = [(name, [(), c], "switch", 1) for c in C]
    elif case["t"] == "alone" and name.endswith("+big"):
        jobs = []
    elif case["t"] == "pair":
        # one process: first, c1, first, c2, ...; later ones than the first
        seq = [first]
        for c in C[C.index(first)+1:]:
            seq += [c, first]
        jobs = [(name, seq, m) for m in ("keep", "drop", "inplace")]
    elif case["t"] == "alone":
        jobs = [(name, [first, c], m) for c in C
                for m in ("keep", "drop", "inplace")]
    else:
        jobs = []
        r = reference(name, first, ctx)
        n = len(r)
        for c in ([()] if case.get("base") else C):
            jobs += [(name, [first, c], "switch", k) for k in range(1, n)]
    for j in jobs:
        got = forked(j)
        want = [reference(name, c, ctx) for c in j[1]]
        say = ["base" if not c else "%s=%s" % (
            c[0], PIPES[name][0][c[0]][c[1]]) for c in j[1]]
        det = "%s %s (%s)" % (name, " then ".join(
            say if len(say) < 4 else say[:3]+["..."]),
            " ".join(map(str, j[2:])))
        bad = [x for x in want if isinstance(x, str)]
        if bad or isinstance(got, str):
            ctx.fail("failed:"+name, "%s: %s" % (det, bad[0] if bad else got))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            ok = len(g) == len(w)
            for k, (a, b) in enumerate(zip(g, w)):
                ok = ok and len(a) == len(b)
                for q, (x, y) in enumerate(zip(a, b)):
                    ctx.check(same(x, y, 1e-10), "history:"+name, lambda:
                              "%s: configuration %d (%s after %s), step %d, "
                              "result %d: %s "
                              "instead of %s" % (det, i, say[i], say[i-1] if i
                                                 else "nothing", k, q,
                                                 str(x)[:200], str(y)[:200]))
            ctx.check(ok, "history:"+name, det+": different steps")
        for a, b in zip(j[1], j[1][1:]):
            ctx.evaluated([name, a, b, j[2:]], nontrivial=a != b)
        ctx.trace()
    ctx.sample(case)
