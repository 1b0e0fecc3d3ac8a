"""P03: histories of workspace operations against a reference state machine."""
import itertools
import os
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: every operation sequence up to a "
             "depth over an alphabet of accepted and rejected operations is "
             "executed on the real objects, in lockstep with a reference "
             "state machine; every observable is compared in the last state")
RULE = ("All sequences up to the depth over the alphabet (compute of three "
        "kinds, beam, bin and matrix updates, write, read with and without "
        "the unbinned matrix, and rejected variants of each), from a fresh "
        "object, for curved and flat workspaces and both covariance "
        "workspaces; the last operation's outcome (accepted/refused) and all "
        "observables afterwards are compared with the reference machine. "
        "Non-trivial: the final state is initialised.")
ASSUMES = ["reference results come from a numpy model of binning/inversion "
           "applied to the matrix of a freshly built workspace"]
MIN_EVAL = 3000

CURVED = ["cA", "cB", "cF", "cBadNorm", "cBadLmax", "cBadFields", "cBadTop",
          "beam1", "beam2", "beamBad", "bins1", "bins2", "binsBad", "mat1",
          "matBad", "write", "read", "readNoU", "readMiss", "readWrong"]
FLAT = ["cA", "cB", "cT", "cBad", "write", "read", "readMiss", "readWrong"]
COV = ["cA", "cB", "c0", "cBad", "write", "read", "read0", "readMiss",
       "readWrong"]
COVF = ["cA", "cB", "cBad", "write", "read", "readMiss", "readWrong"]
ALPH = dict(curved=CURVED, flat=FLAT, cov=COV, covf=COVF)


def cases(tier, seed):
    dep = dict(curved=4, flat=5, cov=4, covf=5) if tier == "quick" else \
        dict(curved=5, flat=6, cov=6, covf=7)
    for kind, al in ALPH.items():
        pl = 2 if tier == "quick" or kind != "curved" else 3
        for d in range(1, pl):
            for pre in itertools.product(al, repeat=d):
                yield dict(m=kind, prefix=list(pre), depth=d, seed=seed)
        for pre in itertools.product(al, repeat=pl):
            yield dict(m=kind, prefix=list(pre), depth=dep[kind], seed=seed)


_CACHE = {}


def scratch(name):
    return os.path.join(os.environ["NMC_SCRATCH"], name)


# ------------------------------------------------------------------ curved
class CurvedMachine(object):
    """State: None or dict(M, n, beam, bins, norm, w2, unb)."""
    def __init__(self, seed):
        import pymaster as nmt
        from nmc import lib as L
        self.nmt, self.L = nmt, L
        lmax = self.lmax = 5
        masks = L.smooth_masks(2, 30+seed, 3)
        rng = np.random.RandomState(seed+77)
        self.beams = [np.ones(lmax+1), 0.5+rng.rand(lmax+1),
                      np.exp(-0.1*np.arange(lmax+1))]
        l = np.arange(lmax+1)
        self.s = [L.Scheme(lmax, [-1, -1, 0, 0, 1, 1]),
                  L.Scheme(lmax, [-1, 0, 0, 1, 2, -1], weights=1+l),
                  L.Scheme(lmax, [-1, -1, 0, 0, 0, 0], weights=2.+l,
                           f_ell=1+0.5*l)]
        self.badbins = L.one_bin(lmax-1)
        mk = lambda i, s, b=None, **k: nmt.NmtField(
            masks[i], None, spin=s, lmax=lmax, lmax_mask=lmax, beam=b, **k)
        self.f = dict(a=mk(0, 0, self.beams[1]), b=mk(1, 0),
                      c=mk(2, 2), d=mk(1, 0, self.beams[2]))
        self.fbad = nmt.NmtField(masks[1], None, spin=0, lmax=lmax-1,
                                 lmax_mask=lmax-1)
        self.cl = {n: rng.randn(n, lmax+1) for n in (1, 2)}
        self.w2f = np.mean(masks[0]*masks[1])
        self.init = {}
        for k, (p, q, b, nm, be) in dict(
                cA=("a", "b", 0, "MASTER", self.beams[1]),
                cB=("d", "c", 1, "MASTER", self.beams[2]),
                cF=("a", "b", 1, "FKP", self.beams[1])).items():
            w = nmt.NmtWorkspace.from_fields(self.f[p], self.f[q],
                                             self.s[b].nmt, normalization=nm)
            self.init[k] = dict(M=w.get_coupling_matrix().copy(), mid=k[1]
                                if k != "cF" else "A",
                                n=w.wsp.ncls, beam=be, bid=k, bins=b,
                                norm=nm, w2=self.w2f, unb=True, p=p, q=q)
        self.mats = {}
        for k in ("cA", "cB"):
            M = self.init[k]["M"]
            self.mats[self.init[k]["n"]] = M*1.7+0.01*rng.randn(*M.shape)
        # a file of another kind
        g = nmt.NmtWorkspaceFlat()
        ff = nmt.NmtFieldFlat(0.1, 0.1, np.ones((4, 4)), None, spin=0)
        g.compute_coupling_matrix(ff, ff, nmt.NmtBinFlat([10., 100.],
                                                         [100., 200.]))
        self.wrong = scratch("wrong.fits")
        g.write_to(self.wrong)
        self.models = {}
        self.file = scratch("w.fits")

    def key(self, st):
        if st is None:
            return "uninit"
        return "%s/%s/%d/%s/%d" % (st["mid"], st["bid"], st["bins"],
                                   st["norm"], st["unb"])

    def fresh(self):
        return self.nmt.NmtWorkspace()

    def apply(self, w, op):
        """Run one operation on the real object."""
        nmt = self.nmt
        if op in ("cA", "cB", "cF"):
            i = self.init[op]
            w.compute_coupling_matrix(self.f[i["p"]], self.f[i["q"]],
                                      self.s[i["bins"]].nmt,
                                      normalization=i["norm"])
        elif op == "cBadNorm":
            w.compute_coupling_matrix(self.f["a"], self.f["c"],
                                      self.s[2].nmt, normalization="nope")
        elif op == "cBadLmax":
            w.compute_coupling_matrix(self.f["a"], self.f["b"], self.badbins)
        elif op == "cBadFields":
            w.compute_coupling_matrix(self.f["a"], self.fbad, self.s[0].nmt)
        elif op == "cBadTop":
            w.compute_coupling_matrix(self.f["a"], self.f["b"],
                                      self.s[0].nmt, l_toeplitz=2,
                                      l_exact=3, dl_band=1)
        elif op == "beam1":
            w.update_beams(self.beams[1], self.beams[2])
        elif op == "beam2":
            w.update_beams(self.beams[0], self.beams[0])
        elif op == "beamBad":
            w.update_beams(self.beams[1][:-1], self.beams[2])
        elif op == "bins1":
            w.update_bins(self.s[1].nmt)
        elif op == "bins2":
            w.update_bins(self.s[2].nmt)
        elif op == "binsBad":
            w.update_bins(self.badbins)
        elif op == "mat1":
            n = w.wsp.ncls
            w.update_coupling_matrix(self.mats[n])
        elif op == "matBad":
            n = w.wsp.ncls
            w.update_coupling_matrix(self.mats[n][:-1, :-1])
        elif op == "write":
            w.write_to(self.file)
        elif op == "read":
            w.read_from(self.file)
        elif op == "readNoU":
            w.read_from(self.file, read_unbinned_MCM=False)
        elif op == "readMiss":
            w.read_from(scratch("missing.fits"))
        elif op == "readWrong":
            w.read_from(self.wrong)

    def model(self, st, fst, op):
        """-> (must, new state, new file); must: True accept, False refuse,
        None either."""
        if op in self.init:
            return True, dict(self.init[op]), fst
        if "Bad" in op or op in ("readMiss", "readWrong"):
            return False, st, fst
        if op in ("read", "readNoU"):
            if fst is None:
                return False, st, fst
            return True, dict(fst, unb=op == "read"), fst
        if st is None:
            return False, st, fst
        if op == "write":
            if not st["unb"]:
                return False, st, fst
            return True, st, dict(st)
        if op in ("beam1", "beam2"):
            b = self.beams[1]*self.beams[2] if op == "beam1" else \
                self.beams[0]
            new = dict(st, beam=b, bid=op)
        elif op in ("bins1", "bins2"):
            new = dict(st, bins=int(op[-1]))
        elif op == "mat1":
            new = dict(st, M=self.mats[st["n"]], mid="R%d" % st["n"])
        return (True if st["unb"] else None), new, fst

    def initialised(self, w):
        try:
            w.decouple_cell(self.cl[w.wsp.ncls])
            return True
        except Exception:
            return False

    def observe(self, w, st):
        """-> list of (name, got, want); a refusal where results exist is an
        exception propagating."""
        if st is None:
            return []
        k = self.key(st)
        if k not in self.models:
            m = self.L.WspModel(st["M"], st["beam"], self.s[st["bins"]],
                                st["n"], st["norm"], st["w2"])
            cl = self.cl[st["n"]]
            self.models[k] = [("decouple", m.decouple(cl)),
                              ("couple", m.couple(cl)),
                              ("windows", m.windows()),
                              ("matrix", st["M"])]
        mm = self.models[k]
        cl = self.cl[st["n"]]
        out = [("decouple", w.decouple_cell(cl), mm[0][1])]
        fs = [lambda: w.couple_cell(cl), w.get_bandpower_windows,
              w.get_coupling_matrix]
        for f, (nm, want) in zip(fs, mm[1:]):
            if st["unb"]:
                out.append((nm, f(), want))
            else:
                try:
                    r = f()
                except Exception:
                    continue
                out.append((nm+"-without-unbinned", r, want))
        return out


# -------------------------------------------------------------------- flat
class FlatMachine(object):
    def __init__(self, seed):
        import pymaster as nmt
        from nmc import lib as L
        self.nmt = nmt
        rng = np.random.RandomState(seed+5)
        nx, ny, lx, ly = 6, 8, 0.1, 0.16
        self.lx, self.ly = lx, ly
        m = [0.3+rng.rand(ny, nx) for _ in range(3)]
        le = np.linspace(0, 600, 7)
        beam = np.array([le, np.exp(-le/400.)])
        self.f = [nmt.NmtFieldFlat(lx, ly, m[0], None, spin=0, beam=beam),
                  nmt.NmtFieldFlat(lx, ly, m[1], None, spin=2),
                  nmt.NmtFieldFlat(lx, ly, m[2], None, spin=0)]
        self.fbad = nmt.NmtFieldFlat(lx, ly, m[2][:-1], None, spin=0)
        self.b = [nmt.NmtBinFlat([1., 60., 120.], [60., 120., 200.]),
                  nmt.NmtBinFlat([10., 110.], [100., 210.])]
        self.init = dict(cA=(0, 2, 0, {}), cB=(0, 1, 1, dict(
            ell_cut_x=[-15., 15.])), cT=(0, 1, 1, dict(is_teb=True)))
        self.ell = np.linspace(0, 250, 40)
        self.cl = {n: rng.randn(n, 40) for n in (1, 2, 4, 7)}
        self.dl = {(n, b): rng.randn(n, b) for n in (1, 2, 4, 7)
                   for b in (2, 3)}
        self.file = scratch("f.fits")
        self.wrong = scratch("wrongf.fits")
        c = L.smooth_masks(2, 1, 1)[0]
        f = nmt.NmtField(c, None, spin=0, lmax=5, lmax_mask=5)
        nmt.NmtWorkspace.from_fields(f, f, L.all_bins(5)).write_to(self.wrong)
        self.ref = {}
        for k in self.init:
            w = nmt.NmtWorkspaceFlat()
            self.apply(w, k)
            self.ref[k] = [x.copy() for x in self.raw(w)]

    def key(self, st):
        return st or "uninit"

    def fresh(self):
        return self.nmt.NmtWorkspaceFlat()

    def apply(self, w, op):
        if op in self.init:
            p, q, b, kw = self.init[op]
            w.compute_coupling_matrix(self.f[p], self.f[q], self.b[b], **kw)
        elif op == "cBad":
            w.compute_coupling_matrix(self.f[0], self.fbad, self.b[0])
        elif op == "write":
            w.write_to(self.file)
        elif op == "read":
            w.read_from(self.file)
        elif op == "readMiss":
            w.read_from(scratch("missing.fits"))
        elif op == "readWrong":
            w.read_from(self.wrong)

    def model(self, st, fst, op):
        if op in self.init:
            return True, op, fst
        if op in ("cBad", "readMiss", "readWrong"):
            return False, st, fst
        if op == "read":
            return (True, fst, fst) if fst else (False, st, fst)
        if op == "write":
            return (True, st, st) if st else (False, st, fst)

    def raw(self, w):
        n, nb = w.wsp.ncls, w.wsp.bin.n_bands
        return [w.decouple_cell(self.dl[(n, nb)]),
                w.decouple_cell(self.dl[(n, nb)], cl_bias=self.dl[(n, nb)]/3),
                w.couple_cell(self.ell, self.cl[n])]

    def initialised(self, w):
        try:
            self.raw(w)
            return True
        except Exception:
            return False

    def observe(self, w, st):
        if st is None:
            return []
        return [("obs%d" % i, g, r) for i, (g, r) in
                enumerate(zip(self.raw(w), self.ref[st]))]


# -------------------------------------------------------------- covariances
class CovMachine(object):
    def __init__(self, seed):
        import pymaster as nmt
        from nmc import lib as L
        self.nmt = nmt
        lmax = 5
        ms = L.smooth_masks(2, 90+seed, 3)
        self.f = [nmt.NmtField(m, None, spin=s, lmax=lmax, lmax_mask=lmax)
                  for m, s in zip(ms, (0, 2, 0))]
        self.fbad = nmt.NmtField(L.smooth_masks(2, 3, 1)[0], None, spin=0,
                                 lmax=4, lmax_mask=4)
        b = L.Scheme(lmax, [-1, -1, 0, 0, 1, 1]).nmt
        self.w00 = nmt.NmtWorkspace.from_fields(self.f[0], self.f[2], b)
        self.w02 = nmt.NmtWorkspace.from_fields(self.f[0], self.f[1], b)
        rng = np.random.RandomState(seed)
        self.cl = {n: rng.rand(n, lmax+1) for n in (1, 2, 4)}
        self.file = scratch("c.fits")
        self.wrong = scratch("wrongc.fits")
        self.w00.write_to(self.wrong)
        self.init = dict(cA=((0, 1), {}), cB=((0, 2, 1, 0), {}),
                         c0=((0, 1), dict(spin0_only=True)))
        self.ref = {}
        for k in ("cA", "cB"):
            w = self.fresh()
            self.apply(w, k)
            self.ref[k] = [x.copy() for x in self.raw(w)]

    key = FlatMachine.key

    def fresh(self):
        return self.nmt.NmtCovarianceWorkspace()

    def apply(self, w, op):
        if op in self.init:
            p, kw = self.init[op]
            w.compute_coupling_coefficients(*[self.f[i] for i in p], **kw)
        elif op == "cBad":
            w.compute_coupling_coefficients(self.f[0], self.fbad)
        elif op == "write":
            w.write_to(self.file)
        elif op == "read":
            w.read_from(self.file)
        elif op == "read0":
            w.read_from(self.file, force_spin0_only=True)
        elif op == "readMiss":
            w.read_from(scratch("missing.fits"))
        elif op == "readWrong":
            w.read_from(self.wrong)

    def model(self, st, fst, op):
        if op == "c0":
            return True, "cA:0", fst
        if op in self.init:
            return True, op, fst
        if op in ("cBad", "readMiss", "readWrong"):
            return False, st, fst
        if op == "read":
            return (True, fst, fst) if fst else (False, st, fst)
        if op == "read0":
            return (True, fst[:2]+":0", fst) if fst else (False, st, fst)
        if op == "write":
            return (True, st, st) if st else (False, st, fst)

    def raw(self, w, n=2):
        c = self.cl
        g = self.nmt.gaussian_covariance
        r = [lambda: g(w, 0, 0, 0, 0, c[1], c[1]*2, c[1]*3, c[1], self.w00),
             lambda: g(w, 0, 2, 0, 2, c[1], c[2], c[2]*2, c[4], self.w02)]
        return [x() for x in r[:n]]

    def initialised(self, w):
        try:
            self.raw(w, 1)
            return True
        except Exception:
            return False

    def observe(self, w, st):
        if st is None:
            return []
        n = 1 if st.endswith(":0") else 2
        out = [("cov%d" % i, g, r) for i, (g, r) in
               enumerate(zip(self.raw(w, n), self.ref[st[:2]]))]
        if n == 1:
            try:
                g = self.raw(w, 2)[1]
            except Exception:
                pass
            else:
                out.append(("cov-spin-without-coefficients", g,
                            self.ref[st[:2]][1]))
        return out


class CovFlatMachine(FlatMachine):
    def __init__(self, seed):
        import pymaster as nmt
        self.nmt = nmt
        rng = np.random.RandomState(seed+15)
        nx, ny, lx, ly = 6, 8, 0.1, 0.16
        m = [0.3+rng.rand(ny, nx) for _ in range(3)]
        self.f = [nmt.NmtFieldFlat(lx, ly, m[0], None, spin=0),
                  nmt.NmtFieldFlat(lx, ly, m[1], None, spin=2),
                  nmt.NmtFieldFlat(lx, ly, m[2], None, spin=0)]
        self.fbad = nmt.NmtFieldFlat(lx, ly, m[2][:-1], None, spin=0)
        self.b = nmt.NmtBinFlat([1., 60., 120.], [60., 120., 200.])
        self.w00, self.w02 = nmt.NmtWorkspaceFlat(), nmt.NmtWorkspaceFlat()
        self.w00.compute_coupling_matrix(self.f[0], self.f[2], self.b)
        self.w02.compute_coupling_matrix(self.f[0], self.f[1], self.b)
        self.init = dict(cA=(0, 1), cB=(0, 2, 1, 0))
        self.ell = np.linspace(0, 250, 40)
        self.cl = {n: rng.rand(n, 40) for n in (1, 2, 4)}
        self.file = scratch("cf.fits")
        self.wrong = scratch("wrongcf.fits")
        self.w00.write_to(self.wrong)
        self.ref = {}
        for k in self.init:
            w = self.fresh()
            self.apply(w, k)
            self.ref[k] = [x.copy() for x in self.raw(w)]

    def fresh(self):
        return self.nmt.NmtCovarianceWorkspaceFlat()

    def apply(self, w, op):
        if op in self.init:
            p = [self.f[i] for i in self.init[op]]
            w.compute_coupling_coefficients(p[0], p[1], self.b, *p[2:])
        elif op == "cBad":
            w.compute_coupling_coefficients(self.f[0], self.fbad, self.b)
        else:
            FlatMachine.apply(self, w, op)

    def raw(self, w):
        c, e = self.cl, self.ell
        g = self.nmt.gaussian_covariance_flat
        return [g(w, 0, 0, 0, 0, e, c[1], c[1]*2, c[1]*3, c[1], self.w00),
                g(w, 0, 2, 0, 2, e, c[1], c[2], c[2]*2, c[4], self.w02)]


MACH = dict(curved=CurvedMachine, flat=FlatMachine, cov=CovMachine,
            covf=CovFlatMachine)


def run(case, ctx):
    k = (case["m"], ctx.seed)
    if k not in _CACHE:
        _CACHE[k] = MACH[case["m"]](ctx.seed)
    m = _CACHE[k]
    al = ALPH[case["m"]]
    rest = case["depth"]-len(case["prefix"])
    # shallower sequences are separate cases only while shorter than the
    # prefix; here every length from the prefix on is explored
    for r in range(0, rest+1):
        for suf in itertools.product(al, repeat=r):
            one(m, case, ctx, case["prefix"]+list(suf))
            if len(ctx.viol) > 5:
                return


def one(m, case, ctx, ops):
    if os.path.exists(m.file):
        os.unlink(m.file)
    w = m.fresh()
    st = fst = None
    name = case["m"]
    for i, op in enumerate(ops):
        last = i == len(ops)-1
        must, new, nf = m.model(st, fst, op)
        try:
            m.apply(w, op)
            acc = True
        except Exception as e:
            acc, err = False, e
        if must is not None and acc != must:
            if last:
                ctx.fail("%s:%s:%s" % (name, "accepted" if acc else
                                       "refused", op),
                         "after %s: %s" % (ops, "" if acc else repr(err)))
            return
        k0 = m.key(st)
        if acc:
            st, fst = new, nf
        elif st is not None and not m.initialised(w):
            st = None
        if last:
            ctx.transition(name+k0, op+str(acc), name+m.key(st))
    ctx.state(name+m.key(st)+"|"+m.key(fst))
    ctx.trace()
    try:
        obs = m.observe(w, st)
    except Exception as e:
        ctx.fail("%s:observe:%s" % (name, ops[-1]),
                 "after %s: %r" % (ops, e))
        return
    if st is None:
        ctx.check(not m.initialised(w), "%s:ghost:%s" % (name, ops[-1]),
                  "after %s the object answers although nothing was "
                  "computed" % ops)
    for nm, got, want in obs:
        ctx.close("%s:%s:%s" % (name, nm, ops[-1]), got, want, rtol=1e-8,
                  detail="after %s:" % ops)
    ctx.evaluated(ops, nontrivial=st is not None)
    if st is not None:
        ctx.sample(dict(ops=ops, state=m.key(st)))
