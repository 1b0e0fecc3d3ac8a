"""P19: results do not depend on threads or their interleaving."""
import ctypes
import subprocess
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real native code under a "
             "controlled OpenMP runtime: every order of synchronisation "
             "points (chunk assignments, critical sections, atomics) of every "
             "parallel region within bounds, with a vector-clock "
             "happens-before race detector on every memory access")
RULE = ("For every native parallel computation reachable from Python, every "
        "team of 1..T threads and every parallel region: every assignment of "
        "the chunks of dynamic loops to threads and every order of critical "
        "sections (all when there are at most 7 chunks, all within a bound "
        "on thread switches otherwise), every single preemption at an atomic "
        "update; the other regions at their default schedule. In every "
        "execution no two threads make conflicting accesses that no "
        "synchronisation orders, no deadlock, and the results equal those of "
        "one thread to rounding. States are (region, schedule prefix), "
        "transitions scheduling decisions. Plus all thread counts 1..8 of the "
        "system's OpenMP runtime. Non-trivial: team of two or more threads.")
ASSUMES = ["GSL, FFTW and libc are not instrumented: their calls are modelled "
           "as accesses to the objects passed to them",
           "relaxed atomics are executed in sequentially consistent order"]
KINDS = ["sched", "omp"]
MIN_EVAL = 2000
CASE_TIMEOUT = 600
LM = 5
SEED = [1]


def setup_worker(tier, seed):
    SEED[0] = seed


def R(seed, *shape):
    return 0.25+np.random.RandomState(seed+1000*SEED[0]).rand(*shape)


class Sched(object):
    """The controlled runtime inside the extension."""

    def __init__(self):
        import _nmtlib
        self.fn = _nmtlib.__file__
        self.lib = ctypes.CDLL(self.fn)
        self.base = min(int(ln.split("-")[0], 16)
                        for ln in open("/proc/self/maps")
                        if ln.rstrip().endswith(self.fn))
        self.buf = [(ctypes.c_ubyte*200000)() for _ in range(3)]

    def config(self, T, region=-1, bound=10**6, atomic=0, sym=0, pre=b""):
        self.lib.sched_config(T, region, bound, atomic, sym, bytes(pre),
                              len(pre), ctypes.c_void_p(self.base))

    def log(self):
        n = self.lib.sched_log(*self.buf, 200000)
        return [bytes(b[:n]) for b in self.buf]

    def regions(self):
        out = (ctypes.c_long*(6*4096))()
        n = self.lib.sched_regions(out, 4096)
        return [tuple(out[6*i:6*i+6]) for i in range(n)]

    def status(self):
        return self.lib.sched_status()

    def races(self):
        out = (ctypes.c_long*(6*64))()
        n = self.lib.sched_races(out, 64)
        return [tuple(out[6*i:6*i+6]) for i in range(min(n, 64))]

    def where(self, pc):
        r = subprocess.run(["addr2line", "-f", "-s", "-e", self.fn,
                            hex(pc-1)], stdout=subprocess.PIPE)
        return " ".join(r.stdout.decode().split())


_S = []


def sched():
    if not _S:
        _S.append(Sched())
    return _S[0]


def calls(big=False):
    """name -> function returning a list of arrays; inputs prepared here."""
    import pymaster as nmt
    from nmc import lib as L
    C = {}
    lm = 24 if big else LM
    ns = 8 if big else 2
    hs = (12*ns*ns,)
    kw = dict(lmax=lm, lmax_mask=lm, n_iter=0, n_iter_mask=0)
    l = np.arange(lm+1)
    b = L.Scheme(lm, np.where(l < 2, -1, (l-2)//2)).nmt
    spins = (0, 1, 2, 3)
    F = {}
    for s in spins:
        F[s] = nmt.NmtField(R(1+s, *hs), R(9+s, 2 if s else 1, *hs), spin=s,
                            **kw)
    B = nmt.NmtField(R(5, *hs), R(6, 2, *hs), purify_b=True, **kw)
    E = nmt.NmtField(R(5, *hs), R(6, 2, *hs), purify_e=True, **kw)
    EB = nmt.NmtField(R(5, *hs), R(6, 2, *hs), purify_e=True, purify_b=True,
                      **kw)
    A = nmt.NmtField(R(8, *hs), R(9, 2, *hs), mask_22=1+R(10, *hs),
                     mask_12=0.1*R(11, *hs), **kw)

    def W(*a, **k):
        return nmt.NmtWorkspace.from_fields(*a, **k)

    def mcm(*a, **k):
        return lambda: [W(*a, **k).get_coupling_matrix()]
    for x, y in ((0, 0), (0, 1), (0, 2), (1, 1), (2, 2), (1, 2), (3, 2)):
        C["mcm%d%d" % (x, y)] = mcm(F[x], F[y], b)
    C["mcm0B"] = mcm(F[0], B, b)
    C["mcmBB"] = mcm(B, B, b)
    C["mcmEB"] = mcm(E, B, b)
    C["mcmEBEB"] = mcm(EB, EB, b)
    C["mcm1EB"] = mcm(F[1], EB, b)
    C["mcmteb"] = mcm(F[0], F[2], b, is_teb=True)
    C["mcmteB"] = mcm(F[0], B, b, is_teb=True)
    C["mcm0A"] = mcm(F[0], A, b)
    C["mcmAA"] = mcm(A, A, b)
    tz = dict(l_toeplitz=3, l_exact=2, dl_band=1)
    for x, y in ((0, 0), (0, 2), (2, 2), (1, 3)):
        C["toeplitz%d%d" % (x, y)] = mcm(F[x], F[y], b, **tz)
    w00, w02, w22 = W(F[0], F[0], b), W(F[0], F[2], b), W(F[2], F[2], b)
    wteb = W(F[0], F[2], b, is_teb=True)
    for nm, w, n in (("00", w00, 1), ("02", w02, 2), ("22", w22, 4),
                     ("teb", wteb, 7)):
        C["cell"+nm] = (lambda w=w, n=n: [
            w.couple_cell(R(20, n, lm+1)), w.decouple_cell(R(20, n, lm+1)),
            w.get_bandpower_windows()])

    def cov(fs, ws, ss, **k):
        cw = [None]
        n = lambda i, j: (2 if ss[i] else 1)*(2 if ss[j] else 1)
        cls = [R(30+i, n(*p), lm+1) for i, p in enumerate(
            ((0, 2), (0, 3), (1, 2), (1, 3)))]

        def f():
            cw[0] = nmt.NmtCovarianceWorkspace.from_fields(*fs, **k)
            return [nmt.gaussian_covariance(cw[0], *ss, *cls, *ws,
                                            coupled=True)]
        return f
    C["cov0"] = cov((F[0],)*4, (w00, w00), (0,)*4)
    C["cov02"] = cov((F[0], F[2], F[0], F[2]), (w02, w02), (0, 2, 0, 2))
    C["cov22"] = cov((F[2],)*4, (w22, w22), (2,)*4)
    C["cov2200"] = cov((F[2], F[2], F[0], F[0]), (w22, w00), (2, 2, 0, 0))
    C["covspin0"] = cov((F[0],)*4, (w00, w00), (0,)*4, spin0_only=True)
    C["covtoe"] = cov((F[0], F[2], F[0], F[2]), (w02, w02), (0, 2, 0, 2),
                      **tz)
    # HEALPix masks
    n2 = 4 if big else 2
    hole = R(40, 12*n2**2)
    hole[R(41, 12*n2**2) > 1.0] = 0
    hole[:3] = 0
    for ty in ("C1", "C2", "Smooth"):
        C["apo"+ty] = (lambda ty=ty: [nmt.mask_apodization(
            hole, 40., ty)])
    # flat sky
    ny, nx = (14, 18) if big else (5, 6)
    LX, LY = 0.5, 0.4
    holf = R(42, ny, nx)
    holf[1, 2:4] = 0
    holf[-1, 0] = 0
    for ty in ("C1", "C2", "Smooth"):
        C["apoflat"+ty] = (lambda ty=ty: [nmt.mask_apodization_flat(
            holf, LX, LY, 6., ty)])
    bf = nmt.NmtBinFlat(np.array([0., 15., 30.]), np.array([15., 30., 60.]))
    ell = np.arange(90.)
    fb = np.array([ell, R(43, 90)])

    def mk(s, t=1, **k):
        n = 2 if s else 1
        return nmt.NmtFieldFlat(
            LX, LY, R(50+s, ny, nx), R(60+s, n, ny, nx), spin=s,
            templates=R(70+s, t, n, ny, nx) if t else None, beam=fb, **k)

    def fobs(f):
        return [f.get_maps(), f.get_mask(), f.get_templates(),
                nmt.compute_coupled_cell_flat(f, f, bf)]
    for s in spins:
        C["field%d" % s] = lambda s=s: fobs(mk(s))
    C["fieldB"] = lambda: fobs(mk(2, purify_b=True))
    C["fieldEB"] = lambda: fobs(mk(2, 2, purify_b=True, purify_e=True))
    G = {s: mk(s) for s in (0, 1, 2)}
    GB = mk(2, purify_b=True)
    GEB = mk(2, purify_b=True, purify_e=True)
    cuts = dict(ell_cut_x=[10., 20.], ell_cut_y=[13., 27.])
    for nm, x, y in (("00", G[0], G[0]), ("02", G[0], G[2]),
                     ("22", G[2], G[2]), ("12", G[1], G[2]),
                     ("0B", G[0], GB), ("BB", GB, GB),
                     ("EB2", GEB, G[2]), ("EBEB", GEB, GEB)):
        n = x.fl.nmaps*y.fl.nmaps

        def flat(x=x, y=y, n=n):
            w = nmt.NmtWorkspaceFlat()
            w.compute_coupling_matrix(x, y, bf)
            return [w.couple_cell(ell, R(80, n, 90)),
                    w.decouple_cell(R(81, n, 3))]
        C["flat"+nm] = flat

        def flatcut(x=x, y=y, n=n):
            w = nmt.NmtWorkspaceFlat()
            w.compute_coupling_matrix(x, y, bf, **cuts)
            return [w.couple_cell(ell, R(80, n, 90)),
                    nmt.compute_coupled_cell_flat(x, y, bf, **cuts)]
        C["flatcut"+nm] = flatcut
        C["bias"+nm] = (lambda x=x, y=y, n=n: [nmt.deprojection_bias_flat(
            x, y, bf, ell, R(82, n, 90))])

    def tebf():
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(G[0], G[2], bf, is_teb=True)
        return [w.couple_cell(ell, R(80, 7, 90))]
    C["flatteb"] = tebf
    C["full"] = lambda: [nmt.compute_full_master_flat(
        G[0], G[2], bf, cl_guess=R(82, 2, 90), ells_guess=ell)]

    def covf(fs, ss):
        n = lambda i, j: (2 if ss[i] else 1)*(2 if ss[j] else 1)
        cls = [R(90+i, n(*p), 90) for i, p in enumerate(
            ((0, 2), (0, 3), (1, 2), (1, 3)))]
        ws = []
        for x, y in ((fs[0], fs[1]), (fs[2], fs[3])):
            w = nmt.NmtWorkspaceFlat()
            w.compute_coupling_matrix(x, y, bf)
            ws.append(w)

        def f():
            cw = nmt.NmtCovarianceWorkspaceFlat()
            cw.compute_coupling_coefficients(fs[0], fs[1], bf, fs[2], fs[3],
                                             bf)
            return [nmt.gaussian_covariance_flat(cw, *ss, ell, *cls, *ws)]
        return f
    C["covflat0"] = covf((G[0],)*4, (0,)*4)
    C["covflat02"] = covf((G[0], G[2])*2, (0, 2, 0, 2))
    C["covflat2"] = covf((G[2],)*4, (2,)*4)
    C["binflat"] = lambda: [bf.bin_cell(ell, R(95, 2, 90)),
                            bf.unbin_cell(R(96, 2, 3), ell)]
    cls = np.repeat(np.array([[2.], [.1], [.2], [2.5], [.3], [3.]]), 60,
                    axis=1)
    C["synflat"] = lambda: [nmt.synfast_flat(
        nx, ny, LX, LY, cls, [0, 2], seed=7, beam=np.array([
            R(97, 60), R(98, 60)]))]
    C["_extra"] = lambda: []
    return C


_C = {}


def table(big=False):
    if big not in _C:
        _C[big] = {k: v for k, v in calls(big).items() if k[0] != "_"}
    return _C[big]


def cases(tier, seed):
    for n in NAMES:
        for T in (2, 3) if tier == "quick" else (2, 3, 4, 5):
            yield dict(t="sched", name=n, T=T, kind="sched")
    for n in NAMES:
        yield dict(t="libgomp", name=n, kind="omp",
                   reps=1 if tier == "quick" else 10)


def compare(ctx, key, got, ref, detail):
    ctx.check(len(got) == len(ref), key, detail)
    for i, (g, w) in enumerate(zip(got, ref)):
        ctx.close(key, g, w, rtol=1e-9, detail=lambda: "%s, result %d" % (
            detail() if callable(detail) else detail, i))


def executions(S, fn, T, region, bound, atomic, sym, limit):
    """Every schedule of one region, depth first; yields (result, log)."""
    stack = [b""]
    n = 0
    while stack and n < limit:
        pre = stack.pop()
        S.config(T, region, bound, atomic, sym, pre)
        out = fn()
        nopt, ch, kind = S.log()
        n += 1
        yield out, nopt, ch, len(pre)
        for i in range(len(ch)-1, len(pre)-1, -1):
            for c in range(nopt[i]-1, 0, -1):
                stack.append(ch[:i]+bytes([c]))


def run(case, ctx):
    fn = table(case["t"] == "libgomp")[case["name"]]
    ctx.check(set(table(case["t"] == "libgomp")) == set(NAMES),
              "harness-table", "")
    name = case["name"]
    if case["t"] == "libgomp":
        g = ctypes.CDLL("libgomp.so.1")
        g.omp_set_num_threads(1)
        ref = [np.array(x) for x in fn()]
        for T in range(1, 9):
            for r in range(case["reps"]):
                g.omp_set_num_threads(T)
                out = fn()
                g.omp_set_num_threads(1)
                compare(ctx, "threads-change-results:"+name, out, ref,
                        "%s with %d threads of libgomp" % (name, T))
                ctx.evaluated(("gomp", name, T, r), repr(out)[:60],
                              nontrivial=T > 1)
        return
    S = sched()
    T = case["T"]
    quick = ctx.tier == "quick"
    S.config(1)
    ref = [np.array(x) for x in fn()]
    S.config(T)
    compare(ctx, "threads-change-results:"+name, fn(), ref,
            "%s with %d threads" % (name, T))
    regions = S.regions()
    judge(ctx, S, name, T, None, b"")
    todo = []
    for r, (nsync, nchunk, ncrit, natom, nbar, nacc) in enumerate(regions):
        if nchunk > 1 or ncrit > 1:
            full = max(nchunk, ncrit) <= (7 if T == 2 else 6)
            bound = 10**6 if full else (1 if quick else 2)
            todo.append((r, bound, 0, 0 if T == 2 else 1))
        if natom:
            # a switch to another thread before any one atomic update
            todo.append((r, 1, 1, 1))
    for r, bound, atomic, sym in todo:
        limit = 3000 if quick else 60000
        count = 0
        for out, nopt, ch, npre in executions(S, fn, T, r, bound, atomic,
                                              sym, limit):
            det = (lambda: "%s: %d threads, parallel region %d, schedule %s" %
                   (name, T, r, list(ch)))
            compare(ctx, "schedule-changes-results:"+name, out, ref, det)
            judge(ctx, S, name, T, r, ch)
            ctx.evaluated((name, T, r, atomic, ch), repr(out[0].flat[:4]) if
                          len(out) else "", nontrivial=True)
            for i in range(npre, len(ch)+1):
                ctx.state((name, T, r, atomic, ch[:i]))
                if i < len(ch):
                    ctx.transition((name, T, r, atomic, ch[:i]), ch[i],
                                   (name, T, r, atomic, ch[:i+1]))
            ctx.trace()
            count += 1
        ctx.add("regions_explored", 1)
        if count >= limit:
            ctx.add("regions_cut_at_limit", 1)
    ctx.evaluated((name, T), len(regions), nontrivial=T > 1)
    ctx.add("regions", len(regions))
    ctx.add("accesses_checked", sum(x[5] for x in regions))
    ctx.sample(dict(case, regions=len(regions)))
    S.config(1)


def judge(ctx, S, name, T, r, ch):
    st = S.status()
    ctx.check(not st & 1, "deadlock:"+name, lambda: "%s: %d threads, region "
              "%s, schedule %s: threads wait for each other" % (
                  name, T, r, list(ch)))
    if st & 2:
        ctx.add("out_of_bounds", 1)
    for x in S.races():
        kind = {0: "read", 1: "write", 2: "atomic update"}
        ctx.fail("race:"+name, "%s: %d threads, region %s, schedule %s: %s "
                 "at %s by thread %d and %s at %s by thread %d are not "
                 "ordered" % (name, T, r, list(ch), kind[x[2]],
                              S.where(x[0]), x[4], kind[x[3]], S.where(x[1]),
                              x[5]))
        break


NAMES = """
apoC1 apoC2 apoSmooth apoflatC1 apoflatC2 apoflatSmooth bias00 bias02 bias0B
bias12 bias22 biasBB biasEB2 biasEBEB binflat cell00 cell02 cell22 cellteb
cov0 cov02 cov22 cov2200 covflat0 covflat02 covflat2 covspin0 covtoe field0
field1 field2 field3 fieldB fieldEB flat00 flat02 flat0B flat12 flat22 flatBB
flatEB2 flatEBEB flatcut00 flatcut02 flatcut0B flatcut12 flatcut22 flatcutBB
flatcutEB2 flatcutEBEB flatteb full mcm00 mcm01 mcm02 mcm0A mcm0B mcm11 mcm12
mcm1EB mcm22 mcm32 mcmAA mcmBB mcmEB mcmEBEB mcmteB mcmteb synflat toeplitz00
toeplitz02 toeplitz13 toeplitz22
""".split()
