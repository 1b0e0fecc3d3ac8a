"""P08: curved-sky bandpowers against their definition, all small schemes."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: every assignment of multipoles to "
             "bands, multipole order, weight/prefactor pattern and band limit "
             "within the bound is constructed and its complete (linear) "
             "binning and unbinning operators compared with the definition")
RULE = ("assign: all assignments of N consecutive multipoles to {ignored, "
        "0, 1, 2} x weights x prefactors (incl. non-positive) x lmax "
        "below/at/above the list; perm: all orders of the multipoles; "
        "linear: all (lmax or nside, width); edges: all edge sets and "
        "interval pairs. Every case compares counts, lists, weights, "
        "limits, effective multipoles and the operators on all unit "
        "impulses. big: up to 2100 multipoles in 230 bands, in any order. "
        "huge: constructors to l=98303 with the l(l+1) prefactor. "
        "Non-trivial: the scheme was accepted.")
ASSUMES = ["non-positive prefactors stand for one (nmt_bins_create)"]
MIN_EVAL = 5000


def cases(tier, seed):
    n = 5 if tier == "quick" else 7
    for first in itertools.product((-1, 0, 1, 2), repeat=2):
        yield dict(t="assign", n=n, first=first)
    for k in range(24 if tier == "quick" else 120):
        yield dict(t="perm", n=4 if tier == "quick" else 5, k=k)
    top = 26 if tier == "quick" else 60
    for lmax in range(0, top):
        yield dict(t="linear", lmax=lmax)
    for nside in (1, 2, 4, 8, 16):
        yield dict(t="nside", nside=nside)
    m = 8 if tier == "quick" else 11
    for lo in range(0, m):
        yield dict(t="edges", lo=lo, m=m)
    for k in range(6 if tier == "quick" else 24):
        yield dict(t="big", k=k)
    for how in ("linear", "nside", "edges", "direct"):
        for dell in (0, 1):
            yield dict(t="huge", how=how, dell=dell)
    yield dict(t="pairs", m=4 if tier == "quick" else 6)


def model(ells, bpws, w, f, lmax):
    """Definition: list of bands [(ell, weight, prefactor)], None: refused."""
    keep = [i for i in range(len(ells)) if ells[i] <= lmax]
    use = [i for i in keep if bpws[i] >= 0]
    nb = max([bpws[i] for i in keep] + [0])+1
    if any(ells[i] < 0 for i in range(len(ells)) if bpws[i] >= 0):
        return None
    out = []
    for b in range(nb):
        ii = [i for i in use if bpws[i] == b]
        t = sum(w[i] for i in ii)
        if not t > 0:
            return None
        out.append([(ells[i], w[i]/t, f[i] if f[i] > 0 else 1.)
                    for i in ii])
    return out


def compare(ctx, key, b, m, lmax, what):
    nb = len(m)
    ctx.check(b.lmax == lmax, key+":lmax", what)
    if not ctx.check(b.get_n_bands() == nb, key+":nbands", lambda: "%s: %d" % (
            what, b.get_n_bands())):
        return
    ctx.close(key+":nell", b.get_nell_list(), [len(x) for x in m],
              detail=what)
    ctx.close(key+":elleff", b.get_effective_ells(),
              [sum(l*w for l, w, f in x) for x in m], rtol=1e-12, detail=what)
    W = np.zeros((nb, lmax+1))
    U = np.zeros((lmax+1, nb))
    dup = set()
    seen = set()
    for i, x in enumerate(m):
        ctx.close(key+":ells", b.get_ell_list(i), [a[0] for a in x],
                  detail=what)
        ctx.close(key+":weights", b.get_weight_list(i), [a[1] for a in x],
                  rtol=1e-12, detail=what)
        ctx.check(b.get_ell_min(i) == min(a[0] for a in x), key+":ellmin",
                  what)
        ctx.check(b.get_ell_max(i) == max(a[0] for a in x), key+":ellmax",
                  what)
        for l, w, f in x:
            W[i, l] += w*f
            U[l, i] = 1./f
            (dup if l in seen else seen).add(l)
    got = b.bin_cell(np.eye(lmax+1))
    ctx.close(key+":bin", got, W.T, rtol=1e-12, detail=what)
    un = b.unbin_cell(np.eye(nb))
    if not dup:
        ctx.close(key+":unbin", un, U.T, rtol=1e-12, detail=what)
        ctx.close(key+":identity", b.bin_cell(un), np.eye(nb), rtol=1e-12,
                  detail=what)
    # one-dimensional spectra
    v = np.arange(lmax+1)+1.5
    ctx.close(key+":bin1d", b.bin_cell(v), W @ v, rtol=1e-12, detail=what)
    if not dup:
        u = np.arange(nb)+0.5
        ctx.close(key+":unbin1d", b.unbin_cell(u), U @ u, rtol=1e-12,
                  detail=what)


def one(ctx, ells, bpws, w, f, lmax, key, what):
    import pymaster as nmt
    m = model(list(map(int, ells)), list(map(int, bpws)),
              np.ones(len(ells)) if w is None else w,
              np.ones(len(ells)) if f is None else f,
              int(max(ells)) if lmax is None else lmax)
    kw = dict(ells=np.array(ells), bpws=np.array(bpws))
    if w is not None:
        kw["weights"] = np.array(w, dtype=float)
    if f is not None:
        kw["f_ell"] = np.array(f, dtype=float)
    if lmax is not None:
        kw["lmax"] = lmax
    if m is None:
        ctx.raises(key+":accepted", lambda: nmt.NmtBin(**kw), detail=what)
        ctx.evaluated(what, nontrivial=False)
        return
    compare(ctx, key, nmt.NmtBin(**kw), m,
            int(max(ells)) if lmax is None else lmax, what)
    ctx.evaluated(what, m)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_assign(case, ctx):
    n = case["n"]
    rng = np.random.RandomState(ctx.seed)
    wp = [None, 0.3+rng.rand(n), np.where(np.arange(n) % 2, 0., 1.)]
    fp = [None, 0.5+rng.rand(n), np.array([0., -1., 2., 3., 0., 1.5, 2.5][:n]),
          np.array([1e-12, 1e-5, 1e-3, 1e-8, 2e-4, 1e-20, 1e-2][:n]),
          np.array([1e12, 1e-6, 1e4, 1e8, 1., 1e20, 1e-10][:n])]
    for rest in itertools.product((-1, 0, 1, 2), repeat=n-2):
        bp = tuple(case["first"])+rest
        for l0 in (0, 2):
            ells = np.arange(n)+l0
            for iw, i_f in ((0, 0), (1, 1), (2, 0), (0, 2), (0, 3),
                              (1, 4)):
                for lmax in (None, n+l0-2, n+l0):
                    if lmax is None and (iw or i_f):
                        lmax = n+l0-1
                    one(ctx, ells, bp, wp[iw], fp[i_f], lmax, "assign",
                        "%s l0=%d w%d f%d lmax=%s" % (bp, l0, iw, i_f, lmax))


def run_perm(case, ctx):
    n = case["n"]
    perms = list(itertools.permutations(range(n)))
    p = perms[case["k"]]
    w = 1.+np.arange(n)
    f = 2.+0.5*np.arange(n)
    for bp in itertools.product((-1, 0, 1), repeat=n):
        for ells in (np.array(p), np.array(p)*2+1, np.array(p)//2):
            for lmax in (int(max(ells)), int(max(ells))-1, int(max(ells))+2):
                if lmax < 0:
                    continue
                one(ctx, ells, bp, w, f, lmax, "perm", "%s %s lmax=%d" % (
                    ells, bp, lmax))
    one(ctx, np.array(p)-1, np.zeros(n, int), w, f, n, "perm:negative",
        "negative multipole")


def linear_model(lmax, nlb, f):
    out = []
    b = 0
    while 2+(b+1)*nlb-1 <= lmax:
        ls = range(2+b*nlb, 2+(b+1)*nlb)
        out.append([(l, 1./nlb, f[l]) for l in ls])
        b += 1
    return out or None


def linear(ctx, lmax, make, key):
    rng = np.random.RandomState(ctx.seed)
    for nlb in range(1, lmax+3):
        ls = np.arange(lmax+1)
        for kw, f in ((dict(), np.ones(lmax+1)),
                      (dict(is_Dell=True), ls*(ls+1)/(2*np.pi)),
                      (dict(f_ell=0.1+ls*0.3), 0.1+ls*0.3),
                      (dict(f_ell=1e-6/(1.+ls)), 1e-6/(1.+ls)),
                      (dict(f_ell=0.1+ls*0.3, is_Dell=True), 0.1+ls*0.3)):
            m = linear_model(lmax, nlb, f)
            what = "lmax=%d nlb=%d %s" % (lmax, nlb, sorted(kw))
            if m is None:
                ctx.raises(key+":accepted", lambda: make(nlb, kw),
                           detail=what)
                ctx.evaluated(what, nontrivial=False)
                continue
            compare(ctx, key, make(nlb, kw), m, lmax, what)
            ctx.evaluated(what, [len(m), sorted(kw)])


def run_big(case, ctx):
    """Schemes of the size used in practice, multipoles in any order."""
    import pymaster as nmt
    k = case["k"]
    rng = np.random.RandomState(ctx.seed*100+k)
    lmax = (700, 1500, 2100)[k % 3]
    nb = (1, 37, 230)[(k//3+k) % 3]
    ells = np.arange(lmax+1)
    bpws = rng.randint(-1, nb, lmax+1) if k % 2 else \
        (ells*nb)//(lmax+1)
    bpws[rng.permutation(lmax+1)[:nb]] = np.arange(nb)
    if k % 4 > 1:
        q = rng.permutation(lmax+1)
        ells, bpws = ells[q], bpws[q]
    one(ctx, ells, bpws, None if k % 3 == 0 else 0.1+rng.rand(lmax+1),
        None if k % 3 == 1 else rng.rand(lmax+1)-0.1, None, "big",
        "big %d" % k)
    m = []
    n = (7, 30, 101)[k % 3]
    for l in range(2, lmax+1-n+1, n):
        m.append([(x, 1./n, x*(x+1)/(2*np.pi)) for x in range(l, l+n)])
    compare(ctx, "big", nmt.NmtBin.from_lmax_linear(lmax, n, is_Dell=True),
            m, lmax, "big linear %d" % k)
    ctx.evaluated(["linear", k], m)


def run_huge(case, ctx):
    """Multipoles beyond every small integer range and the square root of
    the largest integer; bands of one to tens of thousands of multipoles."""
    import pymaster as nmt
    how, dell = case["how"], case["dell"]
    lmax = 3*32768-1 if how == "nside" else 70000
    rng = np.random.RandomState(ctx.seed+3)
    ls = np.arange(lmax+1)
    f = ls*(ls+1.)/(2*np.pi) if dell else np.ones(lmax+1)
    f[0] = 1.
    w = np.ones(lmax+1)
    for n in (1, 40, 1001, 33333):
        bp = np.where(ls < 2, -1, (ls-2)//n)
        if how in ("linear", "nside"):
            bp[bp == (lmax-1)//n] = -1
            b = nmt.NmtBin.from_lmax_linear(lmax, n, is_Dell=bool(dell)) \
                if how == "linear" else nmt.NmtBin.from_nside_linear(
                    32768, n, is_Dell=bool(dell))
        elif how == "edges":
            e = np.append(np.arange(2, lmax+1, n), lmax+1)
            b = nmt.NmtBin.from_edges(e[:-1], e[1:], is_Dell=bool(dell))
        else:
            w = 0.1+rng.rand(lmax+1)
            q = rng.permutation(lmax+1)
            b = nmt.NmtBin(ells=q, bpws=bp[q], weights=w[q], lmax=lmax,
                           f_ell=f[q])
        nb = bp.max()+1
        ctx.check(b.get_n_bands() == nb and b.lmax == lmax, "huge:sizes",
                  "%d %d" % (b.get_n_bands(), b.lmax))
        k = bp >= 0
        sums = lambda x: np.bincount(bp[k], weights=x[k], minlength=nb)
        tot = sums(w)
        what = "%s n=%d" % (how, n)
        ctx.close("huge:nell", b.get_nell_list(), sums(np.ones(lmax+1)),
                  detail=what)
        ctx.close("huge:elleff", b.get_effective_ells(), sums(w*ls)/tot,
                  rtol=1e-11, detail=what)
        for i in {0, nb//2, nb-1}:
            ctx.close("huge:ells", np.sort(b.get_ell_list(i)), ls[bp == i],
                      detail=what)
            ctx.check(b.get_ell_min(i) == ls[bp == i][0] and
                      b.get_ell_max(i) == ls[bp == i][-1], "huge:minmax",
                      what)
            ctx.close("huge:weights", np.sum(b.get_weight_list(i)), 1.,
                      rtol=1e-10, detail=what)
        c = rng.rand(3, lmax+1)
        ctx.close("huge:bin", b.bin_cell(c), [sums(x*w*f)/tot for x in c],
                  rtol=1e-11, detail=what)
        v = rng.randn(2, nb)
        ctx.close("huge:unbin", b.unbin_cell(v), np.where(
            k, v[:, np.maximum(bp, 0)]/f, 0.), rtol=1e-11, detail=what)
        ctx.evaluated([n], b.get_effective_ells())


def run_linear(case, ctx):
    import pymaster as nmt
    lmax = case["lmax"]
    linear(ctx, lmax, lambda n, kw: nmt.NmtBin.from_lmax_linear(
        lmax, n, **kw), "linear")


def run_nside(case, ctx):
    import pymaster as nmt
    ns = case["nside"]
    linear(ctx, 3*ns-1, lambda n, kw: nmt.NmtBin.from_nside_linear(
        ns, n, **kw), "nside")


def edges(ctx, ini, end, key):
    import pymaster as nmt
    ls = np.array([l for a, b in zip(ini, end) for l in range(a, b)])
    lmax = int(ls.max())
    for kw, f in ((dict(), np.ones(len(ls))),
                  (dict(is_Dell=True), ls*(ls+1)/(2*np.pi)),
                  (dict(f_ell=0.1+np.arange(len(ls))*0.3),
                   0.1+np.arange(len(ls))*0.3)):
        m, i = [], 0
        for a, b in zip(ini, end):
            m.append([(int(l), 1./(b-a), f[i+l-a] if f[i+l-a] > 0 else 1.)
                      for l in range(a, b)])
            i += b-a
        what = "%s %s %s" % (ini, end, sorted(kw))
        compare(ctx, key, nmt.NmtBin.from_edges(
            np.array(ini), np.array(end), **kw), m, lmax, what)
        ctx.evaluated(what, m)


def run_edges(case, ctx):
    lo, m = case["lo"], case["m"]
    rest = range(lo+1, m+1)
    for k in range(1, len(rest)+1):
        for e in itertools.combinations(rest, k):
            e = (lo,)+e
            edges(ctx, e[:-1], e[1:], "edges")


def run_pairs(case, ctx):
    """Two independent intervals: gaps, overlaps, reversed order."""
    m = case["m"]
    iv = [(a, b) for a in range(m) for b in range(a+1, m+1)]
    for x in iv:
        for y in iv:
            edges(ctx, (x[0], y[0]), (x[1], y[1]), "pairs")
