"""P24: flat-sky deprojection bias against the exact expectation."""
import numpy as np
from nmc.props.p22 import GEOM, CUTS, bands, mask
from nmc.props.p23 import kfun

LEVEL = "exploration"
TECHNIQUE = ("explicit-state exploration: the bias is linear in the guess "
             "spectrum, so every unit-impulse spectrum (every node and "
             "component) is evaluated for every configuration in the bound "
             "and compared with the exact expectation of the difference of "
             "pseudo-spectra, computed with pixel-space covariance matrices")
RULE = ("every (grid, spin pair, purification of either, 0..3 templates on "
        "either field incl. duplicated, combined and vanishing, equal / "
        "unequal masks and same field, masked on input, band layout, cut) in "
        "the bound x every impulse guess spectrum. big: larger grids, 9 "
        "templates, generic spectra. Non-trivial: expected "
        "bias not identically 0.")
ASSUMES = ["multipole bands increasing and non-overlapping",
           "at Nyquist frequencies the positive wavenumber is used",
           "for the self-pair the guess spectrum enters as a matrix"]
MIN_EVAL = 5000

SP = [(0, 0), (0, 2), (2, 0), (2, 2), (0, 1), (1, 2), (1, 1)]
HIGH = [(0, 5), (6, 4), (7, 0)]


def cases(tier, seed):
    grids = [(3, 5), (4, 3)] if tier == "quick" else \
        [(3, 5), (4, 3), (5, 5), (4, 4), (5, 3)]
    for n in grids:
        for geo in GEOM:
            for s1, s2 in SP:
                for p1 in ((0, 1, 2, 3) if s1 == 2 else (0,)):
                    for p2 in ((0, 1, 2, 3) if s2 == 2 else (0,)):
                        if tier == "quick" and p1 and p2 and p1 != p2:
                            continue
                        yield dict(n=n, geo=geo, spins=[s1, s2], p=[p1, p2])
    for n in [(21, 18)] if tier == "quick" else [(21, 18), (24, 31)]:
        for geo in list(GEOM)[1:]:
            for s1, s2 in SP+HIGH if n[0] == 21 else SP[1:4]+HIGH:
                for p1, p2 in ((0, 0), (3, 1))[:1+(2 in (s1, s2))]:
                    yield dict(t="big", n=n, geo=geo, spins=[s1, s2],
                               p=[p1*(s1 == 2), p2*(s2 == 2)])


def run_big(case, ctx):
    """Larger grids: one generic spectrum per component."""
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    (s1, s2), (p1, p2) = case["spins"], case["p"]
    rng = np.random.RandomState(ctx.seed+32)
    m1, m2 = mask(ctx, g, 0), mask(ctx, g, 1)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    d1, d2 = rng.randn(n1, g.ny, g.nx), rng.randn(n2, g.ny, g.nx)
    T1 = list(rng.randn(9, n1, g.ny, g.nx))
    T1[3] = T1[0]-2*T1[1]
    T2 = list(rng.randn(4, n2, g.ny, g.nx))
    x = np.linspace(0, g.k.max()*1.1, 150)
    ops, cls = [], []
    for c in range(n1*n2):
        y = rng.randn(len(x))
        C = np.zeros((n1, n2, g.ny, g.nx))
        C[c//n2, c % n2] = kfun(x, y)(g.k)
        ops.append(g.cov_op(C, s1, s2))
        q = np.zeros((n1*n2, len(x)))
        q[c] = y
        cls.append(q)
    for a, b, masked in ((T1, T2, False), (T1[:6], None, True)):
        f1 = Fld(g, m1, s1, p1, a, masked, d1)
        f2 = Fld(g, m2, s2, p2, b, masked, d2)
        one(ctx, g, f1, f2, ops, cls, x, [len(a), masked], 1)


class Fld(object):
    """One field: library object, and the exact operator maps -> coefs."""
    def __init__(self, g, m, s, pure, T, masked, data):
        import pymaster as nmt
        n = 2 if s else 1
        self.g, self.s, self.n, self.m = g, s, n, m
        N = g.nx*g.ny
        tin = None
        if T is not None:
            tin = np.array([t*m for t in T]) if masked else np.array(T)
        self.f = nmt.NmtFieldFlat(
            g.lx, g.ly, m, data*m if masked else data, spin=s, templates=tin,
            masked_on_input=masked, purify_e=bool(pure & 1),
            purify_b=bool(pure & 2))
        if pure:
            op = lambda a: g.pure(m, a, pure & 1, pure & 2)
        else:
            op = lambda a: g.anal(a*m, s)
        A0 = g.matrix(op, n)
        if T is None:
            self.A, self.A0 = A0, A0
            return
        # masked_on_input: what is divided out again is zero where m is zero
        Tu = np.array([np.where(m > 0, t, 0) if masked else t for t in T]
                      ).reshape(len(T), -1)
        F = np.array([t*m for t in T]).reshape(len(T), -1)
        G = np.linalg.pinv(F @ F.T, rcond=1e-10, hermitian=True)
        V = np.tile(m.ravel(), n)
        D = np.eye(n*N)-Tu.T @ G @ F*V[None, :]
        self.A, self.A0 = A0 @ D, A0


def tsets(rng, n, g, m):
    t = rng.randn(3, n, g.ny, g.nx)
    off = np.where(m > 0, 0., 1.)*rng.randn(n, g.ny, g.nx)
    return {"0": None, "1": [t[0]], "2": [t[0], t[1]],
            "comb": [t[0], t[1], t[0]-2*t[1]], "dup": [t[0], t[0]],
            "off": [off, t[0]], "3": list(t)}


def run(case, ctx):
    if case.get("t") == "big":
        return run_big(case, ctx)
    import pymaster as nmt
    from nmc.flat import Grid
    g = Grid(*case["n"], *GEOM[case["geo"]])
    (s1, s2), (p1, p2) = case["spins"], case["p"]
    rng = np.random.RandomState(ctx.seed+31)
    m1, m2 = mask(ctx, g, 0), mask(ctx, g, 1)
    n1, n2 = (2 if s1 else 1), (2 if s2 else 1)
    N = g.nx*g.ny
    d1, d2 = rng.randn(n1, g.ny, g.nx), rng.randn(n2, g.ny, g.nx)
    T1, T2 = tsets(rng, n1, g, m1), tsets(rng, n2, g, m2)
    u = np.unique(np.round(g.k, 10))
    x = np.concatenate([[0.5*u[1]], u[1::2]+0.013, [u[-1]*1.5, u[-1]*1.7]])
    # covariance operators of every impulse
    ops, cls = [], []
    for i in range(len(x)):
        y = np.zeros(len(x))
        y[i] = 1
        v = kfun(x, y)(g.k)
        if not v.any():
            continue
        for c in range(n1*n2):
            C = np.zeros((n1, n2, g.ny, g.nx))
            C[c//n2, c % n2] = v
            ops.append(g.cov_op(C, s1, s2))
            q = np.zeros((n1*n2, len(x)))
            q[c] = y
            cls.append(q)
    names = [("0", "0"), ("1", "0"), ("0", "1"), ("1", "1"), ("2", "1"),
             ("1", "2"), ("comb", "0"), ("0", "dup"), ("off", "comb"),
             ("dup", "off"), ("3", "2")]
    if ctx.tier != "quick":
        names = [(a, b) for a in T1 for b in T2]
    for j, (a, b) in enumerate(names):
        for masked in ((0, 1) if ctx.tier != "quick" or a == b == "1"
                       else (j % 2,)):
            f1 = Fld(g, m1, s1, p1, T1[a], bool(masked), d1)
            f2 = Fld(g, m2, s2, p2, T2[b], bool(masked), d2)
            one(ctx, g, f1, f2, ops, cls, x, [a, b, masked], j)
    # a field with itself
    if s1 == s2 and p1 == p2:
        for a in ("1", "2", "dup"):
            f1 = Fld(g, m1, s1, p1, T1[a], False, d1)
            one(ctx, g, f1, f1, ops, cls, x, [a, "self"], 0)
    del nmt, N


def one(ctx, g, f1, f2, ops, cls, x, sig, j):
    import pymaster as nmt
    bks = ("gap", "all", "lin", "exact")
    todo = [("gap", "none"), (bks[j % 4], list(CUTS)[j % len(CUTS)])]
    if ctx.tier != "quick":
        todo.append(("lin", list(CUTS)[j//4 % len(CUTS)]))
    N = g.nx*g.ny
    diff = []
    for O in ops:
        def prods(A, B):
            G = (A @ O).reshape(f1.n, N, -1)
            return np.einsum('ikq,jkq->ijk', G, B.reshape(
                f2.n, N, -1).conj()).real
        diff.append(prods(f1.A, f2.A)-prods(f1.A0, f2.A0))
    key = "pure" if (f1.f.fl.pure_e or f1.f.fl.pure_b or f2.f.fl.pure_e
                     or f2.f.fl.pure_b) else "plain"
    for bk, cn in todo:
        l0, lf = bands(g, bk)
        cx, cy = CUTS[cn]
        b = nmt.NmtBinFlat(l0, lf)
        ib = np.where(g.cut(cx, cy), -1, g.bands(l0, lf)).ravel()
        want = np.zeros((len(ops), f1.n*f2.n, len(l0)))
        for z in range(len(l0)):
            if np.any(ib == z):
                want[:, :, z] = np.array(
                    [d[:, :, ib == z].mean(axis=2).ravel() for d in diff])
        want *= 4*np.pi**2/(g.lx*g.ly)
        sc = max(np.abs(want).max(), 1e-10)
        bias = lambda cl: nmt.deprojection_bias_flat(
            f1.f, f2.f, b, x, cl, ell_cut_x=list(cx), ell_cut_y=list(cy))
        for i, cl in enumerate(cls):
            ctx.close(key, bias(cl), want[i], rtol=1e-8, scale=sc,
                      detail="%s %s %s impulse %d" % (sig, bk, cn, i))
            ctx.evaluated([sig, bk, cn, i], nontrivial=bool(
                np.abs(want[i]).max() > 1e-12))
        co = np.random.RandomState(3).randn(len(cls))
        ctx.close(key+":linear", bias(sum(c*q for c, q in zip(co, cls))),
                  np.einsum('i,ijk->jk', co, want), rtol=1e-8, scale=sc*10)
