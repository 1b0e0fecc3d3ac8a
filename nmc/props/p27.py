"""P27: the global default parameters as a register."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: every sequence of accepted and "
             "rejected setter calls and object constructions up to a depth is "
             "executed in lockstep with a model of the register; every value "
             "and the effect of every default are compared in every state "
             "reached")
RULE = ("All sequences up to the depth over (three calculators values, "
        "iteration numbers, mask iteration numbers, tolerances, rejected "
        "variants of each, changes of the returned dictionary, construction "
        "of objects); the register after each call, and in each state the "
        "numerical effect on fields, purification, masks, biases, couplings, "
        "covariances, flat fields, with and without explicit arguments, and "
        "all results of the objects built on the way. Non-trivial: register "
        "differs from the initial one.")
ASSUMES = ["the effect of explicit arguments is decided by P10-P13"]
MIN_EVAL = 3000

NAN = float("nan")
OPS = {
    "ducc": ("calc", "ducc"), "healpy": ("calc", "healpy"),
    "calcBad": ("calc", "DUCC"), "calcNone": ("calc", None),
    "n0": ("n", 0), "n1": ("n", 1), "n4": ("n", 4), "n2.0": ("n", 2.0),
    "nBad": ("n", -1), "nNan": ("n", NAN), "nStr": ("n", "a"),
    "nFrac": ("n", -0.25), "nNone": ("n", None), "nInf": ("n", np.inf),
    "m0": ("m", 0), "m2": ("m", 2), "mBad": ("m", -3), "mNan": ("m", NAN),
    "mStr": ("m", "1"),
    "t0": ("t", 0.), "t3": ("t", 0.3), "t1": ("t", 1), "tBad": ("t", -1E-3),
    "tBig": ("t", 1.001), "tNan": ("t", NAN), "tStr": ("t", "0.1"),
    "tNone": ("t", None),
    "dict": ("dict", None), "build": ("build", None),
}
SMALL = ["healpy", "calcBad", "n1", "nBad", "m0", "mBad", "t3", "tBig",
         "tNan", "dict", "build"]
INIT = dict(calc="ducc", n=3, m=3, t=1E-10)


def accepted(op):
    k, v = OPS[op]
    if k == "calc":
        return v in ("ducc", "healpy")
    if k in "nm":
        return not isinstance(v, str) and v is not None and \
            np.isfinite(v) and v >= 0
    if k == "t":
        return not isinstance(v, str) and v is not None and 0 <= v <= 1
    return True


def cases(tier, seed):
    yield dict(t="fresh")
    for a, b in itertools.product(OPS, OPS):
        yield dict(t="seq", prefix=[a, b], depth=3, al="all")
    for a, b in itertools.product(SMALL, SMALL):
        yield dict(t="seq", prefix=[a, b], depth=4 if tier == "quick" else 5,
                   al="small")


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)


def params():
    import pymaster as nmt
    d = nmt.get_default_params()
    return dict(calc=d["sht_calculator"], n=d["n_iter_default"],
                m=d["n_iter_mask_default"], t=d["tol_pinv_default"]), len(d)


def run_fresh(case, ctx):
    import os
    import subprocess
    import sys
    r = subprocess.run([sys.executable, "-c",
                        "import pymaster as n, json;"
                        "print('@'+json.dumps(n.get_default_params()))"],
                       capture_output=True, text=True, env=dict(
                           os.environ, PYTHONPATH=":".join(sys.path)))
    import json
    d = json.loads(r.stdout.split("@")[1])
    ctx.check(d == dict(sht_calculator="ducc", n_iter_default=3,
                        n_iter_mask_default=3, tol_pinv_default=1E-10),
              "initial", str(d))
    ctx.evaluated("fresh")


def do(op):
    import pymaster as nmt
    k, v = OPS[op]
    if k == "calc":
        nmt.set_sht_calculator(v)
    elif k == "n":
        nmt.set_n_iter_default(v)
    elif k == "m":
        nmt.set_n_iter_default(v, mask=True)
    elif k == "t":
        nmt.set_tol_pinv_default(v)
    elif k == "dict":
        d = nmt.get_default_params()
        for x in list(d):
            d[x] = 7
        d["new"] = 1


def put(r):
    import pymaster as nmt
    nmt.set_sht_calculator(r["calc"])
    nmt.set_n_iter_default(r["n"])
    nmt.set_n_iter_default(r["m"], mask=True)
    nmt.set_tol_pinv_default(r["t"])


_D = {}


def data(seed):
    if seed not in _D:
        import pymaster as nmt
        from nmc import lib as L
        rng = np.random.RandomState(seed+270)
        m1, m2 = L.smooth_masks(2, seed+1)
        a = np.array([1., 0.65, 0.3])
        d = dict(m=m1, m2=m2, x=rng.randn(1, 48), x2=rng.randn(2, 48),
                 t=[a[i]*rng.randn(1, 48) for i in range(3)],
                 t2=[a[i]*rng.randn(2, 48) for i in range(3)],
                 cg=1+rng.rand(1, 6), cg2=1+rng.rand(4, 6),
                 b=L.one_bin(5, 2), var=0.1+rng.rand(48),
                 fm=0.1+rng.rand(5, 6), fx=rng.randn(1, 5, 6),
                 ft=[a[i]*rng.randn(1, 5, 6) for i in range(3)],
                 car=L.car_wcs(6, 9, ra0=160.), bm=(rng.rand(48) > 0.2)*1.)
        d["cm"] = 0.1+rng.rand(*d["car"][1])
        d["cx"] = rng.randn(1, *d["car"][1])
        _D[seed] = d
    return _D[seed]


def build(D, kw):
    import pymaster as nmt
    kf = {k: v for k, v in kw.items() if k == "tol_pinv"}
    k = dict(lmax=5, lmax_mask=6, **kw)
    return dict(
        f0=nmt.NmtField(D["m"], D["x"], templates=D["t"], **k),
        f2=nmt.NmtField(D["m2"], D["x2"], purify_b=True, templates=D["t2"],
                        **k),
        fm=nmt.NmtField(D["m2"], None, spin=0, **k),
        ff=nmt.NmtFieldFlat(0.3, 0.2, D["fm"], D["fx"], templates=D["ft"],
                            **kf))


def look(o, D, kb):
    """Everything observable; kb: keyword arguments of the biases."""
    import pymaster as nmt
    f0, f2, fm, ff = o["f0"], o["f2"], o["fm"], o["ff"]
    r = {}
    for k, f in (("f0", f0), ("f2", f2), ("fm", fm)):
        r["mask-alms "+k] = f.get_mask_alms()
        if k != "fm":
            r["alms "+k] = f.get_alms()
            r["maps "+k] = f.get_maps()
            r["temp "+k] = f.get_templates()
    r["flat maps"] = ff.get_maps()
    r["bias 00"] = nmt.deprojection_bias(f0, f0, D["cg"], **kb)
    r["bias 22"] = nmt.deprojection_bias(f2, f2, D["cg2"], **kb)
    r["bias noise 0"] = nmt.uncorr_noise_deprojection_bias(f0, D["var"], **kb)
    r["bias noise 2"] = nmt.uncorr_noise_deprojection_bias(f2, D["var"], **kb)
    r["mcm 0m"] = nmt.NmtWorkspace.from_fields(f0, fm, D["b"]
                                               ).get_coupling_matrix()
    r["mcm 22"] = nmt.NmtWorkspace.from_fields(f2, f2, D["b"]
                                               ).get_coupling_matrix()
    w = nmt.NmtWorkspace.from_fields(f0, f0, D["b"])
    r["mcm 00"] = w.get_coupling_matrix()
    cw = nmt.NmtCovarianceWorkspace.from_fields(f0, f0, f0, fm)
    c = [D["cg"]]*4
    r["cov"] = nmt.gaussian_covariance(cw, 0, 0, 0, 0, *c, w, w,
                                       coupled=True)
    if kb:
        r["full"] = w.decouple_cell(nmt.compute_coupled_cell(f0, f0),
                                    cl_bias=r["bias 00"])
    else:
        r["full"] = nmt.compute_full_master(f0, f0, D["b"], cl_guess=D["cg"])
    return r


_R = {}


def reference(seed, r):
    """Explicit arguments, original defaults."""
    k = (seed, r["n"], r["m"], r["t"])
    if k not in _R:
        put(INIT)
        D = data(seed)
        o = build(D, dict(n_iter=int(r["n"]), n_iter_mask=int(r["m"]),
                          tol_pinv=r["t"]))
        _R[k] = {nb: look(o, D, dict(n_iter=nb)) for nb in (0, 1, 2, 3, 4)}
        put(r)
    return _R[k]


def same(ctx, got, want, key, hist):
    for k in want:
        ctx.close(key+" "+k, got[k], want[k], rtol=2e-8, detail=str(hist))


_SEEN = {}


def examine(ctx, seed, reg, objs, hist):
    """Effect of the register in force, and objects built before."""
    import pymaster as nmt
    D = data(seed)
    key = repr((sorted(reg.items()), [sorted(r.items()) for r, o in objs]))
    seen = _SEEN.setdefault((seed, key), 0)
    _SEEN[seed, key] += 1
    for ro, o in objs if seen < 6 else ():
        # an object keeps the defaults in force when it was built; the bias
        # calculation is done now
        same(ctx, look(o, D, {}), reference(seed, ro)[int(reg["n"])],
             "built", hist)
    if seen >= 2:
        return
    ref = reference(seed, reg)
    same(ctx, look(build(D, {}), D, {}), ref[int(reg["n"])], "default", hist)
    # explicit arguments win
    ex = dict(reg, n=1, m=2, t=0.3)
    kw = dict(n_iter=1, n_iter_mask=2, tol_pinv=0.3)
    want = reference(seed, ex)
    put(reg)
    same(ctx, look(build(D, kw), D, dict(n_iter=2)), want[2], "explicit",
         hist)
    # the calculator in force: only one of them handles CAR maps

    def car():
        return nmt.NmtField(D["cm"], D["cx"], wcs=D["car"][0], lmax=3,
                            lmax_mask=3)
    if reg["calc"] == "ducc":
        f = car()
        k = ("car", seed, reg["n"])
        if k not in _R:
            put(INIT)
            _R[k] = nmt.NmtField(D["cm"], D["cx"], wcs=D["car"][0], lmax=3,
                                 lmax_mask=3, n_iter=int(reg["n"])).get_alms()
            put(reg)
        ctx.close("car", f.get_alms(), _R[k], rtol=1e-10, detail=str(hist))
    else:
        ctx.raises("calculator", car, exc=ValueError, detail=str(hist))
    # not governed by the defaults
    a = nmt.mask_apodization(D["bm"], 40., apotype="Smooth")
    k = ("apo", seed)
    if k not in _R:
        put(INIT)
        _R[k] = nmt.mask_apodization(D["bm"], 40., apotype="Smooth")
        put(reg)
    ctx.close("apodization", a, _R[k], rtol=1e-9, detail=str(hist))


def run_seq(case, ctx):
    import pymaster as nmt
    seed = ctx.seed
    al = list(OPS) if case["al"] == "all" else SMALL
    put(INIT)
    D = data(seed)

    def step(reg, objs, op, hist):
        ok = accepted(op)
        new = dict(reg)
        k, v = OPS[op]
        if ok and k in new:
            new[k] = int(v) if k in "nm" else v
        if k == "build":
            objs = objs+[(dict(reg), build(D, {}))]
        else:
            try:
                do(op)
                done = True
            except Exception as e:
                done = False
                if not isinstance(e, (ValueError, KeyError, TypeError,
                                      OverflowError)):
                    ctx.fail("exception", "%s: %r" % (hist, e))
            ctx.check(done == ok, "accepted", "%s: %s" % (hist, done))
        got, nk = params()
        ctx.check(nk == 4 and got == new, "register",
                  lambda: "%s: %s, expected %s" % (hist, got, new))
        ctx.check(all(type(got[x]) is int for x in "nm"), "type", hist)
        ctx.transition(sorted(reg.items()), op, sorted(new.items()))
        ctx.state(repr(sorted(new.items())))
        ctx.evaluated(hist, sorted(new.items()), nontrivial=new != INIT)
        return new, objs

    n = len(case["prefix"])
    try:
        for d in range(case["depth"]-n+1):
            for rest in itertools.product(al, repeat=d):
                ops = case["prefix"]+list(rest)
                if ops.count("build") > 1:
                    continue
                put(INIT)
                reg, objs = dict(INIT), []
                for i, op in enumerate(ops):
                    reg, objs = step(reg, objs, op, ops[:i+1])
                examine(ctx, seed, reg, objs, ops)
                ctx.trace()
    finally:
        put(INIT)
    ctx.sample(case)
