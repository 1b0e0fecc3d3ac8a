"""P31: native memory and file handles are given back."""
import ctypes
import gc
import itertools
import os
import numpy as np

LEVEL = "exploration"
TECHNIQUE = ("exhaustive exploration of call histories on the real code under "
             "an instrumented allocator (preloaded): the set of live blocks "
             "allocated by the extension, GSL, CFITSIO, FFTW and numpy is compared "
             "before and after every history whose objects were all deleted, "
             "as is the set of open file descriptors; leaking sites are named")
RULE = ("call: every public call with valid arguments, and with every array "
        "argument in each of the layouts that force a conversion; hist: all "
        "sequences of operations up to depth 3 (thorough 4) on each class of "
        "object, deleted at the end; fault: every public call with every "
        "single invalid argument (descriptors; also memory when the refusal "
        "comes before the native layer); file, damage: every truncation (in "
        "2880-byte blocks and cards of the first two) of every kind of file, "
        "every HDU removed, repeated, swapped, emptied, every card deleted or "
        "replaced, every index out of range, every size of a full disk: "
        "descriptors only. "
        "A history is repeated until the count is stationary or has grown "
        "every time. Non-trivial: the history allocated native memory or "
        "opened files.")
ASSUMES = ["memory held when the native layer refuses a request is not "
           "released (it leaves by longjmp); only descriptors are judged "
           "there", "running out of memory is out of bounds"]
KINDS = ["leak"]
MIN_EVAL = 1500
CASE_TIMEOUT = 600

_L = {}


def lib():
    if "over" not in _L:
        h = ctypes.CDLL(None)
        for n in ("count", "bytes", "total", "over"):
            f = getattr(h, "nmc_leak_"+n)
            f.restype = ctypes.c_long
            _L[n] = f
        _L["list"] = h.nmc_leak_list
        h.nmc_leak_add.argtypes = [ctypes.c_char_p]
        import pymaster  # noqa
        n = 0
        for s in (b"/_nmtlib", b"/libgsl", b"/libcfitsio", b"/libfftw3",
                  b"/libchealpix", b"/_multiarray_umath"):
            m = h.nmc_leak_add(s)
            assert m > n or s == b"/libchealpix", s
            n = m
    return _L


def blocks():
    n = lib()["count"]()+4096
    P, N, A = ((ctypes.c_uint64*n)() for _ in range(3))
    m = _L["list"](P, N, A, n)
    return {P[i]: (N[i], A[i]) for i in range(m)}


def where(pc):
    """Name of the code that allocated."""
    maps = open("/proc/self/maps").read().split("\n")
    for ln in maps:
        f = ln.split()
        if len(f) < 6:
            continue
        a, b = (int(x, 16) for x in f[0].split("-"))
        if a <= pc < b:
            off = pc-a+int(f[2], 16)
            import subprocess
            env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
            try:
                t = subprocess.run(["addr2line", "-f", "-e", f[5], hex(off)],
                                   stdout=subprocess.PIPE, env=env, text=True,
                                   timeout=20).stdout.split("\n")
                return " ".join([t[0], os.path.basename(t[1])])
            except Exception:
                return "%s+%x" % (f[5], off)
    return hex(pc)


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/"+f)
        except OSError:
            pass
    return out


def state():
    gc.collect()
    assert not _L["over"]()
    return _L["count"](), _L["bytes"]()


def measure(ctx, name, fn, native=True, tries=5, detail=""):
    """fn() creates and drops everything; the live set must be stationary."""
    lib()
    fn()
    gc.freeze()
    for k in range(tries):
        a = blocks() if native and k == tries-1 else {}
        n0, f0 = state(), fds()
        fn()
        n1, f1 = state(), fds()
        lost = native and n1 > n0
        more = {f: n for f, n in f1.items() if f not in f0}
        if not lost and not more:
            break
    gc.unfreeze()
    ctx.check(not lost, "leak:"+name, lambda: "%s %d block(s), %d bytes not "
              "released after each call: %s" % (
                  detail, n1[0]-n0[0], n1[1]-n0[1], sorted({
                      where(x[1]) for q, x in blocks().items()
                      if q not in a})[:8]))
    ctx.check(not more, "descriptor:"+name, lambda: "%s left open: %s" % (
        detail, more))


def cases(tier, seed):
    from nmc.props import p20
    deep = tier != "quick"
    for n in p20.NAMES:
        yield dict(t="call", name=n)
    for o in sorted(HIST):
        ops = HIST[o]
        for first in ops:
            yield dict(t="hist", obj=o, first=first,
                       depth=4 if deep else 3)
    for n in p20.NAMES:
        yield dict(t="fault", name=n)
    for f in ("w", "wt", "c", "v", "cf"):
        yield dict(t="file", name=f)
    from nmc.props import p05
    for f in p05.FILES:
        for how in ("hdu", "card", "index", "disk"):
            yield dict(t="damage", f=f, how=how)


def run(case, ctx):
    globals()["run_"+case["t"]](case, ctx)
    ctx.sample(case)


def run_call(case, ctx):
    from nmc.props import p20, p21
    T = p20.table()
    fn, args, observe = T[case["name"]]

    def go(a=None):
        x = fn(**(a if a is not None else p20.valid(args)))
        observe(x)
        del x
    measure(ctx, case["name"], go)
    ctx.evaluated([case["name"]])
    for n in sorted(args):
        v = args[n][1]
        if not isinstance(v, np.ndarray):
            continue
        for var in ("be", "strided", "neg", "F", "list", "f4"):
            if not p21.applicable(v, var, None):
                continue
            a = p20.valid(args)
            a[n] = p21.variant(v, var)[0]
            try:
                go(a)
            except Exception:
                continue

            def again():
                a = p20.valid(args)
                a[n] = p21.variant(v, var)[0]
                go(a)
            measure(ctx, case["name"], again, detail="%s %s" % (n, var))
            ctx.evaluated([case["name"], n, var])


def run_fault(case, ctx):
    from nmc.props import p20
    T = p20.table()
    fn, args, observe = T[case["name"]]
    for n in sorted(args):
        for nm, val, must in p20.faults(*args[n]):
            if nm.startswith("may:"):
                continue
            ok, deep = [], []

            def go():
                a = p20.valid(args)
                a[n] = val
                try:
                    x = fn(**a)
                    observe(x)
                    ok.append(1)
                except RuntimeError:
                    deep.append(1)
                except Exception as e:
                    tb = e.__traceback__
                    while tb.tb_next:
                        tb = tb.tb_next
                    if "nmtlib" in tb.tb_frame.f_code.co_filename:
                        deep.append(1)
                    del tb, e
            go()
            # refused before the native layer: nothing may be lost
            measure(ctx, case["name"], go, native=not deep,
                    tries=5 if not deep else 2, detail="%s=%s" % (n, nm))
            ctx.evaluated([case["name"], n, nm], nontrivial=not ok)


# --- histories -------------------------------------------------------------

LM = 6


def world():
    """Long-lived things the histories use."""
    if "W" in _L:
        return _L["W"]
    import pymaster as nmt
    r = np.random.RandomState(11)
    W = dict(nmt=nmt)
    m = 0.2+r.rand(48)
    kw = dict(lmax=LM, lmax_mask=LM, n_iter=0, n_iter_mask=0)
    W["f0"] = nmt.NmtField(m, r.randn(1, 48), **kw)
    W["f2"] = nmt.NmtField(m, r.randn(2, 48), purify_b=True, **kw)
    W["fa"] = nmt.NmtField(m, r.randn(2, 48), spin=2, mask_22=m*1.5,
                           mask_12=0.1*m, **kw)
    W["b"] = nmt.NmtBin.from_lmax_linear(LM, 3)
    W["b2"] = nmt.NmtBin.from_lmax_linear(LM, 2)
    q = 0.2+r.rand(6, 6)
    W["g0"] = nmt.NmtFieldFlat(0.2, 0.2, q, r.randn(1, 6, 6))
    W["g2"] = nmt.NmtFieldFlat(0.2, 0.2, q, r.randn(2, 6, 6), purify_e=True)
    W["bf"] = nmt.NmtBinFlat([1., 40.], [40., 80.])
    W["l"] = np.arange(80.)
    wf = lambda a, b, **k: nmt.NmtWorkspace.from_fields(W[a], W[b], W["b"],
                                                        **k)
    d = os.getcwd()
    W["d"] = d
    W["w"], W["w22"] = wf("f0", "f0"), wf("f2", "f2")
    W["w"].write_to(d+"/w.fits")
    wf("f0", "f2", is_teb=True).write_to(d+"/wt.fits")
    c = nmt.NmtCovarianceWorkspace.from_fields(W["f0"], W["f0"])
    c.write_to(d+"/c.fits")
    v = nmt.NmtWorkspaceFlat()
    v.compute_coupling_matrix(W["g0"], W["g0"], W["bf"])
    v.write_to(d+"/v.fits")
    W["v"] = v
    c = nmt.NmtCovarianceWorkspaceFlat()
    c.compute_coupling_coefficients(W["g0"], W["g0"], W["bf"])
    c.write_to(d+"/cf.fits")
    _L["W"] = W
    return W


def W_(k):
    return world()[k]


def fuse(x, kind):
    """Uses whatever the object holds."""
    if x.wsp is None:
        return
    if kind == "w":
        c = np.ones((x.wsp.ncls, LM+1))
        x.decouple_cell(x.couple_cell(c) if x.has_unbinned else c)
        if x.has_unbinned:
            x.get_bandpower_windows()
            x.get_coupling_matrix()
    else:
        c = np.ones((x.wsp.ncls, 80))
        x.decouple_cell(x.couple_cell(W_("l"), c))


def cuse(x):
    c = np.ones((1, LM+1))
    for k in (0, 1):
        W_("nmt").gaussian_covariance(x, 0, 0, 0, 0, c, c, c, c, W_("w"),
                                      coupled=bool(k))


def cfuse(x):
    c = np.ones((1, 80))
    W_("nmt").gaussian_covariance_flat(x, 0, 0, 0, 0, W_("l"), c, c, c, c,
                                       W_("v"))


def comp(x, a, b, **k):
    x.compute_coupling_matrix(W_(a), W_(b), W_("b"), **k)


def mcm(x):
    x.update_coupling_matrix(x.get_coupling_matrix()*1.5)


HIST = {
    "NmtWorkspace": {
        "00": lambda x: comp(x, "f0", "f0"),
        "pure": lambda x: comp(x, "f2", "f2"),
        "teb": lambda x: comp(x, "f0", "f2", is_teb=True),
        "aniso": lambda x: comp(x, "fa", "fa"),
        "toeplitz": lambda x: comp(x, "f0", "f0", l_toeplitz=4, l_exact=2,
                                   dl_band=2),
        "FKP": lambda x: comp(x, "f0", "f0", normalization="FKP"),
        "beams": lambda x: x.update_beams(np.ones(LM+1), np.ones(LM+2)),
        "bins": lambda x: x.update_bins(W_("b2")),
        "mcm": mcm,
        "read": lambda x: x.read_from(W_("d")+"/w.fits"),
        "readr": lambda x: x.read_from(W_("d")+"/wt.fits",
                                       read_unbinned_MCM=False),
        "write": lambda x: x.write_to(W_("d")+"/o.fits"),
        "use": lambda x: fuse(x, "w"),
        "refused": lambda x: comp(x, "f0", "g0"),
    },
    "NmtWorkspaceFlat": {
        "00": lambda x: x.compute_coupling_matrix(W_("g0"), W_("g0"),
                                                  W_("bf")),
        "cut": lambda x: x.compute_coupling_matrix(
            W_("g0"), W_("g0"), W_("bf"), ell_cut_x=[-5., 5.]),
        "pure": lambda x: x.compute_coupling_matrix(W_("g2"), W_("g2"),
                                                    W_("bf")),
        "teb": lambda x: x.compute_coupling_matrix(W_("g0"), W_("g2"),
                                                   W_("bf"), is_teb=True),
        "read": lambda x: x.read_from(W_("d")+"/v.fits"),
        "write": lambda x: x.write_to(W_("d")+"/o.fits"),
        "use": lambda x: fuse(x, "v"),
    },
    "NmtCovarianceWorkspace": {
        "all": lambda x: x.compute_coupling_coefficients(W_("f0"), W_("f2")),
        "0": lambda x: x.compute_coupling_coefficients(
            W_("f0"), W_("f0"), spin0_only=True),
        "toeplitz": lambda x: x.compute_coupling_coefficients(
            W_("f0"), W_("f0"), l_toeplitz=4, l_exact=2, dl_band=2),
        "read": lambda x: x.read_from(W_("d")+"/c.fits"),
        "readr": lambda x: x.read_from(W_("d")+"/c.fits",
                                       force_spin0_only=True),
        "write": lambda x: x.write_to(W_("d")+"/o.fits"),
        "use": cuse,
    },
    "NmtCovarianceWorkspaceFlat": {
        "a": lambda x: x.compute_coupling_coefficients(W_("g0"), W_("g0"),
                                                       W_("bf")),
        "b": lambda x: x.compute_coupling_coefficients(W_("g0"), W_("g2"),
                                                       W_("bf")),
        "read": lambda x: x.read_from(W_("d")+"/cf.fits"),
        "write": lambda x: x.write_to(W_("d")+"/o.fits"),
        "use": cfuse,
    },
}


def run_hist(case, ctx):
    W = world()
    ops = HIST[case["obj"]]
    cls = getattr(W["nmt"], case["obj"])
    # every operation once, so that nothing is a first time
    for k in range(case["depth"]):
        for rest in itertools.product(sorted(ops), repeat=k):
            seq = (case["first"],)+rest
            # longer ones only where the last two operations keep state
            done = []

            def go():
                x = cls()
                n = 0
                for o in seq:
                    try:
                        ops[o](x)
                        n += 1
                    except (ValueError, AttributeError, NotImplementedError,
                            TypeError):
                        # refused before the native layer
                        pass
                    except RuntimeError as e:
                        done.append(str(e))
                del x
            measure(ctx, case["obj"], go, detail="-".join(seq))
            ctx.evaluated([case["obj"], seq])
            ctx.check(not [d for d in done if "ust initialize" not in d],
                      "unexpected-refusal", str(done[:1]))


def run_file(case, ctx):
    W = world()
    nmt = W["nmt"]
    fn = W["d"]+"/%s.fits" % case["name"]
    data = open(fn, "rb").read()
    bad = W["d"]+"/bad.fits"
    cuts = sorted(set(list(range(0, len(data), 2880)) +
                      list(range(0, min(len(data), 5760), 80)) +
                      [len(data)-1]))
    for n in cuts:
        with open(bad, "wb") as f:
            f.write(data[:n])

        def go():
            for cls in (nmt.NmtWorkspace, nmt.NmtWorkspaceFlat,
                        nmt.NmtCovarianceWorkspace,
                        nmt.NmtCovarianceWorkspaceFlat):
                x = cls()
                try:
                    x.read_from(bad)
                except Exception:
                    pass
                del x
        measure(ctx, "file:"+case["name"], go, native=False, tries=2)
        ctx.evaluated([case["name"], n])


def run_damage(case, ctx):
    """Every damage of P05's: the file is closed again."""
    from nmc.props import p05
    o = p05.get(case["f"], ctx.seed)
    lib()

    def attempt(o, ctx, key, data, what, strict=True):
        if "NAXIS2" in key and ("2147483647" in str(what) or
                                "99999999999" in str(what)):
            return      # runs out of memory
        fn = p05.path("t.fits")
        if data is not None:
            with open(fn, "wb") as f:
                f.write(data)
        f0 = fds()
        x = o.new()
        try:
            x.read_from(fn)
            ok = True
        except Exception:
            ok = False
        del x
        f1 = fds()
        more = {f: n for f, n in f1.items() if f not in f0}
        ctx.check(not more, "descriptor:read", lambda: "%s %s %s: left open "
                  "%s" % (o.name, key, what, more))
        if os.path.exists(fn):
            os.unlink(fn)
        ctx.evaluated([o.name, key, what], nontrivial=not ok)
    if case["how"] == "disk":
        import resource
        if o.name == "cold":
            return
        n = len(o.bytes)
        w = o.make()
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        fn = p05.path("w.fits")
        for p in sorted(set(list(range(0, n, 1440))+[1, n-1, n])):
            if os.path.exists(fn):
                os.unlink(fn)
            f0 = fds()
            resource.setrlimit(resource.RLIMIT_FSIZE, (p, hard))
            try:
                w.write_to(fn)
            except Exception:
                pass
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            f1 = fds()
            more = {f: n for f, n in f1.items() if f not in f0}
            ctx.check(not more, "descriptor:write", lambda: "%s limited to "
                      "%d bytes: left open %s" % (o.name, p, more))
            ctx.evaluated([o.name, "disk", p])
        return
    old = p05.attempt
    p05.attempt = attempt
    try:
        getattr(p05, "run_"+case["how"])(dict(part=0, of=1, fine=False), ctx,
                                         o)
    finally:
        p05.attempt = old
