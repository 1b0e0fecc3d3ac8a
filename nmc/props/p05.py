"""P05: fault enumeration over stored workspace files."""
import os
import resource
import numpy as np

LEVEL = "fault_enumeration"
TECHNIQUE = ("fault enumeration: every truncation point, every removed part, "
             "every header card removed or replaced, every out-of-range table "
             "index and every write-size limit, each executed against the "
             "real readers and writers followed by a recovery operation")
RULE = ("For each kind of file (curved MASTER/FKP/TEB, flat, curved and flat "
        "covariance): every truncation at card granularity and around every "
        "block, every HDU removed or swapped, every header card deleted or "
        "its value replaced from an alphabet, every index column entry out "
        "of range, every reader on every other kind, and every file-size "
        "limit while writing. After each, the outcome must be an exception "
        "or an equal object, and the undamaged file at the same path must "
        "then be read correctly by the same object. Non-trivial: the read "
        "was refused.")
ASSUMES = ["damage that leaves a consistent file with other valid numbers "
           "(a flipped bit in a matrix element) is not detectable: the "
           "format has no checksums"]
MIN_EVAL = 2000
KINDS = ["omp", "asan"]
FILES = ["c00", "cold", "cFKP", "cteb", "f02", "cov", "cov0", "covf"]


def cases(tier, seed):
    kinds = ["omp"] if tier == "quick" else ["omp", "asan"]
    for kd in kinds:
        for k in FILES:
            for t in ("trunc", "hdu", "card", "index", "cross", "wlimit"):
                if k == "cold" and t == "wlimit":
                    continue
                n = 8 if t in ("trunc", "card") else 1
                for i in range(n):
                    yield dict(t=t, f=k, part=i, of=n, kind=kd,
                               fine=tier != "quick" and kd == "omp")


def case_key(case):
    return "%s:%s" % (case["f"], case["t"])


def path(n):
    return os.path.join(os.environ["NMC_SCRATCH"], n)


class Obj(object):
    """A workspace of one kind: how to read, write and observe it."""
    def __init__(self, name, seed):
        import pymaster as nmt
        from nmc import lib as L
        from nmc.props import p04
        self.name = name

        class C(object):
            pass
        c = C()
        c.seed = seed
        rng = np.random.RandomState(seed+9)
        lmax = 5
        ms = L.smooth_masks(2, 20+seed, 2)
        s = L.Scheme(lmax, [-1, -1, 0, 0, 1, 1], weights=1.+np.arange(6),
                     f_ell=1+np.arange(6)*0.2)
        self.cls = None
        if name[0] == "c" and not name.startswith("cov"):
            sp = {"c00": (0, 0), "cold": (0, 0), "cFKP": (0, 2), "cteb": (0, 2)}[name]
            f = [nmt.NmtField(m, None, spin=x, lmax=lmax, lmax_mask=lmax+1)
                 for m, x in zip(ms, sp)]
            self.make = lambda: nmt.NmtWorkspace.from_fields(
                f[0], f[1], s.nmt, is_teb=name == "cteb",
                normalization="FKP" if name == "cFKP" else "MASTER")
            self.new = nmt.NmtWorkspace
            w = self.make()
            n = w.wsp.ncls
            cl = rng.randn(n, lmax+1)
            self.obs = lambda w: [w.get_coupling_matrix(),
                                  w.couple_cell(cl), w.decouple_cell(cl),
                                  w.get_bandpower_windows()]
        elif name == "f02":
            f = p04.flat_fields(c, (0, 2))
            b = p04.flat_bins(0)

            def mk():
                w = nmt.NmtWorkspaceFlat()
                w.compute_coupling_matrix(f[0], f[1], b,
                                          ell_cut_x=[-20., 20.])
                return w
            self.make, self.new = mk, nmt.NmtWorkspaceFlat
            w = mk()
            n, nb = w.wsp.ncls, w.wsp.bin.n_bands
            ell = np.linspace(0, 300, 31)
            cl, dl = rng.randn(n, 31), rng.randn(n, nb)
            self.obs = lambda w: [w.couple_cell(ell, cl),
                                  w.decouple_cell(dl)]
        elif name == "covf":
            f = p04.flat_fields(c, (0, 2))
            b = p04.flat_bins(0)
            w0 = nmt.NmtWorkspaceFlat()
            w0.compute_coupling_matrix(f[0], f[1], b)

            def mk():
                w = nmt.NmtCovarianceWorkspaceFlat()
                w.compute_coupling_coefficients(f[0], f[1], b)
                return w
            self.make, self.new = mk, nmt.NmtCovarianceWorkspaceFlat
            ell = np.linspace(0, 300, 31)
            cls = [rng.rand(n, 31) for n in (1, 2, 2, 4)]
            self.obs = lambda w: [nmt.gaussian_covariance_flat(
                w, 0, 2, 0, 2, ell, *cls, w0)]
        else:
            s0 = name == "cov0"
            sp = (0, 0) if s0 else (0, 2)
            f = [nmt.NmtField(m, None, spin=x, lmax=lmax, lmax_mask=lmax)
                 for m, x in zip(ms, sp)]
            w0 = nmt.NmtWorkspace.from_fields(f[0], f[1], s.nmt)
            self.make = lambda: nmt.NmtCovarianceWorkspace.from_fields(
                f[0], f[1], spin0_only=s0)
            self.new = nmt.NmtCovarianceWorkspace
            cls = [rng.rand(n, lmax+1) for n in
                   ((1, 1, 1, 1) if s0 else (1, 2, 2, 4))]
            self.obs = lambda w: [nmt.gaussian_covariance(
                w, *(sp*2), *cls, w0)]
        w = self.make()
        self.good = path("good_%s.fits" % name)
        w.write_to(self.good)
        if name == "cold":
            L.to_old_layout(self.good, path("old.fits"))
            os.rename(path("old.fits"), self.good)
        self.bytes = open(self.good, "rb").read()
        self.want = [x.copy() for x in self.obs(w)]


_O = {}


def get(name, seed):
    if (name, seed) not in _O:
        _O[(name, seed)] = Obj(name, seed)
    return _O[(name, seed)]


def attempt(o, ctx, key, data, what, strict=True):
    """Read damaged bytes, then the good ones, at the same path."""
    fn = path("t.fits")
    if data is not None:
        with open(fn, "wb") as f:
            f.write(data)
    elif os.path.exists(fn):
        os.unlink(fn)
    w = o.new()
    refused = False
    try:
        w.read_from(fn)
        got = o.obs(w)
    except Exception:
        refused = True
    if not refused and strict:
        for a, b in zip(got, o.want):
            ctx.close("%s:%s:silent" % (o.name, key), a, b, rtol=1e-9,
                      detail=what)
    with open(fn, "wb") as f:
        f.write(o.bytes)
    try:
        w.read_from(fn)
        for a, b in zip(o.obs(w), o.want):
            ctx.close("%s:%s:recovery" % (o.name, key), a, b, rtol=1e-9,
                      detail=what)
    except Exception as e:
        ctx.fail("%s:%s:recovery" % (o.name, key), "%s: %r" % (what, e))
    os.unlink(fn)
    ctx.evaluated([key, what], [refused], nontrivial=refused)
    return refused


def run(case, ctx):
    o = get(case["f"], ctx.seed)
    globals()["run_"+case["t"]](case, ctx, o)
    ctx.sample(dict(case, size=len(o.bytes)))


def mine(case, it):
    for i, x in enumerate(it):
        if i % case["of"] == case["part"]:
            yield x


def run_trunc(case, ctx, o):
    n = len(o.bytes)
    pts = set([0, 1, 79])
    step = 40 if case["fine"] else 80*3
    pts.update(range(0, n, step))
    for b in range(0, n+1, 2880):
        pts.update(x for x in (b-1, b, b+1, b+1440) if 0 <= x < n)
    for p in mine(case, sorted(pts)):
        attempt(o, ctx, "trunc", o.bytes[:p], p)
        if case["fine"] and p % 2880 == 0:
            attempt(o, ctx, "zero-tail", o.bytes[:p]+b"\0"*(n-p),
                    "zeros from %d" % p, strict=False)


def split_hdus(o):
    from astropy.io import fits
    with fits.open(o.good) as h:
        offs = []
        for x in h:
            i = x.fileinfo()
            offs.append((i["hdrLoc"], i["datLoc"],
                         i["datLoc"]+i["datSpan"], x.name))
    return offs


def run_hdu(case, ctx, o):
    offs = split_hdus(o)
    attempt(o, ctx, "missing", None, "missing file")
    attempt(o, ctx, "garbage", b"garbage"*1000, "not a FITS file")
    attempt(o, ctx, "text", b"SIMPLE  =                    T"+b" "*50, "card")
    d = path("t.fits")
    os.mkdir(d)
    w = o.new()
    ctx.raises(o.name+":directory", lambda: w.read_from(d))
    os.rmdir(d)
    parts = [o.bytes[a:c] for a, b, c, n in offs]
    for i in range(len(parts)):
        rest = parts[:i]+parts[i+1:]
        attempt(o, ctx, "removed", b"".join(rest), "HDU %s" % offs[i][3])
        attempt(o, ctx, "cut", b"".join(parts[:i]), "from HDU %s on" %
                offs[i][3])
        if i:
            attempt(o, ctx, "dup", b"".join(parts[:i]+[parts[i]]+parts[i:]),
                    "duplicate HDU %s" % offs[i][3])
        # header without data / data of zeros of another size
        a, b, c, n = offs[i]
        if c > b:
            attempt(o, ctx, "nodata", o.bytes[:b]+o.bytes[c:],
                    "no data in %s" % n)
            attempt(o, ctx, "extra", o.bytes[:c]+b"\0"*2880+o.bytes[c:],
                    "extra block after %s" % n)
    for i in range(1, len(parts)):
        for j in range(i+1, len(parts)):
            q = list(parts)
            q[i], q[j] = q[j], q[i]
            attempt(o, ctx, "swap", b"".join(q), "order %d %d" % (i, j))


VALS = ["-1", "0", "1", "2", "2147483647", "99999999999", "1.5", "1E30",
        "'x       '", "", "T"]


FLAGS = ("IS_TEB", "NORM_TYPE", "PURE_E1", "PURE_E2", "PURE_B1",
         "PURE_B2", "SPIN0_ONLY")


def run_card(case, ctx, o):
    offs = split_hdus(o)
    todo = []
    for a, b, c, name in offs:
        for p in range(a, b, 80):
            card = o.bytes[p:p+80]
            k = card[:8].decode().strip()
            if k in ("COMMENT", ""):
                continue
            todo.append((p, k, card, name))
    for p, k, card, name in mine(case, todo):
        new = [("deleted", None), ("blank", b" "*80),
               ("junk", b"\xff"*80)]
        if card[8:10] == b"= ":
            old = card[10:].decode().split("/")[0].strip()
            alts = list(VALS)
            try:
                v = float(old)
                if v == int(v) and "E" not in old and "." not in old:
                    alts += [str(int(v)-1), str(int(v)+1)]
                else:
                    # a different valid physical value is not detectable
                    alts = ["'x       '", "", "T", "-1"]
                    if k in ("LX", "LY", "PIXSIZE", "DELL", "I_DELL",
                             "LMAX", "ELLCUT_X_I", "ELLCUT_X_F",
                             "ELLCUT_Y_I", "ELLCUT_Y_F"):
                        alts.remove("-1")
            except ValueError:
                pass
            for v in alts:
                if v != old:
                    new.append((v, (card[:10].decode()+"%20s" % v).ljust(
                        80).encode()[:80]))
        for what, n in new:
            if what == "deleted":
                if k in ("NORM_TYPE",):
                    continue      # a valid old-format file
                # remove the card, keeping the header's size
                a, b = [(x, y) for x, y, z, _ in offs if x <= p < y][0]
                data = (o.bytes[:p]+o.bytes[p+80:b]+b" "*80 +
                        o.bytes[b:])
            else:
                if k == "NORM_TYPE" and what in ("blank", "junk"):
                    continue
                data = o.bytes[:p]+n+o.bytes[p+80:]
            # Another legal value of these describes another (consistent)
            # object or layout: it may be accepted, but must not crash.
            legal = (k in FLAGS or k.startswith("TFORM") or k == "PCOUNT" or
                     (k == "NAXIS2" and name in ("BANDPOWERS", "FS_INFO")) or
                     (what == "T" and "." in card[10:30].decode()))
            strict = not legal or what in ("deleted", "blank", "junk")
            attempt(o, ctx, "card:"+k, data, "%s %s -> %r" % (name, k, what),
                    strict)


def run_index(case, ctx, o):
    from astropy.io import fits
    with fits.open(o.good) as h:
        names = [x.name for x in h]
    fn = path("idx.fits")
    for name in names:
        for cols in (["BAND", "ELLS"], ["N_CELLS"], [None]):
            for col in cols:
                with fits.open(o.good) as h:
                    x = h[name]
                    if col is None:
                        if name != "MCM_PERM":
                            continue
                        n = len(x.data)
                    else:
                        if x.data is None or not hasattr(
                                x, "columns") or col not in x.columns.names:
                            continue
                        n = len(x.data)
                for i in range(n):
                    for v in ([-1, -7] if col != "BAND" else [])+[
                            n+50, n+99, 2**30, -2**31]:
                        if col == "N_CELLS":
                            continue
                        if col == "BAND" and v < 0:
                            continue   # means: in no band
                        with fits.open(o.good) as h:
                            if col is None:
                                h[name].data[i] = v
                            else:
                                h[name].data[col][i] = v
                            h.writeto(fn, overwrite=True)
                        attempt(o, ctx, "index:%s" % (col or name),
                                open(fn, "rb").read(),
                                "%s[%d]=%d" % (col or name, i, v))
                # repeated entries of the permutation
                if col is None and n > 1:
                    with fits.open(o.good) as h:
                        h[name].data[:] = 0
                        h.writeto(fn, overwrite=True)
                    attempt(o, ctx, "index:perm0", open(fn, "rb").read(),
                            "permutation of zeros")
    ctx.evaluated("index", nontrivial=False)


def run_cross(case, ctx, o):
    for k in FILES:
        g = get(k, ctx.seed)
        if g.new is o.new:
            continue
        attempt(o, ctx, "kind:"+k, g.bytes, "file of kind "+k)
        # reading it over an initialised object
        w = o.make()
        try:
            w.read_from(g.good)
            ctx.fail(o.name+":kind:accepted", k)
        except Exception:
            pass
        w.read_from(o.good)
        for a, b in zip(o.obs(w), o.want):
            ctx.close(o.name+":kind:recovery", a, b, rtol=1e-9)
    # very long names
    for n in (100, 200, 255, 300, 1000, 1024, 1100, 2000, 5000):
        for mk in (lambda n: "/"+"x"*n, lambda n: "/tmp/"+"y/"*(n//2)+"z"):
            w = o.new()
            ctx.raises(o.name+":longname", lambda: w.read_from(mk(n)))
            w = o.make()
            ctx.raises(o.name+":longname-write",
                       lambda: w.write_to("/nonexistent"+mk(n)))
            for a, b in zip(o.obs(w), o.want):
                ctx.close(o.name+":longname:after", a, b)
            ctx.evaluated(["long", n])


def run_wlimit(case, ctx, o):
    """Disk full after k bytes while writing."""
    n = len(o.bytes)
    fn = path("w.fits")
    pts = sorted(set(list(range(0, n, 2880))+list(range(1000, n, 2880)) +
                     [n-1, n]))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    w = o.make()
    for p in pts:
        if os.path.exists(fn):
            os.unlink(fn)
        err = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (p, hard))
        try:
            w.write_to(fn)
        except Exception as e:
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if err is None:
            try:
                r = o.new()
                r.read_from(fn)
                for a, b in zip(o.obs(r), o.want):
                    ctx.close(o.name+":wlimit:content", a, b, rtol=1e-9,
                              detail="limit %d" % p)
            except Exception as e:
                # cfitsio drops the error of the last flush of stdio's buffer
                last = p > (n-1)//4096*4096 and p >= n-2880
                ctx.fail("wlimit:last-flush" if last else
                         o.name+":wlimit:silent", "limit %d of %d: write "
                         "reported success, read says %r" % (p, n, e))
        # the object is unharmed and can be written once there is room
        try:
            w.write_to(fn)
            r = o.new()
            r.read_from(fn)
            for a, b in zip(o.obs(r)+o.obs(w), o.want+o.want):
                ctx.close(o.name+":wlimit:after", a, b, rtol=1e-9)
        except Exception as e:
            ctx.fail(o.name+":wlimit:after", "limit %d: %r" % (p, e))
        ctx.evaluated(["wlimit", p], nontrivial=err is not None)
    # unwritable places
    for bad in ("/nonexistent/dir/x.fits", path("."), ""):
        ctx.raises(o.name+":unwritable", lambda: w.write_to(bad))
        ctx.evaluated(["unw", bad])
