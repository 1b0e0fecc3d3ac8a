"""What a property's run(case, ctx) reports to the explorer."""
import hashlib
import json
import numpy as np


def digest(obj):
    """Short stable hash of a JSON-able object or array (rounded)."""
    if isinstance(obj, np.ndarray):
        a = np.asarray(obj, dtype=complex if np.iscomplexobj(obj)
                       else float).ravel()
        a = np.concatenate([a.real, a.imag]) if np.iscomplexobj(a) else a
        s = np.max(np.abs(a[np.isfinite(a)]), initial=0.0)
        if s > 0:
            a = np.round(a/s, 6)+0.0
        b = a.tobytes() + (b"%.5e" % s)
    else:
        b = json.dumps(obj, sort_keys=True, default=str).encode()
    return hashlib.blake2b(b, digest_size=8).hexdigest()


class Ctx(object):
    def __init__(self, case, tier, seed):
        self.case, self.tier, self.seed = case, tier, seed
        self.n = 0
        self.trivial = 0
        self.sigs = set()
        self.outs = set()
        self.viol = []
        self.states = set()
        self.trans = set()
        self.traces = 0
        self.extra = {}
        self.samples = []

    # --- counting -------------------------------------------------------
    def evaluated(self, sig, out=None, nontrivial=True):
        """One evaluation of the property; sig identifies the input."""
        self.n += 1
        if nontrivial:
            self.sigs.add(digest([self.case, sig]))
        else:
            self.trivial += 1
        if out is not None:
            self.outs.add(digest(out))

    def state(self, s):
        self.states.add(s if isinstance(s, str) else digest(s))

    def transition(self, a, op, b):
        self.trans.add(digest([a, op, b]))

    def trace(self, n=1):
        self.traces += n

    def add(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    # --- judging --------------------------------------------------------
    def fail(self, key, detail=""):
        if sum(v["key"] == str(key) for v in self.viol[-400:]) < 20 and \
                len(self.viol) < 400:
            self.viol.append({"key": str(key), "detail": str(detail)[:1500]})

    def check(self, cond, key, detail=""):
        if not cond:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(cond)

    def close(self, key, got, want, rtol=1e-8, atol=0.0, scale=None,
              detail=""):
        """got == want to rounding; atol is relative to the data's scale."""
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.shape != want.shape:
                self.fail(key, "%s shape %s, expected %s" % (
                    detail, got.shape, want.shape))
                return False
            if got.size == 0:
                return True
            if not np.all(np.isfinite(got)):
                if not np.array_equal(np.isfinite(got), np.isfinite(want)):
                    i = np.argwhere(~np.isfinite(got))[0]
                    self.fail(key, "%s non-finite value at %s: expected %r" % (
                        detail, tuple(i), want[tuple(i)]))
                    return False
            s = scale if scale is not None else np.max(np.abs(want))
            err = np.abs(got-want)
            tol = rtol*max(s, 1e-300) + atol
            bad = ~(err <= tol)
            if np.any(bad):
                i = np.unravel_index(np.argmax(np.where(bad, err, -1)),
                                     err.shape)
                self.fail(key, "%s at %s: got %r, expected %r (scale %.3g, "
                          "%d/%d elements differ)" % (
                              detail, tuple(int(x) for x in i), got[i],
                              want[i], s, int(bad.sum()), bad.size))
                return False
            return True
        except Exception as e:  # shapes that do not even compare
            self.fail(key, "%s cannot compare: %r" % (detail, e))
            return False

    def raises(self, key, fn, exc=Exception, detail=""):
        """fn must raise a Python exception (a crash ends the worker)."""
        try:
            r = fn()
        except exc as e:
            return e
        except BaseException as e:
            self.fail(key, "%s raised %r" % (detail, e))
            return None
        self.fail(key, "%s accepted, returned %s" % (detail, repr(r)[:200]))
        return None

    def result(self):
        return {"n": self.n, "trivial": self.trivial,
                "sigs": sorted(self.sigs), "outs": sorted(self.outs),
                "viol": self.viol, "states": sorted(self.states),
                "trans": sorted(self.trans), "traces": self.traces,
                "extra": self.extra, "samples": self.samples}
