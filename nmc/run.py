"""Explorer: enumerates a property's cases, runs them on workers, judges."""
import argparse
import collections
import importlib
import json
import os
import re
import resource
import select
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import VERIF, REPO, build as B

PY = sys.executable


def known_findings(prop):
    """Lines 'known: property=<id> key=<key> :: <what fails>'."""
    out = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$",
                         ln.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def worker_env(mod, kind, bdir):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("OMP_", "GOMP_", "DUCC0", "MALLOC_"))}
    env.update(PYTHONPATH=os.pathsep.join([bdir, VERIF, REPO]),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", DUCC0_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               MALLOC_PERTURB_="128", NMC_BUILD=bdir, NMC_REPO=REPO,
               MPLBACKEND="Agg", PYTHONFAULTHANDLER="1")
    env.update(getattr(mod, "ENV", {}))
    if kind == "leak":
        env["LD_PRELOAD"] = os.path.join(bdir, "libleak.so")
        env.pop("MALLOC_PERTURB_", None)
    if kind == "asan":
        env["LD_PRELOAD"] = " ".join(os.path.realpath(
            subprocess.check_output(["gcc", "-print-file-name=" + x])
            .decode().strip()) for x in ("libasan.so", "libstdc++.so"))
        env.pop("MALLOC_PERTURB_", None)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:"
                               "malloc_fill_byte=127:max_malloc_fill_size="
                               "268435456:allocator_may_return_null=1:"
                               "handle_segv=0:handle_abort=0:"
                               "detect_odr_violation=0:log_path=stderr")
    return env


def crash_text(t):
    """What preceded the crash and where it happened."""
    m = re.search(r"(?m)^(=+$|==\d+==ERROR|Fatal Python error)", t)
    if not m:
        return t[-1200:]
    i = m.start()
    return t[max(0, i-300):i]+t[i:].split("\n\nExtension mod")[0][:1500]


class Worker(object):
    def __init__(self, prop, mod, tier, seed, kind, bdir, scratch):
        self.args = (prop, mod, tier, seed, kind, bdir, scratch)
        self.p = None

    def start(self):
        prop, mod, tier, seed, kind, bdir, scratch = self.args
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.err = tempfile.TemporaryFile(dir=scratch)
        env = worker_env(mod, kind, bdir)
        env["NMC_SCRATCH"] = tempfile.mkdtemp(dir=scratch)

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if kind != "asan":
                lim = 6 << 30
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        self.p = subprocess.Popen(
            [PY, "-m", "nmc.worker", prop, tier, str(seed), str(r1), str(w2)],
            pass_fds=(r1, w2), env=env, cwd=env["NMC_SCRATCH"],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=self.err, preexec_fn=pre, start_new_session=True)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "w")
        self.r = r2
        self.buf = b""
        x = self.read(120)
        if x is None or "ready" not in x:
            raise RuntimeError("worker did not start: " + self.tail())

    def tail(self):
        self.err.seek(0, 2)
        n = self.err.tell()
        self.err.seek(max(0, n-20000))
        return self.err.read().decode(errors="replace")

    def read(self, timeout):
        end = time.time()+timeout
        while b"\n" not in self.buf:
            left = end-time.time()
            if left <= 0:
                return None
            rd, _, _ = select.select([self.r], [], [], left)
            if not rd:
                return None
            d = os.read(self.r, 1 << 16)
            if not d:
                return {"eof": 1}
            self.buf += d
        ln, self.buf = self.buf.split(b"\n", 1)
        return json.loads(ln)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.w.close()
            os.close(self.r)
            self.err.close()
            self.p = None

    def run(self, case, timeout):
        if self.p is None:
            self.start()
        try:
            self.w.write(json.dumps(case)+"\n")
            self.w.flush()
        except OSError:
            pass
        x = self.read(timeout)
        if x is None:
            t = self.tail()
            self.stop()
            return {"crash": "hang", "detail": "no answer in %gs\n%s" % (
                timeout, t[-800:])}
        if "eof" in x:
            try:
                rc = self.p.wait(20)
            except subprocess.TimeoutExpired:
                rc = None
            t = self.tail()
            self.stop()
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
            what = m.group(1) if m else ("signal %d" % -rc if rc and rc < 0
                                         else "exit %s" % rc)
            return {"crash": what, "detail": crash_text(t)}
        return x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of the case's JSON")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true",
                    help="do not stop at, or abbreviate, violations")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("nmc.props." + prop.lower())
    kinds = getattr(mod, "KINDS", ["omp"])
    bdirs = {k: B.build(k) for k in kinds}
    tb = time.time()-t0
    if a.replay:
        rep = json.load(open(a.replay))
        tier, seed = rep["tier"], rep["seed"]
        cases = [rep["case"]]
    else:
        cases = list(mod.cases(tier, seed))
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    for c in cases:
        c.setdefault("kind", kinds[0])
    total = len(cases)
    q = collections.deque(cases)
    lock = threading.Lock()
    agg = dict(n=0, trivial=0, sigs=set(), outs=set(), states=set(),
               trans=set(), traces=0, extra={}, samples=[])
    viols = []
    done = [0]
    errors = []
    timeout = getattr(mod, "CASE_TIMEOUT", 180)
    maxviol = 10**6 if a.all else 60
    known = known_findings(prop)

    with tempfile.TemporaryDirectory(prefix="nmc-") as scratch:
        def loop():
            ws = {}
            try:
                while True:
                    with lock:
                        if not q or errors or sum(
                                v[1] not in known for v in viols) >= maxviol:
                            return
                        case = q.popleft()
                    k = case["kind"]
                    if k not in ws:
                        ws[k] = Worker(prop, mod, tier, seed, k, bdirs[k],
                                       scratch)
                    t1 = time.time()
                    res = ws[k].run(case, timeout)
                    dt = time.time()-t1
                    with lock:
                        done[0] += 1
                        if a.v:
                            print("case %d/%d %.2fs n=%s viol=%d %s" % (
                                done[0], total, dt, res.get("n"),
                                len(res.get("viol", [])),
                                json.dumps(case)[:150]))
                            sys.stdout.flush()
                        if "crash" in res:
                            viols.append((case, "crash:%s" % res["crash"] +
                                          mod_key(mod, case), res["detail"]))
                            continue
                        for f in ("n", "trivial", "traces"):
                            agg[f] += res[f]
                        for f in ("sigs", "outs", "states", "trans"):
                            agg[f].update(res[f])
                        for kk, vv in res["extra"].items():
                            agg["extra"][kk] = agg["extra"].get(kk, 0)+vv
                        if len(agg["samples"]) < 6 and res["samples"]:
                            agg["samples"].extend(res["samples"][:1])
                        for v in res["viol"]:
                            if v["key"] in known and any(
                                    x[1] == v["key"] for x in viols):
                                continue
                            viols.append((case, v["key"], v["detail"]))
            except Exception as e:
                with lock:
                    errors.append(repr(e)[:3000])
            finally:
                for w in ws.values():
                    w.stop()
        ths = [threading.Thread(target=loop)
               for _ in range(max(1, min(a.j, total)))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    if errors:
        print("CHECK-ERROR property=%s %s" % (prop, errors[0]))
        return 2

    seen_known = {}
    fresh = []
    for case, key, detail in viols:
        if key in known:
            seen_known.setdefault(key, detail)
        else:
            fresh.append((case, key, detail))
    for key in known:
        if key in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))

    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = {}
    for case, key, detail in fresh:
        if key in shown and not a.all:
            continue
        shown[key] = 1
        if len(shown) > 8 and not a.all:
            continue
        fn = os.path.join(rdir, "%s-%d.json" % (prop, len(shown)))
        json.dump({"property": prop, "tier": tier, "seed": seed, "key": key,
                   "case": case, "detail": detail}, open(fn, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (
            prop, os.path.relpath(fn, VERIF)))
        print("  key: %s\n  case: %s\n  %s" % (
            key, json.dumps(case)[:400], detail.replace("\n", "\n  ")[:1200]))

    wall = time.time()-t0
    full = done[0] == total and not a.only and not a.replay
    cov = dict(evaluations=agg["n"], distinct_nontrivial=len(agg["sigs"]),
               distinct_outcomes=len(agg["outs"]), cases=total,
               cases_run=done[0], rule=mod.RULE,
               samples=agg["samples"] or [cases[0] if cases else {}],
               exhaustive=bool(full and not fresh))
    if mod.LEVEL == "model_checking":
        cov.update(states=len(agg["states"]), transitions=len(agg["trans"]),
                   traces_validated_against_impl=agg["traces"])
    cov.update(agg["extra"])
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=list(getattr(mod, "ASSUMES", [])),
              wall_s=round(wall, 2), violations=len(fresh))
    if not a.replay and not a.only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"),
                           "w"), indent=1)
    print("%s %s seed=%d: %d/%d cases, %d evaluations (%d distinct "
          "non-trivial, %d distinct outcomes)%s, %d violation(s), %d known; "
          "%.1fs (build %.1fs)" % (
              prop, tier, seed, done[0], total, agg["n"], len(agg["sigs"]),
              len(agg["outs"]),
              "".join(", %s=%s" % kv for kv in
                      [(k, cov[k]) for k in cov if k in agg["extra"]
                       or k in ("states", "transitions",
                                "traces_validated_against_impl")]),
              len(fresh), len(seen_known), wall, tb))
    if fresh:
        return 1
    if not a.replay and not a.only and agg["n"] < getattr(mod, "MIN_EVAL", 1):
        print("CHECK-ERROR property=%s explored too little (%d)" % (
            prop, agg["n"]))
        return 2
    return 0


def mod_key(mod, case):
    f = getattr(mod, "case_key", None)
    return ":" + f(case) if f else ""


if __name__ == "__main__":
    sys.exit(main())
