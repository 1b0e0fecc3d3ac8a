"""Builds the native extension from the repository's current working tree.

Nothing is written in the repository: objects go to /verif/.build/<kind>-<hash>,
where the hash covers every source byte and every flag, so that a changed tree
is always rebuilt and an unchanged one is reused.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import fcntl
from concurrent.futures import ThreadPoolExecutor

from . import VERIF, REPO

CONFIG_H = "\n".join(
    "#define %s 1" % k for k in
    ["HAVE_COMPLEX_H", "HAVE_DLFCN_H", "HAVE_INTTYPES_H", "HAVE_MALLOC",
     "HAVE_MATH_H", "HAVE_OMP_H", "HAVE_POW", "HAVE_SQRT", "HAVE_STDARG_H",
     "HAVE_STDINT_H", "HAVE_STDIO_H", "HAVE_STDLIB_H", "HAVE_STRINGS_H",
     "HAVE_STRING_H", "HAVE_SYS_STAT_H", "HAVE_SYS_TYPES_H", "HAVE_TIME_H",
     "HAVE_UNISTD_H", "STDC_HEADERS"]) + """
#define PACKAGE "namaster"
#define PACKAGE_NAME "namaster"
#define PACKAGE_STRING "namaster 0.0"
#define PACKAGE_VERSION "0.0"
#define VERSION "0.0"
"""

LIBS = ["-lchealpix", "-lcfitsio", "-lgsl", "-lgslcblas", "-lfftw3", "-lm"]

KINDS = {
    # what users run: optimised, with OpenMP
    "omp": dict(cc="gcc", cflags=["-O2", "-fopenmp", "-g1"],
                wflags=["-O1", "-fopenmp"], ldflags=["-fopenmp"]),
    # memory-error detection (interpreter runs with LD_PRELOAD=libasan)
    "asan": dict(cc="gcc", cflags=["-O1", "-g1", "-fno-omit-frame-pointer",
                                   "-fsanitize=address", "-fopenmp"],
                 wflags=["-O1", "-g1", "-fsanitize=address", "-fopenmp"],
                 ldflags=["-fsanitize=address", "-fopenmp"]),
    # OpenMP model checking: memory accesses instrumented, own OpenMP runtime
    "sched": dict(cc="gcc", cflags=["-O1", "-g1", "-fopenmp",
                                    "-fsanitize=thread", "-U_FORTIFY_SOURCE",
                                    "-fno-tree-vectorize",
                                    "--param=tsan-instrument-func-entry-exit=0"],
                  wflags=["-O1", "-U_FORTIFY_SOURCE"],
                  ldflags=["-Wl,-Bsymbolic"]+["-Wl,--wrap="+f for f in (
                      "malloc calloc realloc free memcpy memset fftw_malloc "
                      "fftw_free fftw_plan_dft_r2c_2d fftw_plan_dft_c2r_2d "
                      "fftw_execute fftw_destroy_plan gsl_interp_accel_alloc "
                      "gsl_interp_accel_free gsl_spline_eval gsl_rng_uniform "
                      "gsl_rng_get gsl_matrix_get gsl_matrix_set "
                      "gsl_vector_get gsl_vector_set").split()],
                  extra=["sched.c"]),
    # as omp, with an allocator wrapper that is preloaded
    "leak": dict(cc="gcc", cflags=["-O2", "-fopenmp", "-g1"],
                 wflags=["-O1", "-fopenmp"], ldflags=["-fopenmp"],
                 preload=["leak.c"]),
}


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (
            " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def sources():
    cs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    hs = sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    wrap = os.path.join(REPO, "pymaster", "namaster_wrap.c")
    return cs, hs, wrap


def build(kind="omp"):
    """Returns the directory holding _nmtlib for this kind of build."""
    spec = KINDS[kind]
    cs, hs, wrap = sources()
    native = os.path.join(VERIF, "nmc", "native")
    extra = [os.path.join(native, e) for e in spec.get("extra", [])]
    h = hashlib.sha256()
    pre = [os.path.join(native, e) for e in spec.get("preload", [])]
    for f in cs + hs + [wrap] + extra + pre:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((sorted(spec.items()), CONFIG_H, LIBS,
                   sys.version)).encode())
    root = os.path.join(VERIF, ".build")
    os.makedirs(root, exist_ok=True)
    dest = os.path.join(root, "%s-%s" % (kind, h.hexdigest()[:20]))
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    so = os.path.join(dest, "_nmtlib" + suffix)
    if os.path.exists(so):
        return dest
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return dest
        tmp = tempfile.mkdtemp(prefix=kind + "-", dir=root)
        try:
            with open(os.path.join(tmp, "config.h"), "w") as f:
                f.write(CONFIG_H)
            import numpy
            inc = ["-I" + tmp, "-I" + os.path.join(REPO, "src"),
                   "-I" + os.path.join(REPO, "_deps", "include"),
                   "-I" + numpy.get_include(),
                   "-I" + sysconfig.get_path("include")]
            jobs = []
            for c in cs:
                o = os.path.join(tmp, os.path.basename(c)[:-2] + ".o")
                jobs.append(([spec["cc"]] + spec["cflags"] +
                             ["-fPIC", "-w"] + inc + ["-c", c, "-o", o], o))
            o = os.path.join(tmp, "namaster_wrap.o")
            jobs.append(([spec["cc"]] + spec["wflags"] +
                         ["-fPIC", "-w"] + inc + ["-c", wrap, "-o", o], o))
            for e in extra:
                o = os.path.join(tmp, os.path.basename(e)[:-2] + "_x.o")
                jobs.append(([spec["cc"], "-O2", "-g", "-fPIC", "-Wall",
                              "-fvisibility=hidden"] +
                             inc + ["-c", e, "-o", o], o))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: _run(j[0], tmp), jobs))
            _run([spec["cc"], "-shared", "-o",
                  os.path.join(tmp, "_nmtlib" + suffix)] +
                 [j[1] for j in jobs] + spec["ldflags"] + LIBS, tmp)
            for e in pre:
                _run([spec["cc"], "-O2", "-g", "-fPIC", "-Wall", "-shared",
                      "-fno-builtin", "-o", os.path.join(
                          tmp, "lib%s.so" % os.path.basename(e)[:-2]), e,
                      "-ldl"], tmp)
            for j in jobs:
                os.unlink(j[1])
            try:
                os.rename(tmp, dest)
                tmp = None
            except OSError:
                if not os.path.exists(so):
                    raise
        finally:
            if tmp is not None:
                shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small: drop all but the most recent builds
        olds = sorted(glob.glob(os.path.join(root, kind + "-*")),
                      key=os.path.getmtime)
        for o in olds[:-6]:
            if o != dest:
                shutil.rmtree(o, ignore_errors=True)
    return dest


if __name__ == "__main__":
    for k in sys.argv[1:] or ["omp"]:
        print(build(k))
