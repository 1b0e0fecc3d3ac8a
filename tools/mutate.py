#!/usr/bin/env python3
"""Development aid: mutation testing of the checks (never run by a check).

  mutate.py list FILE...              number of candidate mutants per file
  mutate.py one FILE LINE TEXT CHECK...  one given mutant
  mutate.py run OUT.jsonl N SEED JOBS [FILE...]

Draws N single-token mutants of the product's sources, builds each in a
private mount namespace in which copies take the places of /repo, /verif and
/opt/vp/work, runs the repository's tests and, for those that survive, the
quick checks relevant to the file until one reports a violation. Survivors
are to be examined by hand: equivalent, or a hole in the checks.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

ROOT = "/tmp/mut"
REPO, VERIF = "/repo", "/verif"
ALL = ["P%02d" % i for i in range(1, 31)]
CURVED = "P02 P01 P26 P08 P11 P10 P12 P13 P14 P18 P28 P29 P06 P17 P15".split()
FLAT = "P23 P22 P09 P24 P07 P16 P25".split()
CROSS = "P03 P27 P30 P21 P04 P20 P05 P19".split()
REL = {
    "src/flatsky_utils.c": ["P22", "P23", "P09", "P24", "P25"],
    "src/healpix_extra.c": ["P15"],
    "src/nmt_bins.c": ["P08", "P02", "P04"],
    "src/nmt_bins_flat.c": ["P09", "P23"],
    "src/nmt_covar.c": ["P06", "P18", "P03"],
    "src/nmt_covar_flat.c": ["P07"],
    "src/nmt_field_flat.c": ["P22", "P25", "P23", "P24", "P20"],
    "src/nmt_io.c": ["P04", "P03", "P05"],
    "src/nmt_mask.c": ["P15"],
    "src/nmt_mask_flat.c": ["P16"],
    "src/nmt_master.c": ["P01", "P02", "P18", "P26", "P03", "P06", "P20"],
    "src/nmt_master_flat.c": ["P23", "P24", "P22", "P03", "P20"],
    "src/utils.c": ["P25", "P22", "P16", "P08", "P23", "P01"],
    "pymaster/bins.py": ["P08", "P09", "P20"],
    "pymaster/covariance.py": ["P06", "P07", "P03", "P04", "P18", "P30",
                               "P20"],
    "pymaster/field.py": ["P10", "P14", "P22", "P13", "P26", "P11", "P12",
                          "P17", "P30", "P27", "P20"],
    "pymaster/utils.py": ["P17", "P11", "P27", "P15", "P16", "P25", "P10",
                          "P20"],
    "pymaster/workspaces.py": ["P02", "P23", "P12", "P24", "P29", "P03",
                               "P30", "P28", "P26", "P18", "P14", "P20"],
}
DEAD = ("he_query_strip he_ring2nest_inplace he_nest2ring_inplace he_udgrade "
        "he_ang2pix he_map_product he_map_dot fs_anafast fs_read_flat_map "
        "nmt_bins_constant nmt_bins_flat_constant "
        "nmt_couple_cl_l_flat_quick").split()
SKIP = re.compile(r"report_error|printf|free\(|raise |warnings|^\s*#|"
                  r"^\s*//|import |^\s*\*|malloc|calloc|^\s*(def|class) |"
                  r"Error\(|^\s*\"|^\s*f?'|^\s*f?\"|^\s*return;?\s*$")
OPS = [(r"(?<![<>=!\-+])<(?![<=])", "<="), (r"<=", "<"),
       (r"(?<![\->=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="),
       (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\band\b", "or"),
       (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
       (r"\bis not None\b", "is None"), (r"\bis None\b", "is not None"),
       (r"\+=", "-="), (r"-=", "+="), (r"(?<=[\w\]\)]) ?\+ ?(?=[\w\(])", "-"),
       (r"(?<=[\w\]\)]) ?- ?(?=[\w\(])", "+"), (r"(?<=[\w\]\)])\*(?=[\w\(])",
                                               "/"),
       (r"(?<=[\w\]\)])/(?=[\w\(])", "*"), (r"\bnot ", ""),
       (r"\*=", "/="), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\bcreal\b", "cimag"),
       (r"\.T\b", ""), (r"np\.zeros\b", "np.ones"), (r"\.copy\(\)", ""),
       (r"\bconj\(", "("), (r"\+\+", "--")]
PAIRS = [("1", "2"), ("a", "b"), ("x", "y"), ("e", "b"), ("th", "ph"),
         ("0", "1"), ("c", "d"), ("l2", "l3")]


def mutants(fn):
    """(line number, new line) for every candidate."""
    out = []
    lines = open(os.path.join(REPO, fn)).read().split("\n")
    doc = False
    com = False
    py = fn.endswith(".py")
    dead = False
    for i, ln in enumerate(lines):
        if not py:
            m = re.match(r"[a-z][\w \*]*?[ \*](\w+)\(", ln)
            if m:
                dead = m.group(1) in DEAD
            if dead:
                continue
        if py:
            n = ln.count('"""')
            if doc or n:
                if n == 1:
                    doc = not doc
                continue
        else:
            if "/*" in ln:
                com = "*/" not in ln
                continue
            if com:
                com = "*/" not in ln
                continue
        if SKIP.search(ln) or not ln.strip():
            continue
        code = ln.split("//")[0] if not py else ln.split("  #")[0]
        new = set()
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new.add(code[:m.start()]+rep+code[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for q in (v+1, v-1):
                new.add(code[:m.start()]+str(q)+code[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE]-?\d+)?|"
                             r"\d+[eE]-?\d+)(?!\w)", code):
            new.add(code[:m.start()]+"(%s*1.02)" % m.group(1)+code[m.end():])
        for m in re.finditer(r"\b[A-Za-z_]\w*\b", code):
            w = m.group(0)
            for a, b in PAIRS:
                for s, t in ((a, b), (b, a)):
                    if (w.endswith(s) and len(w) > len(s)) or (
                            w.endswith("_"+s)):
                        z = w[:-len(s)]+t
                        if re.search(r"\b%s\b" % re.escape(z),
                                     "\n".join(lines)):
                            new.add(code[:m.start()]+z+code[m.end():])
        st = code.strip()
        if not py and st.endswith(";") and re.search(
                r"[^=!<>]=[^=]|\+\+|--|\w\(", st) and not re.match(
                r"(int|double|flouble|fcomplex|long|char|const|struct|FILE|"
                r"nmt_\w+ ?\*|return|for|if|else|while)\b", st) and \
                st.count("(") == st.count(")"):
            new.add(code[:len(code)-len(code.lstrip())]+";")
        if py and re.match(r"[\w.\[\], ]+ [+*/-]?= ", st) and \
                st.count("(") == st.count(")") and \
                st.count("[") == st.count("]") and not st.endswith("\\"):
            if re.search(r"[+*/-]= ", st):
                new.add(code[:len(code)-len(code.lstrip())]+"pass")
        new.discard(code)
        for c in sorted(new):
            out.append((i, c))
    return lines, out


def guards(fn):
    """Every refusal of invalid input removed."""
    import ast
    src = open(os.path.join(REPO, fn)).read()
    lines = src.split("\n")
    out = []
    if fn.endswith(".py"):
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Raise):
                a, b = n.lineno-1, n.end_lineno-1
                t = lines[a][:n.col_offset]+"pass"
                out.append((a, t+"\n"*(b-a), b))
    else:
        for m in re.finditer(r"report_error\([^;]*;", src):
            a = src[:m.start()].count("\n")
            b = src[:m.end()].count("\n")
            pre = src[src.rfind("\n", 0, m.start())+1:m.start()]
            post = src[m.end():].split("\n", 1)[0]
            out.append((a, pre+";"+post+"\n"*(b-a), b))
    return lines, out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def one(slot, fn, i, new, cpus, order=None):
    d = os.path.join(ROOT, "slot%d" % slot)
    lines = open(os.path.join(REPO, fn)).read().split("\n")
    shutil.copy(os.path.join(REPO, fn), os.path.join(d, "repo", fn))
    old = lines[i]
    k = new.count("\n")
    if k:
        old = "\n".join(lines[i:i+k+1])
        lines[i:i+k+1] = new.split("\n")
    else:
        lines[i] = new
    with open(os.path.join(d, "repo", fn), "w") as f:
        f.write("\n".join(lines))
    if fn.endswith(".c"):
        obj = []
        for src in (os.path.join(REPO, fn), os.path.join(d, "repo", fn)):
            o = os.path.join(d, "x.o")
            r = sh("gcc -w -O2 -fopenmp -I%s/src -I%s/_deps/include -I%s -c %s "
                   "-o %s" % (REPO, REPO, REPO, src, o))
            if r.returncode:
                return dict(file=fn, line=i+1, old=old, new=new,
                            result="nocompile")
            r = sh("objdump -d %s | tail -n +4 | md5sum; objdump -s "
                   "-j .rodata %s | tail -n +4 | md5sum" % (o, o))
            obj.append(r.stdout)
        if obj[0] == obj[1]:
            return dict(file=fn, line=i+1, old=old, new=new,
                        result="equivalent")
    else:
        try:
            compile("\n".join(lines), fn, "exec")
        except SyntaxError:
            return dict(file=fn, line=i+1, old=old, new=new,
                        result="nocompile")
    order = order or REL[fn]
    script = """
mount --bind {d}/repo /repo; mount --bind {d}/verif /verif
mount --bind {d}/work /opt/vp/work; mount --bind {d}/tmp /tmp
cd /repo
timeout 200 bash /opt/vp/build.sh >/dev/null 2>&1 || {{ echo RESULT nobuild; exit; }}
timeout 300 bash /opt/vp/test.sh {d}/tmp/o.json >/dev/null 2>&1
cp {d}/tmp/o.json /dev/null 2>/dev/null
python3 - <<'P' || {{ echo RESULT tests; exit; }}
import json,sys
def passed(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k] if isinstance(d[k],list) else d[k].keys())
b=passed(json.load(open('/opt/vp/BASELINE.json')))
try: o=passed(json.load(open('/tmp/o.json')))
except Exception: sys.exit(1)
sys.exit(1 if b-o else 0)
P
cd /verif
for p in {order}; do
  timeout 900 ./check $p quick > /tmp/c.log 2>&1; rc=$?
  if [ $rc = 1 ]; then echo RESULT caught $p $(grep -m3 'key:' /tmp/c.log | tr '\\n' ' '); exit; fi
  if [ $rc != 0 ]; then echo RESULT noanswer $p $rc; exit; fi
done
echo RESULT survived
""".format(d=d, order=" ".join(order)).replace("{d}/tmp/o.json", "/tmp/o.json")
    script = script.replace(d+"/tmp/o.json", "/tmp/o.json")
    r = subprocess.run(["taskset", "-c", cpus, "unshare", "-Urm", "bash",
                        "-c", script], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    m = re.findall(r"RESULT (.*)", r.stdout)
    return dict(file=fn, line=i+1, old=old, new=new,
                result=m[-1] if m else "?"+r.stdout[-300:])


def prepare(slot):
    d = os.path.join(ROOT, "slot%d" % slot)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d+"/tmp")
    sh("cp -a %s %s/repo; mkdir %s/verif; cp -a /opt/vp/work %s/work" % (
        REPO, d, d, d))
    sh("git -C %s archive HEAD | tar x -C %s/verif --exclude=seeded" % (
        VERIF, d))
    sh("mkdir -p %s/verif/.build %s/verif/evidence" % (d, d))


GUARDS = bool(os.environ.get("MUT_GUARDS"))
SLOT0 = int(os.environ.get("MUT_SLOT0", "0"))


def main():
    if sys.argv[1] == "list":
        tot = 0
        for fn in sys.argv[2:] or REL:
            n = len(mutants(fn)[1])
            tot += n
            print(fn, n)
        print(tot)
        return
    if sys.argv[1] == "one":
        # mutate.py one FILE LINE NEWLINE(S) CHECK...   (slot MUT_SLOT0)
        prepare(SLOT0)
        print(json.dumps(one(SLOT0, sys.argv[2], int(sys.argv[3])-1,
                             sys.argv[4], os.environ.get("MUT_CPUS", "0-7"),
                             sys.argv[5:])))
        return
    out, n, seed, jobs = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), \
        int(sys.argv[5])
    files = sys.argv[6:] or list(REL)
    rng = random.Random(seed)
    pool = []
    for fn in files:
        byline = {}
        for i, c in mutants(fn)[1]:
            byline.setdefault(i, []).append(c)
        for i, cs in byline.items():
            for c in rng.sample(cs, min(2, len(cs))):
                pool.append((fn, i, c))
        if GUARDS:
            pool = [p for p in pool if p[0] != fn]
            pool += [(fn, i, c) for i, c, _ in guards(fn)[1]]
    rng.shuffle(pool)
    done = set()
    if os.path.exists(out):
        for ln in open(out):
            x = json.loads(ln)
            done.add((x["file"], x["line"]-1, x["new"]))
    pool = [p for p in pool if p not in done][:n]
    lock = threading.Lock()
    global REPO
    os.makedirs(ROOT, exist_ok=True)
    base = ROOT+"/base%d" % SLOT0
    shutil.rmtree(base, ignore_errors=True)
    sh("cp -a %s %s" % (REPO, base))
    REPO = base

    def loop(slot):
        prepare(slot)
        while True:
            with lock:
                if not pool:
                    return
                fn, i, c = pool.pop()
            x = one(slot, fn, i, c, str(slot % 8),
                    ["P20"]+[p for p in REL[fn] if p != "P20"]
                    if GUARDS else None)
            shutil.copy(os.path.join(REPO, fn),
                        os.path.join(ROOT, "slot%d" % slot, "repo", fn))
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(x)+"\n")
    ts = [threading.Thread(target=loop, args=(SLOT0+k,)) for k in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
