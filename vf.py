#!/usr/bin/env python3
"""Orchestrates the simulation checks: build, seeded search, gate, minimise, evidence.

  vf.py setup                 build everything
  vf.py check PROP            run one check (VERIF_SEED, VERIF_TIER)
  vf.py replay FILE           execute a replay file
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
NCPU = os.cpu_count() or 8
sys.path.insert(0, HERE)

VARIANTS = {
    "f32": [],
    "f64": ["-DCFT_RIDX_TYPE=int32_t", "-DCFT_REAL_TYPE=double"],
    "small": ["-DCFT_CIDX_TYPE=int16_t", "-DCFT_RIDX_TYPE=uint8_t"],
    "large": ["-DCFT_CIDX_TYPE=uint64_t", "-DCFT_RIDX_TYPE=int64_t", "-DCFT_REAL_TYPE=long double"],
    "asan": [],
}
# with the code under test linked in a second time, built with assertions (see sut.h)
for _v in ("f32", "f64", "small", "large"):
    VARIANTS[_v + "d"] = VARIANTS[_v]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DSIM_ASAN", "-g1"]
RT_SRC = ["rt", "ioref", "plan", "harness", "checks_lib", "checks_io", "driver"]


def sh_hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def tree(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


VENV = "/opt/vp/venv"


def build_py():
    """The Python interface: bindings, preloaded shim, C++ reference. Returns the build folder."""
    pkg = os.path.join(REPO, "src", "pycft")
    files = tree(os.path.join(REPO, "src"), (".hpp", ".cpp", ".h", ".py")) + [os.path.join(SIM, f) for f in
                                                                            ("pyshim.cpp", "pyref.cpp", "sut.cpp", "sut.h", "rt.h", "cov.allow", "cov.ignore")]
    d = os.path.join(BUILD, "py-" + sh_hash(files, "py3"))
    if os.path.exists(os.path.join(d, "done")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "pycft"))
    for f in tree(pkg, (".py",)):
        t = os.path.join(tmp, "pycft", os.path.relpath(f, pkg))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copy(f, t)
    inc = run([VENV + "/bin/python", "-c", "import sysconfig,pybind11;print(sysconfig.get_paths()['include']);print(pybind11.get_include())"]).stdout.split()
    inc = inc if len(inc) == 2 else ["/usr/include/python3.12", VENV + "/lib/python3.12/site-packages/pybind11/include"]
    sut = ["-std=c++11", "-O2", "-DNDEBUG", "-DFMT_SHARED", "-w", "-fsanitize-coverage=trace-pc-guard",
           "-fsanitize-coverage-allowlist=" + os.path.join(SIM, "cov.allow"),
           "-fsanitize-coverage-ignorelist=" + os.path.join(SIM, "cov.ignore"), "-I" + os.path.join(REPO, "src")]
    so = ["-fPIC", "-shared"]
    cmds = [["clang++"] + sut + so + ["-fvisibility=hidden", "-isystem", inc[0], "-isystem", inc[1], os.path.join(pkg, "_bindings.cpp"),
                                  "-o", os.path.join(tmp, "pycft", "_bindings.so"), "-lfmt"],
            ["g++", "-O2"] + so + [os.path.join(SIM, "pyshim.cpp"), "-o", os.path.join(tmp, "pyshim.so"), "-ldl"],
            ["clang++"] + sut + so + ['-DSUT_VARIANT="py"', "-I" + SIM, "-include", "algorithm", os.path.join(SIM, "sut.cpp"),
                                  os.path.join(SIM, "pyref.cpp"), "-o", os.path.join(tmp, "pyref.so"), "-lfmt"]]
    with ThreadPoolExecutor(NCPU) as ex:
        for c, r in zip(cmds, ex.map(run, cmds)):
            if r.returncode:
                print("BUILD FAILED\n%s\n%s" % (" ".join(c), r.stderr[-6000:]))
                shutil.rmtree(tmp, ignore_errors=True)
                sys.exit(2)
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    for f in os.listdir(BUILD):
        q = os.path.join(BUILD, f)
        if f.startswith("py-") and q != d and time.time() - os.path.getmtime(q) > 3600:
            shutil.rmtree(q, ignore_errors=True)
    return d


def build(variants):
    """Returns {variant: command of the simulator}. Rebuilds what changed."""
    os.makedirs(BUILD, exist_ok=True)
    if "py" in variants:
        d = build_py()
        bins = build([v for v in variants if v != "py"]) if len(variants) > 1 else {}
        bins["py"] = ["/usr/bin/env", "PYTHONHASHSEED=0", "LD_PRELOAD=" + os.path.join(d, "pyshim.so"), VENV + "/bin/python",
                      os.path.join(SIM, "pyrun.py"), d]
        return bins
    simf = [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".cpp", ".h"))]
    srcs = tree(os.path.join(REPO, "src"), (".hpp", ".cpp", ".h"))
    drv_key = sh_hash(simf, "drv3")
    sut_key = sh_hash(srcs + [os.path.join(SIM, f) for f in ("sut.cpp", "sut.h", "rt.h")], "sut4")
    jobs = []

    def job(out, cmd):
        if not os.path.exists(out):
            jobs.append((out, cmd))

    need_asan = "asan" in variants
    need_plain = any(v != "asan" for v in variants)
    objs = {}
    for fl, need in (("p", need_plain), ("a", need_asan)):
        if not need:
            continue
        objs[fl] = []
        for s in RT_SRC:
            o = os.path.join(BUILD, "drv-%s-%s-%s.o" % (drv_key, fl, s))
            objs[fl].append(o)
            # the runtime itself stays uninstrumented in both cases
            job(o, ["g++", "-std=c++17", "-O2", "-fno-pie", "-I" + SIM] + (["-DSIM_ASAN"] if fl == "a" else [])
                + ["-c", os.path.join(SIM, s + ".cpp")])
    suts = {}

    def sut(v):
        o = os.path.join(BUILD, "sut-%s-%s.o" % (sut_key, v))
        if any(o == q[0] for q in jobs):
            return o
        opt = ["-O1"] + ASAN if v == "asan" else ["-O2"]
        mode = ["-USUT_DEBUG", "-DNDEBUG"] if v[-1] != "d" else ["-DSUT_DEBUG", "-Dcft=cftd"]
        job(o, ["g++", "-std=c++11"] + opt + mode + ['-DSUT_VARIANT="%s"' % v] + VARIANTS[v] +
            ["-fsanitize-coverage=trace-pc", "-fno-pie", "-I" + os.path.join(REPO, "src"), "-I" + SIM,
             "-include", "algorithm", "-c", os.path.join(SIM, "sut.cpp")])
        return o

    for v in variants:
        suts[v] = [sut(v[:-1]), sut(v)] if v[-1] == "d" else [sut(v)]

    def comp(j):
        out, cmd = j
        tmp = out + ".tmp%d" % os.getpid()
        r = run(cmd + ["-o", tmp])
        if r.returncode:
            return out, "%s\n%s" % (" ".join(cmd), r.stderr[-6000:])
        os.replace(tmp, out)
        return None

    with ThreadPoolExecutor(NCPU) as ex:
        errs = dict(e for e in ex.map(comp, sorted(jobs, key=lambda j: "sut" not in j[0])) if e)
    # a configuration of the numeric types that does not compile is left out; the default one must
    out = [v for v in variants if any(o in errs for o in suts[v]) and v not in ("f32", "f32d", "asan")]
    left = [o for v in out for o in suts[v]]
    if any(o not in left or o in [q for v in variants if v not in out for q in suts[v]] for o in errs):
        print("BUILD FAILED\n" + "\n".join(errs.values()))
        sys.exit(2)
    for v in out:
        print("NOTE: the configuration %s does not compile and is left out: %s" % (v, "".join(errs.get(o, "") for o in suts[v])[-1500:]))
    variants = [v for v in variants if v not in out]
    bins = {}

    def link(v):
        b = os.path.join(BUILD, "sim-%s-%s-%s" % (drv_key, sut_key, v))
        if not os.path.exists(b):
            fl = "a" if v == "asan" else "p"
            tmp = b + ".tmp%d" % os.getpid()
            r = run(["g++", "-no-pie"] + (["-fsanitize=address,undefined"] if v == "asan" else []) + suts[v] + objs[fl] +
                    ["-lfmt", "-lpthread", "-ldl", "-o", tmp])
            if r.returncode:
                return v, None, r.stderr
            os.replace(tmp, b)
        return v, b, ""

    with ThreadPoolExecutor(NCPU) as ex:
        for v, b, e in ex.map(link, variants):
            if not b:
                print("LINK FAILED\n" + e[-4000:])
                sys.exit(2)
            bins[v] = [b]
    # forget builds of other trees
    now = time.time()
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        if drv_key not in f and sut_key not in f and os.path.isfile(p) and now - os.path.getmtime(p) > 3600:
            os.unlink(p)
    return bins


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="exitcode=77:print_stacktrace=0:halt_on_error=1", LC_ALL="C")


# ------------------------------------------------------------------------------------ plans
class Plan:
    """A plan file in parts, for minimisation."""

    def __init__(self, text):
        self.head, self.insts, self.params, self.files, self.ops = [], [], [], [], []
        for l in text.splitlines():
            if not l or l[0] == "#":
                continue
            w = l.split(" ")
            k = w[0]
            if k in ("prop", "var", "seed"):
                self.head.append(l)
            elif k == "inst":
                self.insts.append({"n": int(w[1]), "cols": [], "warm": None})
            elif k == "col":
                self.insts[-1]["cols"].append((w[1], [int(x) for x in w[2:]]))
            elif k == "warm":
                self.insts[-1]["warm"] = [int(x) for x in w[2:]]
            elif k == "params":
                self.params.append(dict(x.split("=", 1) for x in w[1:]))
            elif k == "file":
                self.files.append([w[1], []])
            elif k == "data":
                self.files[-1][1].append(l)
            elif k == "op":
                self.ops.append((w[1], dict(x.split("=", 1) for x in w[2:])))

    def text(self):
        o = list(self.head)
        for i in self.insts:
            o.append("inst %d" % i["n"])
            for c, rs in i["cols"]:
                o.append(" ".join(["col", c] + [str(r) for r in rs]))
            if i["warm"] is not None:
                o.append(" ".join(["warm", "0"] + [str(x) for x in i["warm"]]))
        for p in self.params:
            o.append("params " + " ".join("%s=%s" % kv for kv in p.items()))
        for n, ls in self.files:
            o.append("file " + n)
            o += ls
        for n, kv in self.ops:
            o.append(" ".join(["op", n] + ["%s=%s" % x for x in kv.items()]))
        return "\n".join(o) + "\n"

    def copy(self):
        return Plan(self.text())


DEFAULTS = {"verbose": "0", "eps": "0.999", "heur": "250", "alpha": "1.1", "beta": "1", "abs": "1", "rel": "0.001",
            "minfix": "0.3", "unit": "0", "seed": "0"}


def drop_cols(inst, keep):
    m = {j: k for k, j in enumerate(keep)}
    inst["cols"] = [inst["cols"][j] for j in keep]
    if inst["warm"] is not None:
        inst["warm"] = [m[j] for j in inst["warm"] if j in m]


def drop_rows(inst, keep):
    m = {i: k for k, i in enumerate(keep)}
    inst["n"] = len(keep)
    cols = []
    for c, rs in inst["cols"]:
        cols.append((c, [m[r] for r in rs if r in m]))
    inst["cols"] = cols
    drop_cols(inst, [j for j, (c, rs) in enumerate(cols) if rs])


def chunks(n):
    size = max(1, n // 2)
    while True:
        for b in range(0, n, size):
            yield b, min(n, b + size)
        if size == 1:
            return
        size //= 2


class Runner:
    def __init__(self, bins):
        self.bins = bins

    def exec(self, text, timeout=120, expand=False):
        """(status, class, hash, message, expanded)"""
        m = re.search(r"^var (\S+)", text, re.M)
        b = self.bins.get(m.group(1) if m else "")
        if not b:
            return 3, "invalid", "", "unknown variant", []
        d = os.path.join(BUILD, "tmp")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "p%d-%x" % (os.getpid(), abs(hash((text, time.time_ns())))))
        with open(f, "w") as fh:
            fh.write(text)
        try:
            r = run(b + ["exec", f] + (["--expand"] if expand else []), env=ENV, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 3, "timeout", "", "execution took too long", []
        finally:
            os.unlink(f)
        g = lambda k: (re.search(r"^%s ?(.*)$" % k, r.stdout, re.M) or [None, ""])[1]
        msg = r.stdout[r.stdout.find("message ") + 8:].strip() if "message " in r.stdout else ""
        exp = re.findall(r"^expand (.*)$", r.stdout, re.M)
        st = {0: 0, 1: 1}.get(r.returncode, 3)
        if st == 1 and g("class") == "sanitizer":
            e = [x for x in r.stderr.splitlines() if "ERROR" in x or "runtime error" in x or "Assertion" in x]
            msg += " " + " ".join(e[:2])[:300]
        return st, g("class"), g("hash"), msg, exp

    def minimise(self, text, cls, budget):
        t0 = time.time()
        best = Plan(text)
        tries = 0

        def ok(p):
            nonlocal tries
            if time.time() - t0 > budget:
                raise TimeoutError
            tries += 1
            st, c, _, _, _ = self.exec(p.text(), timeout=60)
            return st == 1 and c == cls

        try:
            changed = True
            while changed and time.time() - t0 < budget:
                changed = False
                # operations
                k = 0
                for b, e in list(chunks(len(best.ops))):
                    if e - b >= len(best.ops) or b >= len(best.ops):
                        continue
                    p = best.copy()
                    p.ops = p.ops[:b] + p.ops[e:]
                    if len(p.ops) < len(best.ops) and ok(p):
                        best, changed = p, True
                for q in range(len(best.ops)):
                    for key in list(best.ops[q][1]):
                        p = best.copy()
                        del p.ops[q][1][key]
                        if ok(p):
                            best, changed = p, True
                for f in range(len(best.files)):
                    for b, e in list(chunks(len(best.files[f][1]))):
                        p = best.copy()
                        if b >= len(p.files[f][1]):
                            continue
                        p.files[f][1] = p.files[f][1][:b] + p.files[f][1][e:]
                        if ok(p):
                            best, changed = p, True
                for i in range(len(best.insts)):
                    for b, e in list(chunks(best.insts[i]["n"])):
                        p = best.copy()
                        n = p.insts[i]["n"]
                        if b >= n or e - b >= n:
                            continue
                        drop_rows(p.insts[i], [r for r in range(n) if not b <= r < e])
                        if p.insts[i]["cols"] and ok(p):
                            best, changed = p, True
                    for b, e in list(chunks(len(best.insts[i]["cols"]))):
                        p = best.copy()
                        n = len(p.insts[i]["cols"])
                        if b >= n or e - b >= n:
                            continue
                        drop_cols(p.insts[i], [c for c in range(n) if not b <= c < e])
                        if ok(p):
                            best, changed = p, True
                    if best.insts[i]["warm"] is not None:
                        p = best.copy()
                        p.insts[i]["warm"] = None
                        if ok(p):
                            best, changed = p, True
                for i in range(len(best.params)):
                    for key, dv in DEFAULTS.items():
                        if best.params[i].get(key, dv) != dv:
                            p = best.copy()
                            p.params[i][key] = dv
                            if ok(p):
                                best, changed = p, True
        except TimeoutError:  # the time for this is over
            pass
        return best.text(), tries


# ----------------------------------------------------------------------------------- checks
from checks_conf import CHECKS, LEVEL, ASSUME, COMPONENTS, COMPONENTS_PY, PROBES  # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) plan=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def write_evidence(prop, tier, seed, cov, wall, viol):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": ASSUME.get(prop, []) + ASSUME["*"], "wall_s": round(wall, 2), "violations": viol}
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = CHECKS[prop]
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    variants = list(conf["variants"])
    bins = build(variants)
    variants = [v for v in variants if v in bins]
    R = Runner(bins)
    t1 = time.time()
    budget = conf["secs"][0 if tier == "quick" else 1]
    mult = 1 if tier == "quick" else conf.get("mult", 12)

    # saved plans first (failures of the past); each is one exactly repeatable execution
    regress = []
    d = os.path.join(HERE, "regress")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith(prop + "-") and f.endswith(".plan"):
            t = open(os.path.join(d, f)).read()
            v = re.search(r"^var (\S+)", t, re.M).group(1)
            if v in bins:
                regress.append((f, t))
    found = []  # (origin, text, class, hash, message)
    # jobs: small slices of seeds, variant by variant, so that every variant is reached early
    jobs = []
    base = seed * 1000003
    for v, n in conf["variants"].items():
        if v not in bins:
            continue
        n *= mult
        sl = max(1, min(n // NCPU if n >= NCPU else 1, conf.get("slice", 60)))
        for b in range(0, n, sl):
            jobs.append((b / n, v, base + b, min(sl, n - b)))
    jobs.sort()
    runs, stats, fired, probes, sigs, nontriv, hashes, invalids, errors = 0, {}, {}, {}, set(), set(), {}, 0, []
    edges = {}

    def work(j):
        _, v, first, cnt = j
        left = budget - (time.time() - t1)
        if left < 1 or len(found) >= 3:
            return None
        try:
            r = run(bins[v] + ["batch", prop, str(first), str(cnt), "1", "%.1f" % left], env=ENV, timeout=left + 300)
        except subprocess.TimeoutExpired:
            return v, "", "batch timed out", 3
        return v, r.stdout, r.stderr, r.returncode

    def regr(x):
        return x, R.exec(x[1], timeout=200)

    with ThreadPoolExecutor(NCPU) as ex:
        for (f, t), (st, cls, h, msg, _) in ex.map(regr, regress):
            if st == 1:
                found.append(("saved plan " + f, t, cls, h, msg))
            elif st == 3:
                errors.append("saved plan %s: %s %s" % (f, cls, msg))
        for res in ex.map(work, jobs):
            if res is None:
                continue
            v, out, err, rc = res
            if rc != 0 or not out.rstrip().endswith("\nE"):
                errors.append("batch ended with %s: %s %s" % (rc, out[-300:], err[-1500:]))
            for l in out.splitlines():
                w = l.split(" ", 7)
                if w[0] == "R":
                    runs += 1
                    st = int(w[2])
                    if st == 1:
                        found.append(("seed %s variant %s" % (w[1], v), (v, int(w[1])), w[3], w[4], w[7] if len(w) > 7 else ""))
                    elif st == 2:
                        invalids += 1
                    elif st == 3:
                        errors.append(l)
                    else:
                        hashes[(v, int(w[1]))] = w[4]
                        sigs.add(w[5])
                        if int(w[6]):
                            nontriv.add(w[5])
                elif w[0] == "S":
                    if w[1] == "edges":
                        edges[v] = max(edges.get(v, 0), int(w[2]))
                    else:
                        stats[w[1]] = stats.get(w[1], 0) + int(w[2])
                elif w[0] == "F":
                    fired[w[1]] = fired.get(w[1], 0) + int(w[2])
                elif w[0] == "P":
                    k = PROBES.get((prop, int(w[1])), PROBES.get(int(w[1]), "probe_" + w[1]))
                    if k.startswith("max_"):
                        probes[k] = max(probes.get(k, 0), int(w[2]))
                    else:
                        probes[k] = probes.get(k, 0) + int(w[2])
    search = time.time() - t1

    # determinism audit: a sample of the executions again, in other processes
    audit = bad = 0
    if not found:
        keys = sorted(hashes)
        step = max(1, len(keys) // (24 if tier == "quick" else 120))
        keys = keys[::step]

        def again(k):
            r = run(bins[k[0]] + ["batch", prop, str(k[1]), "1", "1", "120"], env=ENV, timeout=300)
            m = re.search(r"^R \S+ \S+ \S+ (\S+)", r.stdout, re.M)
            return k, m.group(1) if m else None

        with ThreadPoolExecutor(NCPU) as ex:
            for k, h in ex.map(again, keys):
                audit += 1
                if h != hashes[k]:
                    bad += 1
                    errors.append("execution of seed %d (%s) is not repeatable: %s, then %s" % (k[1], k[0], hashes[k], h))

    samples = []
    for v in variants[:2]:
        r = run(bins[v] + ["gen", prop, str(base)], env=ENV)
        t = r.stdout.splitlines()
        samples.append({"seed": base, "variant": v, "plan": [l[:160] for l in t if not l.startswith(("col", "data"))][:30],
                        "columns": sum(l.startswith("col") for l in t), "data_lines": sum(l.startswith("data") for l in t)})
    cov = {
        "evaluations": runs, "distinct_nontrivial": len(nontriv), "rule": conf["rule"], "samples": samples,
        "simulated_calls_of_code_under_test": stats.get("calls", 0),
        "simulated_runs_per_hour": int(stats.get("calls", 0) / max(search, 1e-3) * 3600), "seeds_per_hour": int(runs / max(search, 1e-3) * 3600),
        "simulated_time_s": round(stats.get("sim_ns", 0) / 1e9, 3), "simulated_steps": stats.get("ticks", 0),
        "clock_readings": stats.get("clock_reads", 0), "allocations": stats.get("allocs", 0),
        "file_operations": stats.get("io_ops", 0), "preemptions": stats.get("preempts", 0),
        "faults_injected": dict(sorted(fired.items())), "probes": dict(sorted(probes.items())),
        "distinct_executions": len(sigs), "distinct_executions_measure": "different signatures of executed control-flow edges with hit-count classes"
        + (", plus the sequence of thread switches" if prop == "C06" else ""),
        "control_flow_edges_reached": edges, "saved_plans_replayed": len(regress), "invalid_plans": invalids,
        "determinism_audit": {"executions_repeated_in_another_process": audit, "differences": bad},
        "runs_per_variant": {v: sum(1 for k in hashes if k[0] == v) for v in variants}, "workers": NCPU,
        "components": COMPONENTS_PY if "py" in variants else COMPONENTS,
    }
    for pl, cls, what in known_findings(prop):
        t = open(os.path.join(HERE, pl)).read()
        st, c, _, _, _ = R.exec(t)
        if st == 1 and c == cls:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))

    rc = 0
    if found:
        rc = report(prop, R, found, errors, tier)
    elif errors:
        rc = 2
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if rc == 1 else 0)
    if rc == 2 or (errors and rc != 1):
        print("ERROR: " + "\n".join(errors[:5]))
        rc = 2
    print("%s: %d runs (%d calls), %d distinct non-trivial, %d saved plans, faults %s, %.1fs" %
          (prop, runs, stats.get("calls", 0), len(nontriv), len(regress), sum(fired.values()), time.time() - t0))
    return rc


def report(prop, R, found, errors, tier):
    """Gate, minimise and print one violation."""
    os.makedirs(REPLAYS, exist_ok=True)
    for origin, text, cls, h, msg in found[:6]:
        if isinstance(text, tuple):
            v, s = text
            text = run(R.bins[v] + ["gen", prop, str(s)], env=ENV).stdout
        a = R.exec(text, timeout=400)
        b = R.exec(text, timeout=400)
        if a[:3] != b[:3] or a[0] != 1:
            errors.append("%s: violation %s does not repeat (%s / %s)" % (origin, cls, a[:3], b[:3]))
            continue
        cls = a[1]
        ex = R.exec(text, expand=True, timeout=400)
        for e in ex[4]:
            name = e.split(" ")[0]
            p = Plan(text)
            for i, (n, kv) in enumerate(p.ops):
                if n == name:
                    kv = {"trace": e.split("trace=")[1]}
                    p.ops[i] = (n, kv)
            t = R.exec(p.text(), timeout=400)
            if t[0] == 1 and t[1] == cls:
                text = p.text()
        small, tries = R.minimise(text, cls, 60 if tier == "quick" else 240)
        if "op sched trace=" in small:
            small = shrink_trace(R, small, cls, 20)
        x = R.exec(small, timeout=400)
        y = R.exec(small, timeout=400)
        if x[:3] != y[:3] or x[0] != 1 or x[1] != cls:
            small, x = text, a
        path = os.path.join(REPLAYS, "%s-%s.plan" % (prop, hashlib.sha256(small.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("# violation of %s: %s\n" % (prop, x[1]))
            for l in x[3].splitlines():
                f.write("# %s\n" % l[:300])
            f.write("# found by %s; minimised in %d executions; expected hash %s\n" % (origin, tries, x[2]))
            f.write("# replay: python3 %s replay <this file>\n" % os.path.join(HERE, "vf.py"))
            f.write(small)
        print("violation: %s (%s)\n  %s" % (x[1], origin, x[3][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    return 2


def shrink_trace(R, text, cls, budget):
    t0 = time.time()
    m = re.search(r"op sched trace=(\S+)", text)
    tr = m.group(1).split(",")
    pairs = [tr[i:i + 2] for i in range(0, len(tr) - 1, 2)]
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for b, e in list(chunks(len(pairs))):
            if time.time() - t0 > budget or b >= len(pairs):
                break
            q = pairs[:b] + pairs[e:]
            t = text.replace("trace=" + ",".join(sum(pairs, [])), "trace=" + ",".join(sum(q, [])))
            r = R.exec(t, timeout=60)
            if len(q) < len(pairs) and q and r[0] == 1 and r[1] == cls:
                pairs, text, changed = q, t, True
    return text


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build(list(VARIANTS) + ["py"])
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        t = open(sys.argv[2]).read()
        v = re.search(r"^var (\S+)", t, re.M).group(1)
        st, cls, h, msg, _ = Runner(build([v])).exec(t, timeout=600)
        print("status %d class %s hash %s\n%s" % (st, cls, h, msg))
        if st == 1:
            print("VIOLATION property=%s replay=%s" % (re.search(r"^prop (\S+)", t, re.M).group(1), sys.argv[2]))
        return {0: 0, 1: 1}.get(st, 2)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
