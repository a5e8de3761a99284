"""Simulation driver for the Python interface (C13, C16). Runs under the interpreter that has the bindings.

  pyrun.py BUILD_DIR gen PROP SEED | exec FILE | batch PROP FIRST COUNT STRIDE SECONDS

Same interface and output as the C++ simulator. Real: CPython, pybind11, the bindings and the package of the
working tree. Simulated: clock and allocator (preloaded shim), history of calls, stored files.
"""
import ctypes, gc, hashlib, json, os, random, re, signal, sys, tempfile, time, zlib

BD = sys.argv[1]
shim = ctypes.CDLL(os.path.join(BD, "pyshim.so"))
ref = ctypes.CDLL(os.path.join(BD, "pyref.so"))
sys.path.insert(0, BD)
sys.dont_write_bytecode = True
import pycft  # noqa: E402
from pycft import _bindings as B  # noqa: E402
from pycft.set_cover_solver import SetCoverSolver  # noqa: E402

EPS32 = 2.0 ** -23
shim.ps_wrap_dealloc.argtypes = [ctypes.py_object]
for _t in list(vars(B).values()):
    if type(_t).__name__ == "pybind11_type" and shim.ps_wrap_dealloc(_t):
        raise SystemExit("the types of the bindings have different destructors")
u64 = ctypes.c_uint64
ref.ref_error.restype = ctypes.c_char_p


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Invalid(Exception):
    pass


class RefPar(ctypes.Structure):
    _fields_ = [("seed", u64), ("limit", ctypes.c_double), ("heur", u64), ("eps", ctypes.c_double), ("alpha", ctypes.c_double),
                ("beta", ctypes.c_double), ("abs_exit", ctypes.c_double), ("rel_exit", ctypes.c_double),
                ("min_fixing", ctypes.c_double), ("unit", ctypes.c_int)]


def f32(v):
    return ctypes.c_float(v).value


# --------------------------------------------------------------------------------------- plans
def esc(s):
    o = ""
    for c in s.encode("latin-1"):
        if 32 < c < 127 and c != 92:
            o += chr(c)
        elif c == 32:
            o += "\\_"
        else:
            o += "\\x%02x" % c
    return o


def unesc(s):
    return re.sub(r"\\(_|x[0-9a-f]{2})", lambda m: " " if m.group(1) == "_" else chr(int(m.group(1)[1:], 16)), s)


def parse_plan(text):
    p = {"files": {}, "ops": []}
    cur = None
    for l in text.splitlines():
        if not l or l[0] == "#":
            continue
        w = l.split(" ")
        if w[0] in ("prop", "var", "seed"):
            p[w[0]] = w[1]
        elif w[0] == "file":
            cur = w[1]
            p["files"][cur] = ""
        elif w[0] == "data":
            p["files"][cur] += unesc(w[1])
        elif w[0] == "op":
            p["ops"].append((w[1], dict((k, unesc(v)) for k, v in (x.split("=", 1) for x in w[2:]))))
        else:
            raise Invalid("line " + l)
    return p


def plan_text(p):
    o = ["prop " + p["prop"], "var py", "seed %s" % p["seed"]]
    for n, d in p["files"].items():
        o.append("file " + n)
        for l in re.findall(r"[^\n]*\n|[^\n]+$", d):
            for k in range(0, len(l), 160):
                o.append("data " + esc(l[k:k + 160]))
    for n, kv in p["ops"]:
        o.append(" ".join(["op", n] + ["%s=%s" % (k, esc(str(v))) for k, v in sorted(kv.items())]))
    return "\n".join(o) + "\n"


# ---------------------------------------------------------------------------------- generation
def gen_sets(r, n, extra):
    """Sets covering rows 0..n-1: list of (elements, cost)."""
    m = max(1, int(n * r.choice([0.4, 0.8, 1.5, 2.5])) + r.randint(0, 6))
    dens = r.choice([1, 2, 3, 5, 8])
    fam = r.randint(0, 5)
    sets = []
    for _ in range(m):
        k = min(n, max(1, int(r.expovariate(1.0 / dens)) + 1))
        e = r.sample(range(n), k)
        sets.append(e)
    cov = set(x for e in sets for x in e)
    for x in range(n):
        if x not in cov:
            if sets and r.random() < 0.7:
                e = r.choice(sets)
                if x not in e:
                    e.append(x)
            else:
                sets.append([x])
    if extra and r.random() < 0.3:
        sets.append(list(range(n)))
    r.shuffle(sets)
    out = []
    for e in sets:
        if fam == 0:
            c = 1
        elif fam == 1:
            c = r.randint(1, 100)
        elif fam == 2:
            c = r.randint(1, 3)
        elif fam == 3:
            c = r.randint(0, 800) / 8
        elif fam == 4:
            c = round(r.random() * 50, 3)
        else:
            c = len(e) + r.randint(0, 2)
        out.append((e, c))
    return out


def gen_par(r, kv, light=False):
    if r.random() < 0.8:
        kv["seed"] = r.choice([0, 1, 2, r.getrandbits(16), r.getrandbits(63), 2 ** 64 - 1])
    if r.random() < 0.4:
        kv["eps"] = r.choice([0.999, 0.1, 0.001, 0.5])
    if light or r.random() < 0.6:
        kv["heur"] = r.choice([0, 1, 3, 10, 40, 100] if light else [0, 1, 5, 20, 60, 250])
    if r.random() < 0.4:
        kv["alpha"] = r.choice([1.1, 1.3, 1.5, 2, 4])
    if r.random() < 0.4:
        kv["beta"] = r.choice([1.0, 0.9, 1.05, 1.2, 0.5])
    if r.random() < 0.4:
        kv["abs"] = r.choice([1.0, 10.0, 0.1, 100.0])
    if r.random() < 0.4:
        kv["rel"] = r.choice([0.001, 0.1, 0.0001, 0.5])
    if r.random() < 0.4:
        kv["minfix"] = r.choice([0.3, 0.1, 0.5, 0.9])
    if r.random() < 0.2:
        kv["verbose"] = r.randint(0, 5)
    if r.random() < 0.2:
        kv["pos"] = r.randint(1, 10)


def file_text(r, fmt, n, sets, init):
    sp = lambda: r.choice([" ", " ", "  ", "\t"])
    num = lambda c: "%d" % c if c == int(c) else repr(c)
    o = ""
    if fmt == "RAIL":
        o = "%d%s%d\n" % (n, sp(), len(sets))
        for e, c in sets:
            o += sp().join([num(c), str(len(e))] + [str(x + 1) for x in e]) + "\n"
    elif fmt == "SCP":
        o = "%d%s%d\n" % (n, sp(), len(sets))
        cs = [num(c) for _, c in sets]
        for k in range(0, len(cs), 12):
            o += sp().join(cs[k:k + 12]) + "\n"
        for i in range(n):
            js = [str(j + 1) for j, (e, _) in enumerate(sets) if i in e]
            o += "%d\n" % len(js)
            for k in range(0, len(js), 12):
                o += sp().join(js[k:k + 12]) + "\n"
    elif fmt == "CVRP":
        o = "%d%s%d\n" % (n, sp(), len(sets))
        for e, c in sets:
            o += sp().join([num(c), num(c + r.randint(0, 3))] + [str(x) for x in e]) + "\n"
        if init:
            o += sp().join(str(j) for j in init) + "\n"
    return o


def rand_cover(r, n, sets):
    order = list(range(len(sets)))
    r.shuffle(order)
    left, out = set(range(n)), []
    for j in order:
        if left & set(sets[j][0]):
            out.append(j)
            left -= set(sets[j][0])
    return out


def add_op(e, c, **kw):
    d = {"e": ",".join(str(x) for x in e), "c": repr(c)}
    d.update(kw)
    return ("add", d)


def fault(r, kv, hi):
    kv["k"] = 1 + int(hi ** r.random())
    if r.random() < 0.4:
        kv["sticky"] = 1


def expiry(r, kv):
    z = r.random()
    if z < 0.15:
        kv["x"] = "s"
    elif z < 0.55:
        kv["x"] = "r:%d" % r.randint(2, 30)
    elif z < 0.8:
        kv["x"] = "t:%d" % int(10 ** r.uniform(2, 6))


def gen_C13(r, p):
    n = r.choice([1, 2, 3, 5, 7, 8, 10, 12]) if r.random() < 0.8 else r.randint(13, 40)
    sets = gen_sets(r, n, True)
    ops = p["ops"]
    nf = 0
    hist = []
    for e, c in sets:
        hist.append(add_op(e, c))
    if r.random() < 0.35:
        hist = []
    # cut the adds in two: some come after a first solve
    cut = r.randint(0, len(hist)) if r.random() < 0.7 else len(hist)
    stream = hist[:cut] + [None] + hist[cut:]
    k = r.randint(3, 12)
    where = sorted(r.randint(0, len(stream)) for _ in range(k))
    out = []
    for i in range(len(stream) + 1):
        for _ in range(where.count(i)):
            out.append(None)
        if i < len(stream) and stream[i]:
            out.append(stream[i])
    if out.count(None) < 3:
        out += [None] * 3
    for s in out:
        if s:
            ops.append(s)
            continue
        z = r.random()
        if z < 0.45:
            kv = {}
            gen_par(r, kv, True)
            if r.random() < 0.5:
                expiry(r, kv)
            if r.random() < 0.35:
                fault(r, kv, r.choice([20, 200, 3000]))
            ops.append(("solve", kv))
        elif z < 0.60:  # rejected calls
            bad = r.randint(0, 14)
            e = [r.randint(0, n + 1) for _ in range(r.randint(1, 3))]
            kv = {"e": ",".join(map(str, e)), "c": "1"}
            if bad == 0:
                kv["e"] = ""
            elif bad == 1:
                kv["e"] += ",-1"
            elif bad == 2:
                kv["c"] = "-1.5"
            elif bad == 3:
                kv["e"] += ",'a'"
            elif bad == 4:
                kv["e"] += ",%d" % r.choice([40000, 70000, 2 ** 31, 2 ** 40, 2 ** 70])
            elif bad == 5:
                kv["c"] = "'x'"
            elif bad == 6:
                kv["e"] += ",1.5"
            elif bad == 7:
                kv["c"] = "None"
            elif bad == 8:
                kv["e"] += ",None"
            else:
                a, v = r.choice([("seed", -1), ("seed", "'s'"), ("seed", 2 ** 64), ("heur", -1), ("heur", "None"), ("eps", "'e'"),
                                 ("verbose", -1), ("alpha", "[]"), ("time", "'t'"), ("minfix", "None"), ("beta", "'b'"),
                                 ("nokw", 1)])
                ops.append(("solve", {a: v, "bad": 1}))
                continue
            ops.append(("add", kv))
        elif z < 0.72:  # a set with new or old elements, possibly without memory
            m = r.choice([n, n, n + 1, n + 2])
            e = r.sample(range(m), r.randint(1, min(m, 4)))
            if r.random() < 0.3:
                e = e + [r.choice(e)]
            o = add_op(e, r.choice([1, 2, 0, 0.5, 7]))
            if r.random() < 0.2:
                o[1]["tuple"] = 1
            if r.random() < 0.5:
                fault(r, o[1], 20)
            ops.append(o)
        elif z < 0.76:  # fill gaps
            e = list(range(n + 2))
            ops.append(add_op(e, r.choice([50, 100])))
        else:
            fmt = r.choice(["RAIL", "SCP", "CVRP"])
            fn = r.choice([3, 5, 8, 11])
            fs = gen_sets(r, fn, True)
            t = file_text(r, fmt, fn, fs, rand_cover(r, fn, fs) if r.random() < 0.6 else None)
            z2 = r.random()
            if z2 < 0.35:
                t = t[:r.randint(0, len(t))]
            elif z2 < 0.45:
                a = r.randrange(len(t))
                t = t[:a] + r.choice(["9999 ", "-3 ", "x", "70000"]) + t[a:]
            name = "f%d" % nf
            nf += 1
            p["files"][name] = t
            kv = {"f": name, "fmt": fmt}
            if z2 > 0.9:
                kv["fmt"] = r.choice(["XYZ", "rail", "SCP"])
            elif z2 > 0.85:
                kv["f"] = "absent"
            if r.random() < 0.4:
                fault(r, kv, r.choice([15, 60]))
            ops.append(("load", kv))
    kv = {}
    gen_par(r, kv, True)
    ops.append(("solve", kv))
    ops.append(("final", {}))


def gen_C16(r, p):
    ops = p["ops"]
    n = r.choice([3, 8, 15, 25, 40, 60, 90])
    sets = gen_sets(r, n, r.random() < 0.2)
    if r.random() < 0.5:
        for e, c in sets:
            ops.append(add_op(e, c))
    else:
        fmt = r.choice(["RAIL", "SCP", "CVRP"])
        init = rand_cover(r, n, sets) if r.random() < 0.5 and fmt == "CVRP" else None
        p["files"]["f0"] = file_text(r, fmt, n, sets, init)
        ops.append(("load", {"f": "f0", "fmt": fmt}))
        if r.random() < 0.5:
            kv = {"f": "f0", "fmt": fmt}
            gen_par(r, kv)
            if r.random() < 0.5:
                kv["unit"] = 1
            ops.append(("envrun", kv))
    for _ in range(r.randint(1, 4)):
        kv = {}
        gen_par(r, kv)
        z = r.random()
        if z < 0.1:
            kv["x"] = "s"
        elif z < 0.35:
            kv["x"] = "r:%d" % r.randint(2, 30)
        elif z < 0.5:
            kv["time"] = r.choice([1e9, 31536000.0, 10 ** 9])
        ops.append(("solve", kv))
        if r.random() < 0.4:
            m = r.choice([n, n, n + 1])
            for _ in range(r.randint(1, 3)):
                ops.append(add_op(r.sample(range(m), r.randint(1, min(m, 5))), r.choice([1, 2, 5, 0.25])))
            if m > n:
                ops.append(add_op([n], 3))
                n = m


GEN = {"C13": gen_C13, "C16": gen_C16}


def gen(prop, seed):
    r = random.Random("%s/%d" % (prop, seed))
    p = {"prop": prop, "seed": seed, "files": {}, "ops": []}
    GEN[prop](r, p)
    return p


# ----------------------------------------------------------------------------------- execution
NAMES = {"seed": "seed", "eps": "epsilon", "heur": "heur_iters", "alpha": "alpha", "beta": "beta", "abs": "abs_subgrad_exit",
         "rel": "rel_subgrad_exit", "minfix": "min_fixing", "verbose": "verbose", "time": "time_limit"}
ORDER = ["seed", "time", "verbose", "eps", "heur", "alpha", "beta", "abs", "rel", "minfix"]
DEF = {"seed": 0, "time": float("inf"), "verbose": 0, "eps": 0.999, "heur": 250, "alpha": 1.1, "beta": 1.0, "abs": 1.0, "rel": 0.001,
       "minfix": 0.3}
ENVN = {"seed": "seed", "eps": "epsilon", "heur": "heur_iters", "alpha": "alpha", "beta": "beta", "abs": "abs_subgrad_exit",
        "rel": "rel_subgrad_exit", "minfix": "min_fixing", "verbose": "verbose", "time": "time_limit"}


def lit(s):
    import ast
    return ast.literal_eval(s)


class Ctx:
    def __init__(self, p, fd):
        self.p, self.fd = p, fd
        self.h = 0
        self.sig = 0
        self.st = {"ticks": 0, "sim_ns": 0, "clock_reads": 0, "allocs": 0, "calls": 0, "io_ops": 0, "preempts": 0, "edges": 0}
        self.fired = {}
        self.probes = {}
        self.nontriv = 0
        self.dir = tempfile.mkdtemp(prefix="pysim")
        self.o = (u64 * 8)()

    def note(self, *a):
        self.h = zlib.crc32(repr(a).encode(), self.h)

    def fire(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def call(self, fn, kv, raw=False):
        """Runs fn under the simulated clock and allocator. Returns (ok, value, exception)."""
        x = kv.get("x", "")
        er = et = 0
        rate, jump = 1000, 0
        if x.startswith("r:"):
            er, rate, jump = int(x[2:]), 1, 10 ** 13
        elif x.startswith("t:"):
            et, rate, jump = int(x[2:]), 1, 10 ** 13
        elif x == "s":
            rate = 10 ** 6
            self.fire("time_limit_already_expired")
        k = int(kv.get("k", 0))
        st = int(kv.get("sticky", 0))
        shim.ps_begin(ctypes.c_int64(10 ** 9), ctypes.c_int64(rate), ctypes.c_int64(jump), u64(er), u64(et), u64(k), st,
                      u64(6 * 10 ** 8), self.fd)
        ok, v, e = True, None, None
        try:
            v = fn()
        except Exception as ex:  # noqa: BLE001
            ok, e = False, ex
        shim.ps_end(self.o)
        o = self.o
        self.last = {"ticks": o[0], "reads": o[1], "allocs": o[2], "failed": o[3], "expired": o[6]}
        if not raw:
            self.st["calls"] += 1
            self.st["ticks"] += o[0]
            self.st["clock_reads"] += o[1]
            self.st["allocs"] += o[2]
            self.st["sim_ns"] += o[7]
            self.st["edges"] = max(self.st["edges"], o[5])
            self.sig = zlib.crc32(b"%d" % o[4], self.sig)
            self.note(ok, o[0], o[1], o[2])
            if o[6]:
                self.fire("time_limit_expiry_between_clock_reads" if er else "time_limit_expiry_at_tick")
            if o[3]:
                self.fire("allocation_failure_persistent" if st else "allocation_failure_once", 1)
        return ok, v, e


class Model:
    """What the solver object must represent."""

    def __init__(self):
        self.sets = []
        self.res = None  # (idxs, cost, lb, mults)
        self.best = None  # memo of check_lb

    def n(self):
        return 1 + max((x for e, _ in self.sets for x in e), default=-1)

    def solvable(self):
        n = self.n()
        return n > 0 and len(set(x for e, _ in self.sets for x in e)) == n


def arrays(sets):
    begs = [0]
    idxs = []
    for e, _ in sets:
        idxs += e
        begs.append(len(idxs))
    m = len(sets)
    return ((ctypes.c_int * (m + 1))(*begs), (ctypes.c_int * max(1, len(idxs)))(*idxs), (ctypes.c_double * max(1, m))(*[c for _, c in sets]))


def ref_call(c, fmt, path, n, sets, P, limit, unit, warm, kv):
    b, i, co = arrays(sets)
    par = RefPar(P["seed"] % 2 ** 64, limit, P["heur"], P["eps"], P["alpha"], P["beta"], P["abs"], P["rel"], P["minfix"], unit)
    w = (ctypes.c_int * max(1, len(warm[0]) if warm else 1))(*(warm[0] if warm else []))
    ok, k, e = c.call(lambda: ref.ref_run(fmt.encode(), path.encode(), n, len(sets), b, i, co, ctypes.byref(par),
                                          len(warm[0]) if warm else 0, w, ctypes.c_double(warm[1] if warm else 0.0)), kv, raw=True)
    if k < 0:
        return None
    ix = (ctypes.c_int * max(1, k))()
    cost, lb, nm = ctypes.c_double(), ctypes.c_double(), ctypes.c_int()
    ref.ref_get(ix, ctypes.byref(cost), ctypes.byref(lb), None, ctypes.byref(nm))
    mu = (ctypes.c_double * max(1, nm.value))()
    ref.ref_get(ix, ctypes.byref(cost), ctypes.byref(lb), mu, ctypes.byref(nm))
    return list(ix[:k]), cost.value, lb.value, list(mu[:nm.value])


def ref_parse(fmt, path):
    n, m, z, ni = ctypes.c_int(), ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
    if ref.ref_parse(fmt.encode(), path.encode(), ctypes.byref(n), ctypes.byref(m), ctypes.byref(z), ctypes.byref(ni)):
        return None
    b, i = (ctypes.c_int * (m.value + 1))(), (ctypes.c_int * max(1, z.value))()
    co, it = (ctypes.c_double * max(1, m.value))(), (ctypes.c_int * max(1, ni.value))()
    ic = ctypes.c_double()
    ref.ref_parse_get(b, i, co, it, ctypes.byref(ic))
    sets = [(list(i[b[j]:b[j + 1]]), co[j]) for j in range(m.value)]
    return n.value, sets, list(it[:ni.value]), ic.value


def optimum(n, sets):
    """Exact optimum by dynamic programming over subsets of rows (small n)."""
    full = (1 << n) - 1
    inf = float("inf")
    d = [inf] * (full + 1)
    d[0] = 0.0
    by = [[] for _ in range(n)]
    for e, c in sets:
        b = 0
        for x in e:
            b |= 1 << x
        for x in set(e):
            by[x].append((b, f32(c)))
    for s in range(full):
        if d[s] == inf:
            continue
        i = 0
        while s >> i & 1:
            i += 1
        v = d[s]
        for b, c in by[i]:
            t = s | b
            if v + c < d[t]:
                d[t] = v + c
    return d[full]


def state(sv):
    s, c, lb, mu = sv.get_solution(), sv.get_cost(), sv.get_lower_bound(), sv.get_dual_multipliers()
    return (s, c, lb, mu)


def show(s):
    return "solution %s cost %r bound %r, %s multipliers" % (str(s[0])[:120], s[1], s[2], None if s[3] is None else len(s[3]))


def params(kv):
    P = dict(DEF)
    for k in ("seed", "heur", "verbose"):
        if k in kv:
            P[k] = int(kv[k])
    for k in ("eps", "alpha", "beta", "abs", "rel", "minfix", "time"):
        if k in kv:
            P[k] = float(kv[k])
    if kv.get("x", "").startswith(("r:", "t:")):
        P["time"] = 100.0
    elif kv.get("x") == "s":
        P["time"] = 0.0
    return P


def solve_call(sv, kv, P):
    """Arguments partly by position, as the seed of the plan decided."""
    npos = int(kv.get("pos", 0))
    args = [P[k] for k in ORDER[:npos]]
    kw = {NAMES[k]: P[k] for k in ORDER[npos:] if k in kv or k in ("verbose",) or P[k] != DEF[k]}
    return lambda: sv.solve(*args, **kw)


def files(c):
    for n, d in c.p["files"].items():
        with open(os.path.join(c.dir, n), "w", encoding="latin-1", newline="") as f:
            f.write(d)


def exact(sets):
    return all(f32(c) == c and c * 8 == int(c * 8) and c < 2 ** 15 for _, c in sets) and sum(c for _, c in sets) < 2 ** 20


def tol(sets, k, cost):
    return 0.0 if exact(sets) else EPS32 * 8 * (k + 8) * (abs(cost) + 1)


def check_result(M, S, me):
    n = M.n()
    s, cost, lb, mu = S
    if len(set(s)) != len(s) or any(j < 0 or j >= len(M.sets) for j in s):
        raise Violation("bad-index", "%s: selected sets %s of %d" % (me, s, len(M.sets)))
    cov = set(x for j in s for x in M.sets[j][0])
    if len(cov) != n:
        raise Violation("not-a-cover", "%s: elements %s are not covered" % (me, sorted(set(range(n)) - cov)[:5]))
    ec = sum(f32(M.sets[j][1]) for j in s)
    if abs(ec - cost) > tol(M.sets, len(s), ec):
        raise Violation("wrong-cost", "%s: reported cost %r, the selected sets cost %r" % (me, cost, ec))
    return ec


def check_lb(M, S, me):
    """Whatever the history, the bound must be one for the sets that the object has now."""
    n = M.n()
    if len(set(x for e, _ in M.sets for x in e)) != n or any(f32(cst) < 0 for _, cst in M.sets):
        return
    s, cost, lb, mu = S
    key = (len(M.sets), tuple(s) if s else None)
    if M.best is None or M.best[0] != key:
        if n <= 12:
            best = optimum(n, M.sets)
        elif s:
            best = sum(f32(M.sets[j][1]) for j in s)
        else:
            best, left = 0.0, set(range(n))
            for e, cst in sorted(M.sets, key=lambda x: f32(x[1])):
                if not left.isdisjoint(e):
                    left.difference_update(e)
                    best += f32(cst)
        tot = sum(abs(f32(cst)) for _, cst in M.sets)
        M.best = key, best, EPS32 * 4 * (n + len(M.sets)) * (tot + abs(best) + 1) if M.sets else 0.0
    if not lb <= M.best[1] + M.best[2]:
        raise Violation("bound-above-optimum", "%s: lower bound %r, a cover of cost %r exists" % (me, lb, M.best[1]))


def check_mults(M, S, me):
    n = M.n()
    mu = S[3]
    tot = sum(abs(f32(c)) for _, c in M.sets)
    plain = all(cst >= 0 for _, cst in M.sets) and tot < 1e30
    if len(mu) != n or (plain and not all(0 <= x < 1e30 for x in mu)):
        raise Violation("bad-multipliers", "%s: %d multipliers for %d elements: %s" % (me, len(mu), n, str(mu)[:100]))


def run_ops(c):
    files(c)
    M = Model()
    sv = SetCoverSolver()
    c16 = c.p["prop"] == "C16"
    for step, (name, kv) in enumerate(c.p["ops"]):
        me = "step %d %s %s" % (step, name, " ".join("%s=%s" % x for x in sorted(kv.items())))
        before = state(sv)
        if name == "add":
            try:
                e = list(lit("[" + kv["e"] + "]"))
                cost = lit(kv["c"])
            except (ValueError, SyntaxError):
                raise Invalid(me)
            good = (len(e) > 0 and all(type(x) is int and 0 <= x <= 32767 for x in e) and type(cost) in (int, float) and cost >= 0)
            arg = tuple(e) if "tuple" in kv else e
            ok, v, ex = c.call(lambda: sv.add_set(arg, cost), kv)
            if ok:
                if not good:
                    raise Violation("accepted", me + ": an invalid set was accepted")
                if v != len(M.sets):
                    raise Violation("wrong-index", "%s: the set got index %r, it is number %d" % (me, v, len(M.sets)))
                n = M.n()
                M.sets.append((list(dict.fromkeys(e)), cost))
                if M.n() > n:
                    M.res = None
            elif good and not c.last["failed"]:
                raise Violation("refused", "%s: a valid set was refused: %r" % (me, ex))
        elif name == "load":
            path = os.path.join(c.dir, kv["f"])
            want = ref_parse(kv["fmt"], path)
            ok, v, ex = c.call(lambda: sv.from_file(path, kv["fmt"]), kv)
            if ok:
                if want is None:
                    raise Violation("accepted", me + ": a file that the library refuses was loaded")
                M.sets = want[1]
                M.best = None
                M.res = (want[2], want[3], None, None) if want[2] else None
                M.loaded = True
            elif want is not None and not c.last["failed"]:
                raise Violation("refused", "%s: loading a file that the library reads failed: %r" % (me, ex))
        elif name in ("solve", "final"):
            if "bad" in kv:
                a = {}
                for k, v in kv.items():
                    if k != "bad":
                        a[NAMES.get(k, k)] = lit(v)
                solv = M.solvable()
                ok, v, ex = c.call(lambda: sv.solve(**a), {})
                if ok:
                    raise Violation("accepted", me + ": invalid arguments were accepted")
            else:
                P = params(kv)
                solv = M.solvable()
                fn = solve_call(sv, kv, P)
                warm = M.res
                ok, v, ex = c.call(fn, kv)
                last = dict(c.last)
                if ok:
                    if not solv:
                        raise Violation("accepted", me + ": solving succeeded although elements are in no set")
                    S = state(sv)
                    ec = check_result(M, S, me)
                    check_mults(M, S, me)
                    if warm and ec > warm[1] + tol(M.sets, len(S[0]) + len(warm[0]), warm[1]):
                        raise Violation("worsened", "%s: cost %r after a solution of cost %r" % (me, S[1], warm[1]))
                    M.res = (S[0], S[1], S[2], S[3])
                    if (c16 or not last["expired"]) and not last["failed"]:
                        compare(c, M, P, kv, warm, S, me)
                    c.note(S[0], S[1], S[2], S[3])
                else:
                    c.note(type(ex).__name__)
                    if solv and not last["failed"]:
                        raise Violation("refused", "%s: solving failed: %r" % (me, ex))
                    if last["failed"]:
                        c.nontriv += 1
        elif name == "envrun":
            envrun(c, kv, me)
            continue
        else:
            raise Invalid(me)
        S = state(sv)
        if not ok:
            if not c16:
                c.nontriv += 1
            if S != before:
                raise Violation("changed-by-failure", "%s failed (%r), yet the object changed from %s to %s" % (me, ex, show(before), show(S)))
            if name == "add" and c.last["failed"]:
                c.probes[5] = c.probes.get(5, 0) + 1
        if M.res is None:
            if S[0] is not None or S[1] is not None:
                raise Violation("stale-solution", "%s: the object reports %s, there is no valid one" % (me, show(S)))
        else:
            if S[0] != M.res[0] or S[1] != M.res[1] or (M.res[3] is not None and S[3] != M.res[3]):
                raise Violation("lost-solution", "%s: the object reports %s instead of %s" % (me, show(S), show(M.res)))
            check_result(M, (M.res[0], M.res[1], 0, None), me)
        check_lb(M, S, me)


def compare(c, M, P, kv, warm, S, me):
    """The library on the same data must give the same result."""
    limit = -1.0 if P["time"] == float("inf") else P["time"]
    w = (warm[0], warm[1]) if warm else None
    x = kv.get("x", "")
    alts = [x]
    if x.startswith("r:"):
        k = int(x[2:])
        alts = ["r:%d" % (k + d) for d in (0, -1, 1, -2, 2, -3, 3) if k + d >= 1]
    first = None
    for a in alts:
        if x.startswith("t:"):
            return
        R = ref_call(c, "", "", M.n(), M.sets, P, limit, 0, w, {"x": a} if a else {})
        if R is None:
            raise Violation("library-fails", "%s: the library refuses: %s" % (me, ref.ref_error().decode()))
        if (R[0], R[1], R[2], R[3]) == (S[0], S[1], S[2], S[3]):
            if c.p["prop"] == "C16":
                c.nontriv += 1
            return
        first = first or R
    raise Violation("differs", "%s: Python gives %s, the library %s" % (me, show(S), show(first)))


def envrun(c, kv, me):
    path = os.path.join(c.dir, kv["f"])
    P = params(kv)

    def fn():
        env = B.Environment()
        env.inst_path = path
        env.parser = kv["fmt"]
        for k, a in ENVN.items():
            setattr(env, a, P[k])
        env.use_unit_costs = "unit" in kv
        fd = B.parse_inst_and_initsol(env)
        q = B.run(env, fd.inst, fd.init_sol)
        return list(q.sol.idxs), q.sol.cost, q.dual.cost, list(q.dual.mults)

    ok, v, ex = c.call(fn, kv)
    R = ref_call(c, kv["fmt"], path, 0, [], P, -1.0 if P["time"] == float("inf") else P["time"], int("unit" in kv), None, {})
    if (R is None) != (not ok):
        raise Violation("differs", "%s: Python %s, the library %s" % (me, repr(ex) if ex else "succeeds", ref.ref_error().decode() if R is None else "succeeds"))
    if ok and tuple(R) != tuple(v):
        raise Violation("differs", "%s: Python gives %s, the library %s" % (me, show(v), show(R)))
    c.nontriv += 1


# ------------------------------------------------------------------------------------- drivers
def child(p, fd):
    signal.alarm(120)
    gc.disable()  # when it would run depends on what the parent process has done before
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 1)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    c = Ctx(p, fd)
    st, cls, msg = 0, "", ""
    try:
        run_ops(c)
    except Violation as v:
        st, cls, msg = 1, v.cls, v.msg
        c.note(cls, msg.replace(c.dir, "DIR"))
    except Invalid as v:
        st, cls, msg = 2, "invalid", str(v)
    finally:
        for n in os.listdir(c.dir):
            os.unlink(os.path.join(c.dir, n))
        os.rmdir(c.dir)
    os.write(fd, (json.dumps({"st": st, "cls": cls, "msg": msg.replace(c.dir, "DIR"), "h": "%08x" % c.h, "sig": "%08x" % c.sig, "stats": c.st,
                              "fired": c.fired, "probes": c.probes, "nt": c.nontriv}) + "\n").encode())
    os._exit(0)


def run_plan(p):
    """Executes the plan in a child process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child(p, w)
        except BaseException as e:  # noqa: BLE001
            os.write(w, (json.dumps({"st": 3, "cls": "harness", "msg": repr(e)[:500]}) + "\n").encode())
        os._exit(0)
    os.close(w)
    d = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        d += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    ls = d.decode().splitlines()
    base = {"stats": {}, "fired": {}, "probes": {}, "nt": 0, "h": "0", "sig": "0"}
    if ls and ls[-1].startswith("{"):
        base.update(json.loads(ls[-1]))
        return base
    if "HANG" in ls:
        base.update(st=1, cls="endless", msg="a call does not end", h="42")
    elif "CUT" in ls:  # pybind11 itself does not survive the failed allocation: the execution ends here
        base.update(st=0, cls="", msg="", h="43", probes={"30": 1})
    elif os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        base.update(st=3 if s == signal.SIGKILL else 1, cls="endless" if s == signal.SIGALRM else "signal-%d" % s,
                    msg="the interpreter died from signal %d" % s, h="s%d" % s)
    else:
        base.update(st=3, cls="harness", msg="child ended with status %d" % os.WEXITSTATUS(status))
    return base


def warm_up():
    """First use of every bound type: pybind11 fills its caches in places that cannot report a lack of memory."""
    path = os.path.join(tempfile.gettempdir(), "warm")
    with open(path, "w") as f:
        f.write("1 1\n1 1 0\n0\n")
    fd = os.dup(1)
    os.dup2(os.open("/dev/null", os.O_RDWR), 1)
    try:
        for t in ("Environment", "SparseBinMat", "Instance", "CftResult", "Solution", "DualState"):
            repr(getattr(B, t)()) if hasattr(B, t) else None
        s = SetCoverSolver()
        s.add_set([0], 1)
        s.solve(verbose=0)
        state(s)
        s.from_file(path, "CVRP")
        s.solve(verbose=0)
        state(s)
    except Exception:  # noqa: BLE001
        pass
    os.dup2(fd, 1)
    os.unlink(path)


def main():
    tempfile.tempdir = tempfile.mkdtemp(prefix="pyb", dir=BD)
    try:
        warm_up()
        gc.collect()
        gc.freeze()
        a = sys.argv[2:]
        if a[0] == "gen":
            sys.stdout.write(plan_text(gen(a[1], int(a[2]))))
            return 0
        if a[0] == "exec":
            try:
                p = parse_plan(open(a[1]).read())
            except Exception as e:  # noqa: BLE001
                print("INVALID %r" % e)
                return 3
            q = run_plan(p)
            print("status %d\nclass %s\nhash %s\nmessage %s" % (q["st"], q["cls"], q["h"], q["msg"]))
            return {0: 0, 1: 1}.get(q["st"], 3)
        if a[0] == "batch":
            prop, first, count, stride, secs = a[1], int(a[2]), int(a[3]), int(a[4]), float(a[5])
            t0, n, bad = time.monotonic(), 0, 0
            S, F, P = {}, {}, {}
            for k in range(count):
                if time.monotonic() - t0 > secs:
                    break
                seed = first + k * stride
                q = run_plan(parse_plan(plan_text(gen(prop, seed))))
                print("R %d %d %s %s %s %d %s" % (seed, q["st"], q["cls"] or "-", q["h"], q["sig"], q["nt"],
                                                 re.sub(r"\s+", " ", q["msg"]) if q["st"] else ""))
                for d, s in ((S, q["stats"]), (F, q["fired"]), (P, q["probes"])):
                    for x, v in s.items():
                        d[x] = max(d.get(x, 0), v) if x == "edges" else d.get(x, 0) + v
                n += 1
                if q["st"] == 1:
                    bad += 1
                    if bad >= 3:
                        break
            S["runs"] = n
            for x, v in S.items():
                print("S %s %d" % (x, v))
            for x, v in F.items():
                print("F %s %d" % (x, v))
            for x, v in P.items():
                print("P %s %d" % (x, v))
            print("E")
            return 0
        print(__doc__)
        return 3
    finally:
        import shutil
        shutil.rmtree(tempfile.tempdir, ignore_errors=True)


sys.stdout.flush()
rc = main()
sys.stdout.flush()
os._exit(rc)
