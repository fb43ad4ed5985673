#!/usr/bin/env python3
"""Driver: decides one property by bounded symbolic execution of /repo's
current sources.   check.py PROP [quick|thorough] [--only JOB] [--keep]

Every job = one harness + the real translation units it exercises, compiled
to GOTO with goto-cc from /repo's working tree, explored by CBMC, verdict by
an SMT/SAT solver.  A counterexample is replayed against the same code
compiled natively (gcc + ASan); only what reproduces is a VIOLATION.
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, signal, re, resource, importlib, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
NCPU = os.cpu_count() or 8
CFLAGS = ["-DL_ENDIAN", "-DHAVE_ADDCARRY_U64", "-DOPENSSL_LOAD_CONF",
          "-DOPENSSL_SUPPRESS_DEPRECATED", "-I" + REPO, "-I" + VERIF + "/vp", "-I" + VERIF + "/harness",
          '-DREPO_DIR="%s"' % REPO]
GLOBAL_DEADLINE = {"quick": 700, "thorough": 870}
MEM = 14 << 30
T0 = time.time()
_procs = set()
_plock = threading.Lock()
FOUND = threading.Event()       # a violation is established: the remaining jobs are cut short
TMP = [None]                    # scratch folder of this run


class Job:
    """One harness run.
    src      harness file under harness/
    units    {repo file: [functions whose body is replaced by a stub]}
    stubs    files under vp/ or harness/ used in the symbolic build only
    models   files under vp/ used in both builds
    native   extra repo files for the native replay only
    weak     functions of these files that the harness replaces in the replay, too
    """
    def __init__(self, name, src, units=None, stubs=(), models=("misc",), native=(), nstubs=(), defs=(),
                 unwind=10, unwindset=(), solvers=("z3",), timeout=60, ttimeout=None, mem=True,
                 tier="quick", bounds="", assumptions=(), entry="vp_main", cb=(), witness=True,
                 wsolver=None, narrow=(), leak=False, ccflags=(), ubsan=False, muts=8, udefs=(), wkey=None, fallback=("sat",), late=("cvc5",), weak=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.units = units or {}


def run(cmd, timeout, cwd=None, env=None, mem=MEM, stop=None):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem)) if mem else None
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    out = tempfile.TemporaryFile()
    env = dict(env or os.environ, TMPDIR=TMP[0]) if TMP[0] else env
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre, stdin=subprocess.DEVNULL)
    with _plock:
        _procs.add(p)
    rc = None
    try:
        while True:
            try:
                rc = p.wait(timeout=0.05)
                break
            except subprocess.TimeoutExpired:
                if time.time() - t > timeout or FOUND.is_set() or (stop is not None and stop.is_set()):
                    rc = None
                    break
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        with _plock:
            _procs.discard(p)
    out.seek(0)
    return rc, out.read().decode("utf-8", "replace"), time.time() - t


class Build:
    def __init__(self, d):
        self.d = d
        self.cache = {}
        self.locks = {}
        self.l = threading.Lock()

    def once(self, key, fn):
        with self.l:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.cache:
                self.cache[key] = fn()
            return self.cache[key]

    def path(self, key, suffix):
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        return os.path.join(self.d, h + suffix)

    def find(self, f):
        for c in (os.path.join(VERIF, "harness", f), os.path.join(VERIF, "vp", f), os.path.join(VERIF, "harness", f + ".c"),
                  os.path.join(VERIF, "vp", f + ".c")):
            if os.path.isfile(c):
                return c
        return os.path.join(REPO, f)

    def goto_obj(self, f, defs):
        key = ("g", f, tuple(defs))

        def mk():
            o = self.path(key, ".gb")
            rc, out, _ = run(["goto-cc", "-c", "-std=gnu99", "-DVP_CBMC", *CFLAGS, *defs, "-o", o, f], 120)
            return (o, None) if rc == 0 and os.path.exists(o) else (None, "goto-cc %s: %s" % (os.path.basename(f), out[-600:]))
        return self.once(key, mk)

    def goto_unit(self, f, defs, rm):
        key = ("u", f, tuple(defs), tuple(rm))

        def mk():
            o, e = self.goto_obj(f, defs)
            if e or not rm:
                return o, e
            o2 = self.path(key, ".gb")
            rc, lst, _ = run(["goto-instrument", "--list-goto-functions", o], 60)
            args = []
            for r in rm:
                if re.search(r"^\s*%s\b" % re.escape(r), lst, re.M):
                    args += ["--remove-function-body", r]
            if not args:
                return o, None
            rc, out, _ = run(["goto-instrument", *args, o, o2], 60)
            return (o2, None) if rc == 0 else (None, "goto-instrument: " + out[-400:])
        return self.once(key, mk)

    def nat_obj(self, f, defs, san, weak=()):
        key = ("n", f, tuple(defs), san, tuple(weak))

        def mk():
            o = self.path(key, ".o")
            rc, out, _ = run(["gcc", "-c", "-std=gnu99", "-g", "-O1", "-w", *(("-fno-inline", "-fno-ipa-pure-const") if weak else ()), *san, *CFLAGS, *defs, "-o", o, f], 200, mem=None)
            if rc == 0 and weak:        # the harness's definitions take their place
                rc, out, _ = run(["objcopy", *("--weaken-symbol=" + w for w in weak), o], 60, mem=None)
            return (o, None) if rc == 0 else (None, "gcc %s: %s" % (os.path.basename(f), out[-600:]))
        return self.once(key, mk)


def mdefs(job, defs):
    """defines seen by models and stubs (shared objects): only -DVP_*, -DUF_*"""
    return [d for d in defs if d.startswith(("-DVP_", "-DUF_")) and d != "-DVP_WITNESS_RUN"]


def build_goto(b, job, extra=()):
    defs = list(job.defs) + list(extra)
    objs = []
    for f, rm in job.units.items():
        o, e = b.goto_unit(os.path.join(REPO, f), tuple(job.udefs), rm)
        if e:
            return None, e
        objs.append(o)
    for f in ["vp_rt", *job.models, *job.stubs, job.src]:
        o, e = b.goto_obj(b.find(f), defs if f == job.src else mdefs(job, defs))
        if e:
            return None, e
        objs.append(o)
    key = ("l", job.name, tuple(extra))

    def mk():
        out = b.path(key, ".bin.gb")
        rc, txt, _ = run(["goto-cc", "--function", job.entry, "-o", out, *objs], 120)
        if rc != 0:
            return None, "link: " + txt[-600:]
        return out, None
    return b.once(key, mk)


def build_native(b, job):
    san = ("-fsanitize=address", "-ftrivial-auto-var-init=zero", "-fno-omit-frame-pointer", *(("-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment") if job.ubsan else ()), *job.ccflags)
    objs = []
    fs = [(os.path.join(REPO, f), tuple(job.udefs)) for f in [*job.units.keys(), *job.native]]
    fs += [(b.find(f), tuple(job.defs) if f == job.src else tuple(mdefs(job, job.defs))) for f in ["vp_rt", *job.models, *job.nstubs, job.src]]
    for f, dd in fs:
        o, e = b.nat_obj(f, dd, san, job.weak if f.startswith(REPO) else ())
        if e:
            return None, e
        objs.append(o)
    out = os.path.join(b.d, "native_" + job.name)
    ld = ["gcc", "-fsanitize=address", *(("-fsanitize=undefined",) if job.ubsan else ()), "-o", out, *objs]
    rc, txt, _ = run([*ld, "-Wl,--warn-unresolved-symbols"], 120, mem=None)
    if rc == 0:     # calls that leave the model must not look like a crash of the code under test
        und = sorted(set(re.findall(r"undefined reference to `(\w+)'", txt)))
        if und:
            stub = os.path.join(b.d, "und_" + job.name + ".c")
            with open(stub, "w") as h:
                h.write("#include <unistd.h>\n#include <stdio.h>\n" + "".join('void %s(void) { puts("VP-UNMODELLED %s"); fflush(stdout); _exit(78); }\n' % (u, u) for u in und))
            rc, txt, _ = run([*ld, stub, "-fno-builtin", "-w"], 120, mem=None)
    return (out, None) if rc == 0 else (None, "native link: " + ("\n".join(l for l in txt.splitlines() if "warning" not in l and "in function" not in l) or txt)[-900:])


SOLVERS = {
    "z3": ["--z3"],
    "z3new": ["--external-smt2-solver", "z3-new"],
    "sat": ["--sat-solver", "cadical"],
    "minisat": [],
    "cvc5": ["--cvc5"],
}


def cbmc_cmd(job, gb, solver, k, witness, allp=False):
    c = ["cbmc", gb, "--function", job.entry, "--unwind", str(job.unwind * k), "--json-ui", "--no-standard-checks",
         "--slice-formula", "--object-bits", "13", "--trace", "--no-malloc-may-fail", "--verbosity", "8"]
    us = []
    for u in job.unwindset:
        n, v = u.rsplit(":", 1)
        us.append("%s:%d" % (n, int(v) * k))
    if us:
        c += ["--unwindset", ",".join(us)]
    if not witness:
        c += ["--unwinding-assertions"] + ([] if allp else ["--stop-on-fail"])
        if job.mem:
            c += ["--bounds-check", "--pointer-check"]
    c += SOLVERS[solver] + list(job.cb)
    return c


def parse_cbmc(txt):
    """-> (status, [(property, description, failed trace values)], messages)"""
    i = txt.find("[")
    status, fails, props = "unknown", [], 0
    try:
        data = json.loads(txt[i:])
    except Exception:
        data = []
        for m in re.finditer(r'"cProverStatus":\s*"(\w+)"', txt):
            status = m.group(1)
    msgs = []

    def trace_of(tr):
        v = {}
        for st in tr or []:
            if st.get("stepType") == "input" and st.get("inputID") == "vpnd":
                vals = st.get("values", [])
                if len(vals) == 2:
                    try:
                        v[int(vals[0].get("data", "0").rstrip("ul"))] = int(vals[1].get("data", "0").rstrip("ul"))
                    except ValueError:
                        v[int(vals[0]["binary"], 2)] = int(vals[1]["binary"], 2)
        return v
    for e in data:
        if "cProverStatus" in e:
            status = e["cProverStatus"]
        if "result" in e:
            for r in e["result"]:
                props += 1
                if r.get("status") == "FAILURE":
                    fails.append((r.get("property", ""), r.get("description", ""), trace_of(r.get("trace"))))
        elif "trace" in e and "description" in e:     # --stop-on-fail
            fails.append((e.get("property", ""), e["description"], trace_of(e["trace"])))
        if "messageText" in e:
            msgs.append(e["messageText"])
    return status, fails, msgs, props


class Result:
    def __init__(self, job):
        self.job = job
        self.verdict = "INCONCLUSIVE"
        self.detail = ""
        self.solver = None
        self.time = 0.0
        self.vccs = 0
        self.steps = 0
        self.k = 1
        self.functions = []
        self.witness = None
        self.replay = None
        self.queries = 0
        self.desc = ""
        self.narrow = None


def cbmc_once(job, gb, solver, tmo, witness=False, stop=None, allp=False):
    """run with growing unwind until the unwinding assertions hold"""
    spent = 0
    for k in (1, 2, 4):
        rc, txt, dt = run(cbmc_cmd(job, gb, solver, k, witness, allp), max(1, tmo - spent), stop=stop)
        spent += dt
        if rc is None:
            return "timeout", [], spent, k, txt
        st, fails, msgs, props = parse_cbmc(txt)
        if st == "success":
            return "success", [], spent, k, txt
        if st == "failure":
            nb = [f for f in fails if f[1].startswith("no body for")]
            if nb:
                return "error", [], spent, k, nb[0][1]
            real = [f for f in fails if "unwinding assertion" not in f[1] and not f[0].split(".")[-2:-1] == ["unwind"]]
            if real:
                return "failure", real, spent, k, txt
            continue
        return "error", [], spent, k, txt
    return "unwind", [], spent, k, txt


def replay(b, job, vals, tag):
    exe, e = b.once(("nat", job.name), lambda: build_native(b, job))
    if e:
        return None, "native build failed: " + e
    n = max(vals) + 1 if vals else 0
    f = os.path.join(b.d, "replay_%s_%s.txt" % (job.name, tag))
    with open(f, "w") as h:
        for i in range(n):
            h.write("%d\n" % vals.get(i, 0))
    for mut in range(0, job.muts):
        env = dict(os.environ, VP_REPLAY=f, VP_MUT=str(mut),
                   ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096" % (1 if job.leak else 0))
        rc, out, _ = run([exe], 20, env=env, mem=None)
        if rc == 9 or rc == 77 or (rc is not None and rc < 0) or "runtime error:" in out:
            return (f, mut, out), None
    return None, "counterexample did not reproduce natively (last: rc=%s %s)" % (rc, out[-200:])


def decide(b, job, gb, r, tmo, tier):
    stop = threading.Event()
    res = {}
    lock = threading.Lock()
    late = [s for s in job.late if s not in job.solvers]

    def one(s, delay=0):
        if delay and stop.wait(delay):
            return
        with SEM:
            if stop.is_set():
                return
            x = cbmc_once(job, gb, s, tmo, stop=stop)
        with lock:
            r.queries += 1
            if s in late and x[0] == "error":
                return
            res[s] = x
            if x[0] in ("success", "failure") or (s not in late and x[0] in ("error", "unwind")):
                stop.set()
    ts = [threading.Thread(target=one, args=(s,)) for s in job.solvers]
    # a second opinion once the first solver turns out to be slow
    ts += [threading.Thread(target=one, args=(s, min(25, tmo / 3))) for s in late]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for s in (*job.solvers, *late):
        if res.get(s, ("",))[0] in ("success", "failure"):
            return s, res[s]
    for s in job.fallback:
        if s not in job.solvers and remaining(tier) > 20 and not any(v[0] == "error" for v in res.values()):
            with SEM:
                x = cbmc_once(job, gb, s, min(tmo, remaining(tier)))
            r.queries += 1
            if x[0] in ("success", "failure"):
                return s, x
    for s in job.solvers:
        if s in res:
            return s, res[s]
    return None, ("error", [], 0, 1, "")


def run_job(b, prop, job, tier):
    r = Result(job)
    t = time.time()
    try:
        if job.src.endswith(".py"):
            m = importlib.import_module("harness." + job.src[:-3])
            m.run_job(b, prop, job, tier, r, sys.modules[__name__])
        else:
            _run_job(b, prop, job, tier, r)
    except Exception as e:      # machinery problem: never an alarm
        import traceback
        r.verdict, r.detail = "INCONCLUSIVE", "machinery: %s" % traceback.format_exc()[-800:]
    r.wall = time.time() - t
    if r.verdict == "VIOLATION" and not known_for(prop, r):
        FOUND.set() if not os.environ.get("VP_ALL") else None
    elif FOUND.is_set() and r.verdict in ("INCONCLUSIVE", "CANDIDATE"):
        r.verdict, r.detail = "SKIPPED", "not finished: another job had established a violation"
    return r


def known_for(prop, r):
    return [k for k in KNOWN if k[0] == prop and k[1] == r.job.name and re.search(k[2], r.desc + " " + r.detail)]


def remaining(tier):
    return GLOBAL_DEADLINE[tier] - (time.time() - T0)


def handle_failure(b, prop, job, r, res, s):
    st, fails, dt, k, txt = res
    for i, (p, d, vals) in enumerate(fails):
        rep, err = replay(b, job, vals, "%d" % i)
        r.cex = vals
        if rep:
            r.verdict, r.desc, r.replay = "VIOLATION", d, rep
            r.detail = rep[2][-1500:]
            return True
        r.detail = "[%s] %s; " % (d, err)
    r.verdict = "CANDIDATE"
    return False


def _run_job(b, prop, job, tier, r):
    tmo = job.timeout if tier == "quick" else (job.ttimeout or job.timeout * 3)
    tmo = min(tmo, max(5, remaining(tier)))
    gb, e = build_goto(b, job)
    if e:
        r.detail = e
        return
    rc, out, _ = run(["goto-instrument", "--reachable-call-graph", gb], 60)
    fn = set()
    for m in re.finditer(r"^\s*([A-Za-z_]\w*) -> ([A-Za-z_]\w*)", out, re.M):
        fn.update(m.groups())
    r.functions = sorted(x for x in fn if not x.startswith(("__CPROVER", "vp_", "nd_", "EVP_", "CRYPTO_", "_start")))
    wt = None
    if job.witness:
        wres = {}

        def wit():
            g, e2 = build_goto(b, job, ("-DVP_WITNESS_RUN",))
            if e2:
                wres["r"] = "build: " + e2
                return
            with SEM:
                x = cbmc_once(job, g, job.wsolver or job.solvers[0], tmo, witness=True)
            if x[0] == "failure":
                n = len(set(f[0] for f in x[1]))
                w, tot = n, len(re.findall(r'"description": "WITNESS', x[4]))
                st = [m for m in re.finditer(r'"description": "WITNESS[^"]*",', x[4])]
                wres["r"] = "reached"
                wres["n"] = n
                # any witness that did not fail is unreachable
                data = json.loads(x[4][x[4].find("["):])
                for el in data:
                    for rr in el.get("result", []):
                        if "WITNESS" in rr.get("description", "") and rr["status"] != "FAILURE":
                            wres["r"] = "UNREACHABLE " + rr["description"]
            elif x[0] == "success":
                wres["r"] = "UNREACHABLE"
            else:
                wres["r"] = x[0]
        wt = threading.Thread(target=wit)
    s, res = decide(b, job, gb, r, tmo, tier)
    r.solver, r.time, r.k = s, res[2], res[3]
    m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", res[4])
    if m:
        r.vccs = int(m.group(1))
    m = re.search(r"size of program expression: (\d+) steps", res[4])
    if m:
        r.steps = int(m.group(1))
    if res[0] == "success":
        r.verdict = "HOLDS"
    elif res[0] == "failure":
        if not handle_failure(b, prop, job, r, res, s) and not res[1][0][1].startswith("VP "):
            # a library/memory check that does not reproduce must not hide the
            # harness assertions: decide every property separately
            with SEM:
                res2 = cbmc_once(job, gb, s, min(tmo, remaining(tier)), allp=True)
            vp = [f for f in res2[1] if f[1].startswith("VP ")]
            if res2[0] == "failure" and vp:
                handle_failure(b, prop, job, r, (res2[0], vp[:4], *res2[2:]), s)
    else:
        r.detail = "%s %s" % (res[0], res[4][-300:] if res[0] == "error" else "")
    # narrowed re-runs: fewer symbolic data bytes, same control choices
    if r.verdict in ("INCONCLUSIVE", "CANDIDATE") and res[0] != "error":
        for nd in job.narrow:
            if remaining(tier) < 10:
                break
            ex = ("-DVP_NARROW=%d" % nd,) if isinstance(nd, int) else tuple(nd.split())
            g2, e = build_goto(b, job, ex)
            if e:
                continue
            s, res = decide(b, job, g2, r, min(tmo, remaining(tier)), tier)
            r.time += res[2]
            if res[0] == "success":
                r.narrow = nd
                if r.verdict == "INCONCLUSIVE":
                    r.verdict = "HOLDS-NARROWED"
                break
            if res[0] == "failure" and handle_failure(b, prop, job, r, res, s):
                r.narrow = nd
                break
    if wt and r.verdict.startswith("HOLDS") and remaining(tier) > 5:
        wt.start()
        wt.join()
        r.witness = wres.get("r")
        if (r.witness or "").startswith("UNREACHABLE"):
            r.verdict, r.detail = "INCONCLUSIVE", "vacuous: " + r.witness


def load_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"known: property=(\S+) job=(\S+) match=/(.*?)/ (.*)", l)
            if m:
                out.append(m.groups())
    return out


SEM = threading.Semaphore(NCPU)
KNOWN = []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    mod = importlib.import_module("reg." + prop)
    jobs = [j for j in mod.JOBS if (tier == "thorough" or j.tier == "quick") and (not only or re.search(only, j.name))]
    if tier == "quick":     # vacuity witness: once per harness (thorough: every obligation)
        seen = set()
        for j in jobs:
            k = j.wkey or j.src
            if k in seen:
                j.witness = False
            seen.add(k)
    d = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    TMP[0] = d
    KNOWN[:] = load_known()

    def term(*_):
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)
        os._exit(143)
    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    b = Build(d)
    results = []
    try:
        with ThreadPoolExecutor(max_workers=max(NCPU * 2, 8)) as ex:
            futs = [ex.submit(run_job, b, prop, j, tier) for j in jobs]
            for f in futs:
                results.append(f.result())
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        viol = []
        for r in results:
            if r.verdict == "VIOLATION":
                kf = known_for(prop, r)
                if kf:
                    r.verdict = "KNOWN"
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][3]))
                    continue
                dst = os.path.join(rdir, "%s_%s.txt" % (prop, r.job.name))
                shutil.copy(r.replay[0], dst) if r.replay[0] != dst else None
                with open(dst + ".log", "w") as h:
                    h.write("job %s\nassertion: %s\nVP_MUT=%d VP_REPLAY=%s\n%s\n" % (r.job.name, r.desc, r.replay[1], dst, r.replay[2]))
                viol.append((r, dst))
        level = getattr(mod, "LEVEL", "model_checking")
        write_evidence(prop, tier, level, mod, results, viol)
        for r in results:
            if verbose or r.verdict not in ("HOLDS",):
                print("  %-34s %-15s %-7s %6.1fs k=%d vcc=%d w=%s %s" % (r.job.name, r.verdict, r.solver, r.time, r.k, r.vccs, r.witness, (r.desc + " " + r.detail).replace("\n", " | ")[:(3000 if verbose else 300)]))
        for r, dst in viol:
            print("VIOLATION property=%s replay=%s  job=%s %s" % (prop, dst, r.job.name, r.desc))
        n = len(results)
        print("%s %s: %d/%d obligations hold, %d violations, %.1fs" % (prop, tier, sum(r.verdict.startswith("HOLDS") for r in results), n, len(viol), time.time() - T0))
        return 1 if viol else 0
    finally:
        if "--keep" in sys.argv:
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)


def write_evidence(prop, tier, level, mod, results, viol):
    fns = sorted(set(f for r in results for f in r.functions))
    assum = []
    for r in results:
        for a in r.job.assumptions:
            if a not in assum:
                assum.append(a)
    held = [r for r in results if r.verdict.startswith("HOLDS")]
    cov = {
        "explanation": "Bounded symbolic execution of the real functions (CBMC GOTO encoding regenerated from %s on this run); each obligation is decided by the named solver over all values of its symbolic inputs within the stated bounds. Obligations that are INCONCLUSIVE are not claimed." % REPO,
        "obligations": len(results),
        "discharged": len(held),
        "inconclusive": [dict(job=r.job.name, why=r.detail[:400]) for r in results if r.verdict in ("INCONCLUSIVE", "CANDIDATE")],
        "known_findings_seen": sum(r.verdict == "KNOWN" for r in results),
        "solver_queries": sum(r.queries for r in results),
        "solver_seconds": round(sum(r.time for r in results), 2),
        "verification_conditions": sum(r.vccs for r in results),
        "states": sum(r.steps for r in results),
        "transitions": sum(r.vccs for r in results),
        "traces_validated_against_impl": sum(1 for r in results if r.replay),
        "functions_encoded": fns,
        "jobs": [dict(job=r.job.name, verdict=r.verdict, solver=r.solver, seconds=round(r.time, 2), unwind=r.job.unwind * r.k if isinstance(r.job.unwind, int) else r.job.unwind,
                      vccs=r.vccs, ssa_steps=r.steps, vacuity_witness=r.witness, narrowed=r.narrow, bounds=r.job.bounds, detail=r.detail[:300] if not r.verdict == "HOLDS" else "") for r in results],
        "samples": [dict(job=r.job.name, bounds=r.job.bounds, verdict=r.verdict) for r in results[:5]],
        "checker_cmd": "cbmc --unwinding-assertions --slice-formula with " + ", ".join(sorted(set(str(r.solver) for r in results))),
        "trusted_base": ["CBMC 6.11 C front end and symbolic execution", "z3 4.8.12 / z3-new / CaDiCaL", "the models in /verif/vp", "the reference definitions in /verif/harness"],
    }
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              assumptions=assum, wall_s=round(time.time() - T0, 2), violations=len(viol))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    for p in list(_procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(rc)
