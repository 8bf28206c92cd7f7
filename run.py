#!/usr/bin/env python3
"""Driver of the checks.  usage: run.py PID | run.py --replay FILE | run.py --setup

Builds the library from /repo's current working tree in the variants the property needs, builds the exploring
harnesses against it, enumerates every case of every space of the property (in shards, in parallel), and reports.
Exit 0: held on everything explored.  1: VIOLATION line(s).  2: the check itself could not run.
"""
import sys, os, json, subprocess, hashlib, time, threading, queue, signal, shutil, re, mmap, struct
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RACRYPT_REPO", "/repo")
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import VARIANTS, HARNESS, CHECKS
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CASE_TIMEOUT = 60      # seconds without a new case before a shard is examined for a hang
ALONE_TIMEOUT = 150    # a case that hangs must also hang when it runs alone for that long


deadline = float("inf")     # a quick run answers with what it has by then


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(root, skip=()):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "msvc2022") and x not in skip)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def prune(keep_prefixless=24):
    try:
        ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
    except FileNotFoundError:
        return
    ents.sort(key=lambda p: os.stat(p).st_mtime, reverse=True)
    for p in ents[40:]:
        shutil.rmtree(p, ignore_errors=True)


def build_lib(variant, rh):
    v = VARIANTS[variant]
    hdr = json.dumps(v, sort_keys=True)
    key = hashlib.sha256((rh + hdr + REPO + harness_hash).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib = os.path.join(d, "libracrypt.a")
    if os.path.exists(os.path.join(d, ".done")):
        return d, lib
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flags = (v.get("common", "") + " " + v.get("lib", "")).replace("@V@", V).replace("@R@", REPO)
    env = dict(os.environ, **v.get("env", {}))
    extra = [x for x in v.get("extra", []) if os.path.exists(os.path.join(REPO, x))]
    if extra:
        flags += " " + v["extraflags"]
    cmd = ["cmake", "-G", "Ninja", "-S", REPO, "-B", d, "-DCMAKE_C_FLAGS=" + flags.strip()]
    cmd += [x.replace("@V@", V) for x in v.get("cmake", [])]
    r = sh(cmd, env=env)
    if r.returncode:
        raise CheckError("cmake failed for %s:\n%s" % (variant, r.stdout[-3000:]))
    r = sh(["ninja", "-C", d, "racrypt"], env=env)
    if r.returncode:
        raise CheckError("build failed for %s:\n%s" % (variant, r.stdout[-3000:]))
    for x in extra:     # sources the build does not list
        o = os.path.join(d, os.path.basename(x) + ".o")
        r = sh([v["cc"].replace("@V@", V)] + flags.split() + ["-I", os.path.join(REPO, "src/include"), "-c", os.path.join(REPO, x), "-o", o], env=env)
        if r.returncode == 0:
            r = sh(["ar", "r", lib, o])
        if r.returncode:
            raise CheckError("build failed for %s:\n%s" % (variant, r.stdout[-3000:]))
    open(os.path.join(d, ".done"), "w").close()
    return d, lib


def build_objs(variant, name, libdir):
    """compile the harness's own sources (does not need the library yet)"""
    v = VARIANTS[variant]; h = HARNESS[name]
    objs, procs = [], []
    hf = (v.get("common", "") + " " + v.get("harness", "")).replace("@V@", V).replace("@R@", REPO).split()
    for s in h["src"]:
        src = os.path.join(V, "harness", s)
        o = os.path.join(libdir, "h_" + os.path.basename(s).replace(".", "_") + ("_" + name if h.get("cflags") else "") + ".o")
        objs.append(o)
        cxx = s.endswith(".cpp")
        cmd = (["g++", "-std=c++17"] if cxx else ["gcc"]) + ["-O2", "-g1", "-w", "-c", src, "-o", o + ".tmp", "-I", os.path.join(REPO, "src/include"),
               "-I", os.path.join(V, "harness")] + h.get("cflags", []) + hf
        procs.append((o, cmd))
    return objs, procs


_compile_lock = {}
_cl = threading.Lock()


def compile_one(o, cmd):
    with _cl:
        lk = _compile_lock.setdefault(o, threading.Lock())
    with lk:
        if os.path.exists(o):
            return
        r = sh(cmd)
        if r.returncode:
            raise CheckError("harness compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.rename(o + ".tmp", o)


skipped = {}


def build_all(pairs, rh):
    """pairs: set of (variant, harness) -> {pair: exe}"""
    res, errs = {}, []
    skipped.clear()
    variants = sorted(set(v for v, _ in pairs))
    dirs = {}

    def lib_thread(v):
        try:
            dirs[v] = build_lib(v, rh)
        except CheckError as e:
            skipped[v] = str(e)
    ts = [threading.Thread(target=lib_thread, args=(v,)) for v in variants]
    [t.start() for t in ts]; [t.join() for t in ts]
    # a variant that does not build is left out, and said so; the shipped one has to
    if "ship" in skipped or len(skipped) == len(variants):
        raise CheckError("\n".join(skipped.values()))
    pairs = [p for p in pairs if p[0] not in skipped]
    jobs = {}
    objs = {}
    for v, hn in pairs:
        os_, procs = build_objs(v, hn, dirs[v][0])
        objs[(v, hn)] = os_
        for o, c in procs:
            jobs[o] = c
    def comp(o, c):
        try:
            compile_one(o, c)
        except CheckError as e:
            errs.append(str(e))
    ts = [threading.Thread(target=comp, args=(o, c)) for o, c in jobs.items()]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise CheckError("\n".join(errs))
    for v, hn in pairs:
        d, lib = dirs[v]
        exe = os.path.join(d, "x_" + hn)
        if not os.path.exists(exe):
            vv = VARIANTS[v]; h = HARNESS[hn]
            tmp = exe + ".tmp%d" % os.getpid()
            cmd = ["g++", "-g1"] + vv.get("link", "").split() + objs[(v, hn)] + [lib] + h.get("link", []) + ["-o", tmp, "-lpthread"]
            r = sh(cmd)
            if r.returncode:
                raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
            os.rename(tmp, exe)
        res[(v, hn)] = exe
    return res


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=1:detect_stack_use_after_return=0:symbolize=0",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")


def read_status(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16 + 64 + 448)
        beat, cas = struct.unpack("<QQ", b[:16])
        return beat, cas, b[16:80].split(b"\0")[0].decode(errors="replace"), b[80:].split(b"\0")[0].decode(errors="replace")
    except Exception:
        return 0, 0, "", ""


def sigdesc(rc, err):
    s = ""
    if rc < 0:
        try:
            s = "killed by " + signal.Signals(-rc).name
        except ValueError:
            s = "killed by signal %d" % -rc
    else:
        s = "exit status %d" % rc
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*)", err)
    if m:
        s += "; " + re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:300]
    return s


def run_proc(cmd, status, timeout_case, limit_mem, tmpdir):
    """run to completion; returns (rc, stdout, stderr, hung)"""
    so = os.path.join(tmpdir, "out-%s" % os.path.basename(status)); se = so + ".err"
    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_mem:
            resource.setrlimit(resource.RLIMIT_AS, (limit_mem, limit_mem))
    with open(so, "wb") as fo, open(se, "wb") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=ENV, cwd=tmpdir, preexec_fn=pre, stdin=subprocess.DEVNULL)
        last = (-1, -1); t0 = time.time(); hung = False; cpu0 = 0.0
        def cpu():
            try:
                f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                return (int(f[11]) + int(f[12])) / 100.0
            except Exception:
                return 0.0
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            b = read_status(status)[0]
            if b != last[0]:
                last = (b, time.time()); cpu0 = cpu()
            # a slow machine alone does not make a hang: either the case itself consumed the CPU time, or far more time passed
            elif (time.time() - last[1] > timeout_case and cpu() - cpu0 > timeout_case * 0.6) or time.time() - last[1] > 4 * timeout_case or time.time() > deadline:
                hung = True
                os.killpg(p.pid, signal.SIGKILL); p.wait(); break
    o = open(so, errors="replace").read(); e = open(se, errors="replace").read()[-20000:]
    os.unlink(so); os.unlink(se)
    return p.returncode, o, e, hung


def parse(out):
    evs = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                evs.append(json.loads(l))
            except ValueError:
                pass
    return evs


class Job:
    pass


def run_alone(exe, j, space, cas, tmpdir, tier):
    st = os.path.join(tmpdir, "alone-%d-%d" % (os.getpid(), threading.get_ident()))
    cmd = [exe, "--space", space, "--case", str(cas), "--status", st, "--tier", tier] + j["args"]
    rc, o, e, hung = run_proc(cmd, st, ALONE_TIMEOUT, VARIANTS[j["variant"]].get("mem", 12 << 30), tmpdir)
    evs = parse(o)
    s = read_status(st)
    try:
        os.unlink(st)
    except OSError:
        pass
    if hung and time.time() > deadline:
        return None
    if hung:
        return "does not terminate (case ran alone for %d s); %s" % (ALONE_TIMEOUT, s[3])
    for ev in evs:
        if ev["ev"] == "viol":
            return ev["msg"]
    if rc != 0 or not any(ev["ev"] == "end" for ev in evs):
        return "%s; %s" % (sigdesc(rc, e), s[3])
    return None


def dump_case(exe, j, space, cas, tmpdir, tier):
    st = os.path.join(tmpdir, "dump-%d-%d" % (os.getpid(), threading.get_ident()))
    cmd = [exe, "--space", space, "--case", str(cas), "--status", st, "--tier", tier, "--dump"] + j["args"]
    rc, o, e, hung = run_proc(cmd, st, ALONE_TIMEOUT, VARIANTS[j["variant"]].get("mem", 12 << 30), tmpdir)
    ev = [(x["what"], x["v"], x["h"]) for x in parse(o) if x["ev"] == "emit"]
    if rc or hung:
        ev.append(("end", sigdesc(rc, e), ""))
    return ev


def job_name(j):
    return " ".join([j["variant"]] + j["args"])


def compare_case(exes, a, b, space, cas, tmpdir, tier):
    """the first observation two builds disagree on, or None"""
    x = dump_case(exes[(a["variant"], a["harness"])], a, space, cas, tmpdir, tier)
    y = dump_case(exes[(b["variant"], b["harness"])], b, space, cas, tmpdir, tier)
    for i in range(max(len(x), len(y))):
        u = x[i] if i < len(x) else ("nothing more", "", "")
        v = y[i] if i < len(y) else ("nothing more", "", "")
        if u != v:
            return "observation %d (%s): build %s gives %s, build %s gives %s" % (i, u[0] if u[0] == v[0] else u[0] + "/" + v[0], job_name(a), u[1], job_name(b), v[1])
    return None


def compare_hashes(jobs, exes, tmpdir, tier, viols, errors):
    """every build must have observed in every case what the first build observed"""
    files = {}
    for f in os.listdir(tmpdir):
        m = re.match(r"hashes-(\d+)-(\d+)\.(.*)", f)
        if m:
            files[(int(m.group(1)), int(m.group(2)), m.group(3))] = os.path.join(tmpdir, f)
    n = 0; found = {}
    for (ji, s, sp), p in sorted(files.items()):
        if ji == 0:
            continue
        ref = files.get((0, s, sp))
        if not ref:
            errors.append("no reference observations for %s" % sp); continue
        x, y = open(ref, "rb").read(), open(p, "rb").read()
        n += min(len(x), len(y)) // 16
        if x == y:
            continue
        for o in range(0, min(len(x), len(y)), 16):
            if x[o:o + 16] != y[o:o + 16]:
                k = struct.unpack("<Q", y[o:o + 8])[0]
                l = found.setdefault((ji, sp), [])
                if len(l) < 3:
                    l.append(k)
        if len(x) != len(y):
            errors.append("builds ran different numbers of cases of %s" % sp)
    for (ji, sp), l in sorted(found.items()):
        for k in l[:1]:
            m = compare_case(exes, jobs[0], jobs[ji], sp, k, tmpdir, tier)
            viols.append((jobs[ji], sp, k, m or "builds %s and %s disagree in this case, reached after the cases before it" % (job_name(jobs[0]), job_name(jobs[ji]))))
    return n


def known_findings():
    """lines: 'finding: property=P space=S case=K variant=V <what fails>' (open) and 'fixed: ...' (suppress nothing)"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+space=(\S+)\s+case=(\S+)\s+variant=(\S+)\s+(.*)", l)
            if m:
                res.append(m.groups())
    return res


def main():
    global harness_hash, EVID
    args = sys.argv[1:]
    harness_hash = tree_hash(os.path.join(V, "harness")) + tree_hash(os.path.join(V, "tools/a64")) + tree_hash(os.path.join(V, "tools/masm"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if args and args[0] == "--setup":
        for t in ("gcc", "g++", "cmake", "ninja"):
            if not shutil.which(t):
                print("missing tool", t); return 2
        print("tools present"); return 0
    if args and args[0] == "--replay":
        replay = json.load(open(args[1])); pid = replay["property"]; tier = replay.get("tier", tier)
    else:
        pid = args[0]
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
    if pid not in CHECKS:
        print("unknown property", pid); return 2
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    chk = CHECKS[pid]
    jobs = [dict(j) for j in chk["jobs"] if tier == "thorough" or not j.get("thorough")]
    for j in jobs:
        j.setdefault("args", [])
    if "--variant" in args:     # development: these builds alone, evidence kept apart
        only = args[args.index("--variant") + 1].split(",")
        jobs = [j for i, j in enumerate(jobs) if j["variant"] in only or (chk.get("compare") and i == 0)]
        EVID = os.path.join(BUILD, "evidence"); os.makedirs(EVID, exist_ok=True)
    if replay:
        jobs = [j for j in [dict(j) for j in chk["jobs"]] if j["variant"] == replay["variant"] and j["harness"] == replay["harness"] and j["args"] == replay.get("args", [])][:1]
    rh = tree_hash(REPO)
    if "--list" in args:
        exes = build_all(set((j["variant"], j["harness"]) for j in jobs), rh)
        for j in jobs:
            print(j["variant"], j["harness"]); print(sh([exes[(j["variant"], j["harness"])], "--list", "--prop", pid, "--tier", tier]).stdout)
        return 0
    exes = build_all(set((j["variant"], j["harness"]) for j in jobs), rh)
    jobs = [j for j in jobs if j["variant"] not in skipped]
    for v in sorted(skipped):
        print("NOTE: variant %s does not build and is left out: %s" % (v, skipped[v][-400:]))
    tbuild = time.time() - t0
    tmpdir = os.path.join(BUILD, "tmp-%d" % os.getpid())
    os.makedirs(tmpdir, exist_ok=True)
    try:
        if replay:
            j = jobs[0]
            msg = None
            if chk.get("compare"):
                first = dict(chk["jobs"][0]); first.setdefault("args", [])
                exes.update(build_all({(first["variant"], first["harness"])}, rh))
                msg = compare_case(exes, first, j, replay["space"], replay["case"], tmpdir, tier)
            msg = msg or run_alone(exes[(j["variant"], j["harness"])], j, replay["space"], replay["case"], tmpdir, tier)
            if msg is None:
                print("replay: no violation"); return 0
            print("replay: " + msg); print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(args[1]))); return 1
        return explore(pid, chk, jobs, exes, tier, seed, tmpdir, t0, tbuild)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
        prune()


def explore(pid, chk, jobs, exes, tier, seed, tmpdir, t0, tbuild):
    global deadline
    if tier == "quick":
        deadline = t0 + 780
    tasks = queue.Queue()
    n = 0
    for ji, j in enumerate(jobs):
        k = j.get("shards", NPROC)
        for s in range(k):
            tasks.put((ji, s, k)); n += 1
    results, viols, errors, unfinished = [], [], [], []
    lock = threading.Lock()
    stop = threading.Event()

    def worker():
        while not stop.is_set():
            try:
                ji, s, k = tasks.get_nowait()
            except queue.Empty:
                return
            j = jobs[ji]; exe = exes[(j["variant"], j["harness"])]
            try:
                shard(ji, j, exe, s, k)
            except Exception as e:
                with lock:
                    errors.append("driver: %r" % (e,))

    slow = set()

    def shard(ji, j, exe, s, k):
        skip = []
        for attempt in range(6):
            tag = "%d-%d-%d" % (ji, s, attempt)
            st = os.path.join(tmpdir, "st-" + tag)
            cmd = [exe, "--prop", pid, "--tier", tier, "--shard", "%d/%d" % (s, k), "--status", st, "--states", os.path.join(tmpdir, "states-%d-%d" % (ji, s))] + j["args"]
            if skip:    # cases that end, but too late: the space is left for dead, the others are still explored
                a = j["args"]; given = [a[i + 1] for i, x in enumerate(a) if x == "--exclude"]
                cmd += ["--exclude", ",".join(given + skip)]
            if chk.get("compare"):
                cmd += ["--hashes", os.path.join(tmpdir, "hashes-%d-%d" % (ji, s))]
            mem = VARIANTS[j["variant"]].get("mem", 12 << 30)
            rc, o, e, hung = run_proc(cmd, st, CASE_TIMEOUT if not skip else CASE_TIMEOUT / 3, mem, tmpdir)
            evs = parse(o)
            _, cas, space, note = read_status(st)
            ended = any(ev["ev"] == "end" for ev in evs)
            if rc == 0 and ended and not hung:
                with lock:
                    results.append((ji, s, evs))
                    for ev in evs:
                        if ev["ev"] == "viol":
                            viols.append((j, ev["space"], ev["case"], ev["msg"]))
                return
            # crash or hang: reproduce the case alone
            for ev in evs:
                if ev["ev"] == "viol":
                    with lock:
                        viols.append((j, ev["space"], ev["case"], ev["msg"]))
            if time.time() > deadline:
                with lock:
                    unfinished.append("shard %s: out of time in space %s case %d" % (tag, space, cas)); results.append((ji, s, evs))
                return
            if space and not (hung and (ji, space) in slow):
                t1 = time.time()
                msg = run_alone(exe, j, space, cas, tmpdir, tier)
                if hung and msg is None and time.time() - t1 > CASE_TIMEOUT / 3:
                    with lock:
                        slow.add((ji, space))
                elif msg is None and chk.get("compare") and ji > 0:
                    msg = compare_case(exes, jobs[0], j, space, cas, tmpdir, tier)
                if msg is not None:
                    with lock:
                        viols.append((j, space, cas, msg)); results.append((ji, s, evs))
                    return
            if any(ev["ev"] == "viol" for ev in evs):
                with lock:
                    results.append((ji, s, evs))
                return
            what = ("no progress in space %s case %d" % (space, cas)) if hung else "%s in space %s case %d; %s" % (sigdesc(rc, e), space, cas, note)
            if hung and space and attempt < 5:
                skip.append(space)
                with lock:
                    unfinished.append("shard %s: %s" % (tag, what))
                continue
            if attempt >= 2:
                # the shard fails every time but the last case alone does not: the history before it matters
                with lock:
                    if hung:
                        errors.append("shard %s: %s" % (tag, what))
                    else:
                        viols.append((j, space, cas, "the shard's history of cases ends in: " + what)); results.append((ji, s, evs))
                return

    ths = [threading.Thread(target=worker) for _ in range(NPROC)]
    [t.start() for t in ths]; [t.join() for t in ths]

    ncmp = compare_hashes(jobs, exes, tmpdir, tier, viols, errors) if chk.get("compare") and not errors else 0
    errors += unfinished
    # merge
    spaces, samples = {}, []
    for ji, s, evs in results:
        j = jobs[ji]
        for ev in evs:
            if ev["ev"] == "space":
                d = spaces.setdefault((ji, ev["space"]), dict(total=ev["total"], cases=0, evals=0, nontriv=0, trans=0, traces=0, rule=ev["rule"], secs=0.0))
                for f in ("cases", "evals", "nontriv", "trans", "traces"):
                    d[f] += ev[f]
                d["secs"] += ev["secs"]
            elif ev["ev"] == "sample":
                samples.append("[%s] %s #%d: %s" % (j["variant"], ev["space"], ev["case"], ev["text"]))
    nstates = 0
    per = {}
    for f in os.listdir(tmpdir):
        m = re.match(r"states-(\d+)-\d+\.(.*)", f)
        if m:
            with open(os.path.join(tmpdir, f), "rb") as fh:
                b = fh.read()
            per.setdefault((int(m.group(1)), m.group(2)), set()).update(struct.unpack("<%dQ" % (len(b) // 8), b))
    for k, v in per.items():
        nstates += len(v)
        if k in spaces:
            spaces[k]["states"] = len(v)
    complete = all(d["cases"] == d["total"] for d in spaces.values())
    level = chk["level"]
    cov = {}
    tot = lambda f: sum(d.get(f, 0) for d in spaces.values())
    if level == "model_checking":
        cov.update(states=nstates, transitions=tot("trans"), traces_validated_against_impl=tot("traces"))
    cov.update(evaluations=tot("evals"), distinct_nontrivial=tot("nontriv"))
    cov["rule"] = chk["rule"]
    cov["samples"] = samples[:40] or ["none"]
    cov["exhaustive"] = complete
    if skipped:
        cov["variants_left_out"] = sorted(skipped)
    cov["spaces"] = [dict(variant=jobs[ji]["variant"], space=sp, cases=d["cases"], evaluations=d["evals"], nontrivial=d["nontriv"],
                          states=d.get("states", 0), transitions=d["trans"], rule=d["rule"]) for (ji, sp), d in sorted(spaces.items())]
    known = known_findings()
    if chk.get("compare"):
        cov["cases_compared_between_builds"] = ncmp
    newv, seenk, seenv = [], set(), set()
    for j, space, cas, msg in viols:
        hit = next((k for k in known if k[0] == pid and k[1] == space and k[2] == str(cas) and k[3] == j["variant"]), None)
        if hit:
            if hit not in seenk:
                seenk.add(hit); print("KNOWN-FINDING: property=%s %s" % (pid, hit[4]))
        elif (j["variant"], tuple(j["args"]), space, cas) not in seenv:
            seenv.add((j["variant"], tuple(j["args"]), space, cas)); newv.append((j, space, cas, msg))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(newv))
    with open(os.path.join(EVID, pid + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(EVID, pid + ".json.tmp"), os.path.join(EVID, pid + ".json"))
    slow = sorted(((d["secs"], jobs[ji]["variant"], sp) for (ji, sp), d in spaces.items()), reverse=True)[:6]
    print("%s %s: build %.1fs, total %.1fs, %d spaces, %d cases, %d evaluations, %d states%s" % (
        pid, tier, tbuild, time.time() - t0, len(spaces), tot("cases"), tot("evals"), nstates, "" if complete else " (incomplete)"))
    print("  slowest (cpu s): " + ", ".join("%s/%s %.1f" % (v, sp, s) for s, v, sp in slow))
    if newv:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        perspace, nshown = {}, 0
        for i, (j, space, cas, msg) in enumerate(newv):
            key = (j["variant"], space)
            perspace[key] = perspace.get(key, 0) + 1
            if perspace[key] > 3 or nshown >= 12:
                continue
            nshown += 1
            p = os.path.join(EVID, "replay", "%s-%d.json" % (pid, i))
            with open(p, "w") as f:
                json.dump(dict(property=pid, tier=tier, variant=j["variant"], harness=j["harness"], args=j["args"], space=space, case=cas, message=msg), f, indent=1)
            print("  [%s] %s case %d: %s" % (j["variant"], space, cas, msg))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR " + e)
        return 2
    if not spaces or tot("evals") == 0:
        print("ERROR nothing explored"); return 2
    if not complete:
        print("ERROR exploration incomplete"); return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR " + str(e)); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
