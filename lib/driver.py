import collections, concurrent.futures, fcntl, glob, hashlib, json, os, shutil
import signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")
JOBS = min(8, os.cpu_count() or 8)

CXX = "g++"
BASE = ["-std=c++14", "-DNDEBUG", "-w", "-I" + os.path.join(REPO, "src"),
        "-I/usr/include/eigen3"]
SAN = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer",
       "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"]


PYINC = "/usr/include/python3.12"
# the Python extension, compiled into the API harnesses
_EXT = dict(dir="macposts/_ext", cflags=["-I" + PYINC], libs=["-lpython3.12"])
EXT = {"api": _EXT, "eq": _EXT, "pub": _EXT, "mmapi": _EXT}


class BuildError(Exception):
    pass


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def run_cmd(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, errors="replace")
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def repo_headers():
    return glob.glob(os.path.join(REPO, "src", "*.h"))


def compile_many(jobs):
    """jobs: list of (source, object path, flags); objects are content-keyed."""
    todo = [j for j in jobs if not os.path.exists(j[1])]

    def one(j):
        src, obj, flags = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".tmp%d" % os.getpid() + os.path.basename(src) + ".o"
        run_cmd([CXX] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)

    # longest first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(one, j) for j in todo]:
            f.result()


def build_harness(name, variant="plain"):
    """returns the path of the harness executable, built from REPO's tree"""
    hdrs = repo_headers()
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    hk = digest(hdrs)
    flags = BASE + (["-O1", "-g1"] if variant == "plain" else ["-O1", "-g1"] + SAN)
    jobs, objs = [], []
    for s in srcs:
        # optimising the instrumented, huge multimodal.cpp takes minutes
        fl = flags
        if variant != "plain" and os.path.basename(s) == "multimodal.cpp":
            fl = BASE + ["-O0", "-g1"] + SAN
        o = os.path.join(BUILD, "o", digest([s], hk + " ".join(fl))
                         + "-" + os.path.basename(s) + ".o")
        jobs.append((s, o, fl))
        objs.append(o)
    ext = EXT.get(name)
    libs = []
    if ext:
        ed = os.path.join(REPO, ext["dir"])
        ek = digest(hdrs + glob.glob(os.path.join(ed, "*.h")))
        libs = ext["libs"]
        for s in sorted(glob.glob(os.path.join(ed, "*.cpp"))):
            if os.path.basename(s) == "mmdta.cpp" and variant != "plain":
                fl = (BASE + ["-O0", "-g1"] + SAN + ext["cflags"]
                      + ["-fvisibility=hidden"])
            else:
                fl = flags + ext["cflags"] + ["-fvisibility=hidden"]
            o = os.path.join(BUILD, "o", digest([s], ek + " ".join(fl))
                             + "-e-" + os.path.basename(s) + ".o")
            jobs.append((s, o, fl))
            objs.append(o)
    hh = glob.glob(os.path.join(HARN, "*.h"))
    hkey = digest(hdrs + hh)
    for s in (os.path.join(HARN, "mc.cpp"), os.path.join(HARN, name + ".cpp")):
        fl = flags + ["-fno-access-control"]
        if ext and not s.endswith("mc.cpp"):
            fl = fl + ext["cflags"]
        if variant != "plain":
            fl = fl + ["-DMC_NO_HEAP"]
        o = os.path.join(BUILD, "o", digest([s], hkey + " ".join(fl))
                         + "-h-" + os.path.basename(s) + ".o")
        jobs.append((s, o, fl))
        objs.append(o)
    exe = os.path.join(BUILD, "x", name + "-" + variant + "-"
                       + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        compile_many(jobs)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        run_cmd([CXX] + (SAN if variant != "plain" else []) + objs + libs
                + ["-o", tmp])
        os.replace(tmp, exe)
    prune()
    return exe


def prune(keep_bytes=1500 << 20):
    """the cache only exists for convenience; keep it small"""
    fs = []
    for d in ("o", "x"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for m, sz, f in sorted(fs):
        if tot <= keep_bytes:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= sz


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            return tempfile.mkdtemp(prefix="mcroot.", dir=d)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="mcroot.", dir=VERIF)


class Result:
    def __init__(self):
        self.violations = []
        self.sum = collections.Counter()
        self.counters = collections.Counter()
        self.states = 0
        self.outcomes = 0
        self.work = 0
        self.samples = []


def count_hashes(files):
    s = set()
    for f in files:
        n = os.path.getsize(f) // 8
        with open(f, "rb") as fh:
            s.update(struct.unpack("<%dQ" % n, fh.read(8 * n)))
    return len(s)


def env_for(variant, scratch):
    e = dict(os.environ)
    e["MC_SCRATCH"] = scratch
    e["VERIF_REPO"] = REPO
    e.pop("MALLOC_PERTURB_", None)
    if variant != "plain":
        e["ASAN_OPTIONS"] = ("detect_leaks=0:detect_container_overflow=0:"
                             "abort_on_error=1:alloc_dealloc_mismatch=1")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return e


def run_cpp(exe, variant, prop, tier, budget, scratch, res):
    out = os.path.join(scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", out + "/r", "--jobs",
           str(JOBS), "--budget", str(budget)]
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       env=env_for(variant, scratch), errors="replace")
    if r.returncode != 0:
        raise BuildError("explorer failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    nstat = 0
    for f in glob.glob(out + "/r.w*") + [out + "/r.parent"]:
        for line in open(f, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("v"):
                d["variant"] = variant
                res.violations.append(d)
            elif d.get("s"):
                nstat += 1
                for k in ("executions", "transitions", "checks", "nontrivial",
                          "capped"):
                    res.sum[k] += d[k]
                res.counters.update(d["counters"])
            elif d.get("p"):
                res.work += d["work"]
            elif d.get("sample"):
                res.samples.append(d["sample"])
    res.states += count_hashes(glob.glob(out + "/r.st*"))
    res.outcomes += count_hashes(glob.glob(out + "/r.oc*"))
    shutil.rmtree(out, ignore_errors=True)


def replay_cpp(exe, variant, prop, tier, v, scratch):
    """True if the violation reproduces"""
    try:
        r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--replay",
                            v["replay"]], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=env_for(variant, scratch),
                           timeout=150, errors="replace")
    except subprocess.TimeoutExpired:
        return True, "replay did not terminate"
    return r.returncode != 0 and r.returncode != 3, r.stderr[-3000:]


def main(argv):
    import props
    if len(argv) >= 2 and argv[0] == "replay":
        return do_replay(argv[1])
    if len(argv) != 2 or argv[0] not in props.PROPS or argv[1] not in ("quick",
                                                                       "thorough"):
        print("usage: check <property> quick|thorough | check replay <file>")
        return 2
    pid, tier = argv
    t0 = time.time()
    spec = props.PROPS[pid]
    scratch = scratch_root()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    try:
        return check(pid, tier, spec, scratch, t0)
    except BuildError as e:
        print("ERROR: cannot decide %s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def matches(k, pid, v):
    return (k["property"] == pid and k.get("family") in (None, v["family"])
            and k["kind"] == v["kind"]
            and all(c in v["describe"] for c in k.get("describe_contains", []))
            and all(c in v["msg"] for c in k.get("msg_contains", [])))


def check(pid, tier, spec, scratch, t0):
    import props
    res = Result()
    total = 200.0 if tier == "quick" else 780.0
    exes = {}
    parts = spec["parts"]
    for i, part in enumerate(parts):
        if part["kind"] == "cpp":
            variant = part.get("variant", "plain")
            exes[i] = build_harness(part["harness"], variant)
        elif part["kind"] == "py":
            import pyharness
            exes[i] = pyharness.build(part)
    tb = time.time()
    for i, part in enumerate(parts):
        left = max(20.0, total - (time.time() - (tb if tier == "quick" else t0)))
        share = left / (len(parts) - i)
        nv = len(res.violations)
        if part["kind"] == "cpp":
            run_cpp(exes[i], part.get("variant", "plain"), part.get("prop", pid),
                    tier, share, scratch, res)
        else:
            import pyharness
            pyharness.run(exes[i], part, pid, tier, share, scratch, res)
        for v in res.violations[nv:]:
            v["part"] = i
    # ---- classify
    kf = [k for k in known_findings() if k["property"] == pid]
    known, fresh = collections.OrderedDict(), []
    for v in sorted(res.violations, key=lambda v: (len(v["replay"]), v["replay"])):
        for k in kf:
            if matches(k, pid, v):
                known.setdefault(k["id"], (k, v))
                break
        else:
            fresh.append(v)
    confirmed = None
    unconfirmed = 0
    for v in fresh[:6]:
        part = parts[v["part"]]
        if part["kind"] == "cpp":
            ok, log = replay_cpp(exes[v["part"]], part.get("variant", "plain"),
                                 part.get("prop", pid), tier, v, scratch)
        else:
            import pyharness
            ok, log = pyharness.replay(exes[v["part"]], part, pid, tier, v, scratch)
        if ok:
            confirmed = (v, log)
            break
        unconfirmed += 1
    if fresh and not confirmed:
        # it failed during the exploration but not alone: state carried over
        # between executions in one process; report it, the exploration is the
        # witness
        confirmed = (fresh[0], "reproduces only within the exploration")
    # ---- evidence
    ded = int(res.counters.get("deadline_hit", 0) + res.counters.get("deadline_cases", 0))
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": res.states, "transitions": int(res.sum["transitions"]),
            "traces_validated_against_impl": int(res.sum["executions"]),
            "executions": int(res.sum["executions"]),
            "cases": int(res.work),
            "distinct_outcomes": res.outcomes,
            "oracle_checks": int(res.sum["checks"]),
            "nontrivial_checks": int(res.sum["nontrivial"]),
            "exhaustive": ded == 0 and not fresh,
            "stopped_by_time_budget": ded,
            "beyond_position_cap": int(res.sum["capped"]),
            "bounds": spec["bounds"],
            "binding": "the real code is executed; every execution is a trace "
                       "of the implementation itself, judged by an oracle "
                       "computed from the input",
            "counters": {k: int(v) for k, v in sorted(res.counters.items())},
            "samples": (res.samples[:6] or [spec.get("sample", "see bounds")]),
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(fresh),
        "known_findings": list(known),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb - t0, 2),
    }
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k, (ent, v) in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, ent["what"]))
    print("%s %s: %d executions, %d states, %d transitions, %d oracle checks, "
          "%.1f s%s" % (pid, tier, res.sum["executions"], res.states,
                        res.sum["transitions"], res.sum["checks"],
                        time.time() - t0, "" if ded == 0 else
                        " (stopped by the time budget)"))
    if not confirmed:
        if res.sum["executions"] == 0:
            print("ERROR: nothing was explored")
            return 2
        return 0
    v, log = confirmed
    rd = os.path.join(EVID, "replays")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(
        (v["replay"] + v["kind"]).encode()).hexdigest()[:10]))
    with open(rp, "w") as f:
        json.dump({"property": pid, "tier": tier, "part": v["part"],
                   "violation": v, "log": log,
                   "how": "bin/check replay " + rp}, f, indent=1)
    print("  [%s] %s: %s" % (v["kind"], v["describe"], v["msg"]))
    print("  %d further reports" % (len(fresh) - 1))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def do_replay(path):
    import props
    d = json.load(open(path))
    part = props.PROPS[d["property"]]["parts"][d["part"]]
    scratch = scratch_root()
    try:
        if part["kind"] == "cpp":
            exe = build_harness(part["harness"], part.get("variant", "plain"))
            ok, log = replay_cpp(exe, part.get("variant", "plain"),
                                 part.get("prop", d["property"]), d["tier"],
                                 d["violation"], scratch)
        else:
            import pyharness
            exe = pyharness.build(part)
            ok, log = pyharness.replay(exe, part, d["property"], d["tier"],
                                       d["violation"], scratch)
        print(log)
        print("reproduced" if ok else "did not reproduce")
        return 1 if ok else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
