#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | build [<property>...] | replay <file>

Builds the harness against /repo's working tree, searches for a violation of one property with
generated cases (thorough: more of them, plus a coverage-guided campaign), writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: a line "VIOLATION property=<id> replay=<path>".
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VP_OUT", VERIF)
REPLAYS = os.path.join(OUT, "replays")
WORKERS = int(os.environ.get("VP_WORKERS", "8"))
SAN = ("-fsanitize=address,bounds,null,integer-divide-by-zero,unreachable,return "
       "-fno-sanitize-recover=all -fno-sanitize-address-use-after-scope").split()
CFLAGS = ["-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-I" + REPO + "/inc"]
# libc functions of the library objects that are replaced by the stand-ins of harness/wrap.cpp
WRAP = ("exit _exit _Exit quick_exit abort __assert_fail malloc calloc realloc reallocarray free time clock_gettime gettimeofday timespec_get "
        "unlink rmdir remove mkdir rename unlinkat mkdirat renameat truncate chmod system kill "
        "fopen freopen open creat fread readlink "
        "socket setsockopt bind listen connect accept poll").split()
UNITS = {   # property -> translation units of the harness
    "C01": ["seq"], "C02": ["seq"], "C07": ["seq"], "C06": ["span"], "C11": ["span"], "C10": ["bounds"],
    "C03": ["str"], "C04": ["text"], "C05": ["text"],
    "C08": ["alloc"], "C27": ["alloc"],
    "C12": ["num"], "C22": ["num"], "C23": ["num"], "C24": ["num"], "C25": ["num"],
    "C13": ["time"], "C14": ["time"], "C15": ["time"],
    "C16": ["argopt"], "C17": ["file"], "C18": ["path"], "C19": ["path"],
    "C20": ["log"], "C21": ["log"], "C26": ["sock"],
    "C09": ["memory"], "C28": ["memory"],
}
EXHAUSTIVE = set()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def compile_one(src, flags, cxx, rename, extra=""):
    """compile src to a cached object named by its preprocessed text and flags"""
    cc = ["clang++", "-std=c++17"] if cxx else ["clang", "-std=gnu11"]
    pre = subprocess.run(cc + flags + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError("%s: %s" % (src, pre.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256()
    for part in (pre.stdout, " ".join(cc + flags).encode(), b"R" if rename else b"", " ".join(WRAP).encode(), extra.encode()):
        h.update(part); h.update(b"\0")
    out = os.path.join(BUILD, "o", h.hexdigest()[:32] + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(cc + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("%s: %s" % (src, r.stdout[-3000:]))
        if rename:
            r = sh(["objcopy"] + [a for w in WRAP for a in ("--redefine-sym", "%s=vp_%s" % (w, w))] + [tmp])
            if r.returncode:
                raise BuildError("objcopy: " + r.stdout[-2000:])
        os.replace(tmp, out)
    return out

def lib_sources():
    return sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))

def build(units, fuzz=False):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    fz = ["-fsanitize=fuzzer-no-link"] if fuzz else []
    jobs = [(os.path.join(H, "p_%s.cpp" % u), CFLAGS + SAN + (["-DVP_FUZZ"] if fuzz else []), True, False) for u in units]
    jobs += [(os.path.join(H, n + ".cpp"), CFLAGS + SAN + (["-DVP_FUZZ"] if fuzz else []), True, False) for n in ("driver", "wrap")]
    jobs += [(s, CFLAGS + ["-fexceptions"] + SAN + fz, False, True) for s in lib_sources()]
    with cf.ThreadPoolExecutor(max(WORKERS, 4)) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    h = hashlib.sha256(("%s %s" % (fuzz, " ".join(objs))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "x-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        link = ["clang++"] + SAN + (["-fsanitize=fuzzer"] if fuzz else []) + objs + ["-o", tmp, "-lm", "-lpthread"]
        r = sh(link)
        if r.returncode:
            raise BuildError("link: " + r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe

def env_for(scratch, seed):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "VP_"))}
    e.update({"VERIF_SEED": str(seed), "VP_SCRATCH": scratch, "VP_WORKERS": str(WORKERS), "VP_PCT": os.environ.get("VP_PCT", "100"), "VP_SHRINK": os.environ.get("VP_SHRINK", "25"), "TZ": "UTC", "LC_ALL": "C", "HOME": "/home/vp-home",
              "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=3500:"
                              "quarantine_size_mb=16:handle_abort=0:print_legend=0:symbolize=1:detect_stack_use_after_return=0:exitcode=99",
              "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98"})
    return e

def fuzz_campaign(pid, units, seed, scratch, secs, replay):
    """coverage-guided search over the same choice sequences; returns (stats, failed)"""
    exe = build(units, fuzz=True)
    drv = build(units)
    procs, stats = [], {"runs": 0, "features": 0, "secs": secs, "workers": WORKERS}
    for w in range(WORKERS):
        d = os.path.join(scratch, "fz%d" % w)
        os.makedirs(os.path.join(d, "corpus")); os.chmod(d, 0o777)
        e = env_for(d, seed); e["VP_PROP"] = pid
        if "hard_rss_limit_mb" in e["ASAN_OPTIONS"]:
            e["ASAN_OPTIONS"] = re.sub(r"hard_rss_limit_mb=\d+:", "", e["ASAN_OPTIONS"]) + ":abort_on_error=0"
        cmd = [exe, os.path.join(d, "corpus"), "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % secs, "-max_len=4096",
               "-len_control=20", "-timeout=60", "-rss_limit_mb=3500", "-artifact_prefix=%s/" % d, "-print_final_stats=1", "-verbosity=1", "-close_fd_mask=0"]
        log = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=d, start_new_session=True)))
    deadline = time.time() + secs + 90
    for d, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
    failed, out = False, ""
    for d, p in procs:
        txt = open(os.path.join(d, "log"), errors="replace").read()
        if os.environ.get("VP_FUZZ_LOG"):
            print(d, p.returncode, txt[-1500:], os.listdir(d))
        if p.returncode != 0 and not glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*"):
            stats["ended_early"] = stats.get("ended_early", 0) + 1
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", txt)
        n = re.findall(r"^#(\d+)", txt, re.M)
        stats["runs"] += int(m[-1]) if m else (int(n[-1]) if n else 0)
        ft = re.findall(r"ft: (\d+)", txt)
        stats["features"] = max(stats["features"], int(ft[-1]) if ft else 0)
        for a in sorted(glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*")):
            if failed:
                break
            r = subprocess.run([drv, pid, "bytes", a, replay], env=env_for(scratch, seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                failed, out = True, r.stdout
            else:
                stats["unconfirmed"] = stats.get("unconfirmed", 0) + 1
    return stats, failed, out

def make_scratch(pid):
    for d in ("/dev/shm", "/tmp"):          # memory-backed if there is room
        try:
            st = os.statvfs(d)
            if d == "/tmp" or (os.access(d, os.W_OK | os.X_OK) and st.f_bavail * st.f_frsize > (1 << 30) // 4):
                return tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="vp-%s-" % pid)

def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay = os.path.join(REPLAYS, "%s-%d.txt" % (pid, seed))
    if os.path.exists(replay):
        os.unlink(replay)
    units = UNITS[pid]
    exe = build(units)
    scratch = make_scratch(pid)
    os.chmod(scratch, 0o777)
    fuzz = None
    try:
        out = os.path.join(scratch, "out.json")
        p = subprocess.Popen([exe, pid, "run", "0" if tier == "quick" else "-1", out, replay, "420" if tier == "quick" else "450"],
                             env=env_for(scratch, seed), cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        txt, _ = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        sys.stdout.write(txt[-6000:])
        if p.returncode not in (0, 1):
            print("driver ended with %d" % p.returncode)
            return 2
        cov = json.load(open(out))
        rc = p.returncode
        if rc == 0 and tier == "thorough" and not cov.get("nofuzz"):
            fuzz, bad, ftxt = fuzz_campaign(pid, units, seed, scratch, int(os.environ.get("VP_FUZZ_SECS", "240")), replay)
            if bad:
                rc = 1; sys.stdout.write(ftxt[-6000:])
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    man = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    level = man.get(pid, {}).get("level", "exploration")
    known = cov.pop("known")
    coverage = {"evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct_nontrivial"], "rule": cov["rule"], "samples": cov["samples"],
                "classes": cov["labels"], "planned": cov["planned"], "search_s": cov["search_s"], "unconfirmed_failures": cov["unconfirmed"]}
    if fuzz:
        coverage["coverage_guided"] = fuzz
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "wall_s": round(time.time() - t0, 2), "violations": rc,
          "assumptions": ["the library is built from /repo's working tree with clang 18, -O1, address and undefined-behaviour sanitizers, assertions on",
                          "process ends, allocations, the clock and destructive file calls of the library go through stand-ins (harness/wrap.cpp)"]}
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if rc:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    return rc

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    try:
        if a[0] == "build":
            for u in sorted({tuple(UNITS[p]) for p in (a[1:] or UNITS)}):
                build(list(u)); print("built", " ".join(u))
            return 0
        if a[0] == "replay":
            pid = open(a[1]).read().split()[1]
            exe = build(UNITS[pid]); scratch = make_scratch(pid); os.chmod(scratch, 0o777)
            try:
                return subprocess.run([exe, pid, "replay", os.path.abspath(a[1])], env=env_for(scratch, 1)).returncode
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except BuildError as e:
        print("build failed:", e)
        return 2

sys.exit(main())
