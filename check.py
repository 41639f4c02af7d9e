#!/usr/bin/env python3
"""Decides one property of h264nal by generated-input search.

  check.py run PROP       build from /repo's working tree, run the property's
                          generators, write evidence/PROP.json
  check.py replay FILE    re-run one recorded failing case
  check.py build          build everything (setup)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough),
VERIF_REPO (default /repo), VERIF_JOBS, VERIF_SCALE (multiplies case counts).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SMALLDEF = ["-DSMALL_FOOTPRINT", "-DNDEBUG"]   # as released: assertions compiled out
FULL = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]
LIBFLAGS = ["-g1", "-O1", "-std=c++14", "-ftrivial-auto-var-init=pattern"]

# property -> harness sources (besides main.cc)
SOURCES = {
    "C01": ["props_robust.cc"],
    "C02": ["props_core.cc", "props_framing.cc"], "C03": ["props_core.cc"], "C04": ["props_core.cc"],
    "C05": ["props_decode.cc"], "C06": ["props_core.cc"], "C07": ["props_decode.cc"],
    "C08": ["props_decode.cc"], "C09": ["props_decode.cc"], "C10": ["props_reject.cc"],
    "C11": ["props_history.cc"], "C12": ["props_framing.cc"], "C13": ["props_framing.cc"],
    "C14": ["props_dump.cc"], "C15": ["props_tool.cc"], "C16": ["props_history.cc", "props_threads.cc", "props_tool.cc"],
    "C17": ["props_framing.cc"], "C18": ["props_history.cc", "props_threads.cc"], "C19": ["props_tool.cc"],
    "C20": ["props_core.cc"], "C21": ["props_reject.cc"], "C22": ["props_summary.cc"], "C23": ["props_dpb.cc"],
    "C24": ["props_small.cc", "props_history.cc", "props_decode.cc", "props_reject.cc", "props_core.cc", "props_framing.cc"],
}
TSAN = {"C18"}
NEEDS_TOOL = {"C15", "C16", "C19", "C22", "C23", "C24"}
SMALL = {"C24"}   # decided on the project's small footprint build: no dump, no messages, no RTP
# property -> (mode, quick runs per process, quick seconds, thorough seconds) of the
# coverage-guided part
FUZZ = {"C01": ("robust", 60000, 40, 420), "C11": ("diff", 40000, 30, 300)}
BUDGET = {"quick": 200, "thorough": 800}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def project_version():
    m = re.search(r"project\s*\(\s*(\w+)\s+VERSION\s+([0-9.]+)", read(os.path.join(REPO, "CMakeLists.txt")).decode())
    return (m.group(1), m.group(2)) if m else ("h264nal", "0.0")


def write_config(d):
    """config.h, as the project's own build generates it from src/config.h.in"""
    name, ver = project_version()
    v = (ver.split(".") + ["", "", ""])[:3]
    sub = {"PROJECT_NAME": name, "PROJECT_VERSION": ver, "PROJECT_VERSION_MAJOR": v[0],
           "PROJECT_VERSION_MINOR": v[1], "PROJECT_VERSION_PATCH": v[2]}
    t = read(os.path.join(REPO, "src", "config.h.in")).decode()
    t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), t)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or read(p).decode() != t:
        with open(p, "w") as f:
            f.write(t)


def headers(*dirs):
    out = []
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(d, "*.h"))):
            out.append(read(p))
    return sha(*out)


def compile_all(jobs):
    """jobs: list of (source, flags, header-key); returns the object paths.
    Objects are cached by content, so nothing stale is ever linked."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def one(job):
        src, flags, hkey = job
        o = os.path.join(BUILD, "obj", os.path.basename(src) + "." + sha(src, read(src), " ".join(flags), hkey) + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            run(["clang++"] + flags + ["-c", src, "-o", tmp])
            os.replace(tmp, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, jobs))


def link(objs, out, flags):
    key = sha(*objs, " ".join(flags))
    if os.path.exists(out) and os.path.exists(out + ".key") and read(out + ".key").decode() == key:
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    run(["clang++"] + flags + objs + ["-o", tmp])
    os.replace(tmp, out)
    with open(out + ".key", "w") as f:
        f.write(key)
    return out


def lib_sources(small=False):
    s = sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))
    if small:
        s = [p for p in s if not os.path.basename(p).startswith("h264_rtp")]
    if not s:
        raise BuildError("no sources in " + REPO)
    return s


def inc():
    cfg = os.path.join(BUILD, "gen")
    write_config(cfg)
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + cfg]


def defines(prop):
    return SMALLDEF if prop in SMALL else FULL


def lib_jobs(flags):
    i = inc()
    k = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(BUILD, "gen"))
    return [(s, flags + i, k) for s in lib_sources("-DSMALL_FOOTPRINT" in flags)]


def build_pbt(prop):
    hk = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS)
    hf = ["-g1", "-O1", "-std=c++17"] + SAN + defines(prop) + inc() + ["-I" + HARNESS]
    srcs = ["main.cc"] + SOURCES[prop]
    objs = compile_all(lib_jobs(LIBFLAGS + SAN + defines(prop)) + [(os.path.join(HARNESS, s), hf, hk) for s in srcs])
    return link(objs, os.path.join(BUILD, "pbt-" + "-".join(s[:-3] for s in SOURCES[prop])), SAN)


def build_tsan():
    """the concurrency part of C18 under ThreadSanitizer"""
    san = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
    hk = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS)
    hf = ["-g1", "-O1", "-std=c++17", "-DPBT_TSAN"] + san + FULL + inc() + ["-I" + HARNESS]
    objs = compile_all(lib_jobs(LIBFLAGS + san + FULL) + [(os.path.join(HARNESS, s), hf, hk) for s in ("main.cc", "props_threads.cc")])
    return link(objs, os.path.join(BUILD, "pbt-tsan"), san + ["-lpthread"])


def build_tool(prop=None):
    i = inc()
    k = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(BUILD, "gen"))
    f = LIBFLAGS + SAN + defines(prop)
    objs = compile_all(lib_jobs(f) + [(os.path.join(REPO, "tools", "h264nal.cc"), f + i, k)])
    return link(objs, os.path.join(BUILD, "h264nal-small" if prop in SMALL else "h264nal"), SAN)


def build_fuzz():
    san = ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    hk = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS)
    # the harness itself is not instrumented for coverage: only the library guides the search
    hf = ["-g1", "-O1", "-std=c++17"] + SAN + FULL + inc() + ["-I" + HARNESS]
    objs = compile_all(lib_jobs(LIBFLAGS + san + FULL) + [(os.path.join(HARNESS, "fuzz_target.cc"), hf, hk)])
    return link(objs, os.path.join(BUILD, "fuzz"), ["-fsanitize=fuzzer,address,undefined"])


def run_fuzz(prop, tier, seed, scale, out):
    """libFuzzer in NCPU processes; returns (sub-result for the evidence, violations)"""
    mode, runs, qs, ts = FUZZ[prop]
    t0 = time.time()
    exe = build_fuzz()
    env = dict(os.environ, FUZZ_MODE=mode, PBT_REPO=REPO)
    secs = qs if tier == "quick" else ts
    runs = int(runs * float(scale)) if tier == "quick" else -1
    seeds = os.path.join(out, "seeds")
    os.makedirs(seeds)
    subprocess.run([exe], env=dict(env, FUZZ_SEEDS=seeds), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    procs = []
    for i in range(NCPU):
        c, a = os.path.join(out, "corpus%d" % i), os.path.join(out, "art%d-" % i)
        os.makedirs(c)
        log = open(os.path.join(out, "fuzz%d.log" % i), "w")
        procs.append((subprocess.Popen([exe, "-seed=%d" % (seed * 1000 + i + 1), "-runs=%d" % runs, "-max_total_time=%d" % secs, "-max_len=4096",
                      "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + a, "-use_value_profile=%d" % (i % 2), c, seeds],
                      env=env, stdout=log, stderr=subprocess.STDOUT), log, a))
    cases, cov, viol = 0, 0, []
    for i, (p, log, a) in enumerate(procs):
        p.wait()
        log.close()
        txt = read(log.name).decode(errors="replace")
        m = re.search(r"number_of_executed_units:\s*(\d+)", txt)
        cases += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+)", txt)
        cov = max(cov, int(m[-1]) if m else 0)
        arts = [f for f in glob.glob(a + "*") if "slow-unit" not in f]
        if p.returncode != 0 and not arts:
            raise BuildError("fuzzer ended with status %d and no input:\n%s" % (p.returncode, txt[-3000:]))
        viol += [(f, txt) for f in arts]
    msgs = []
    for n, (f, txt) in enumerate(viol[:2]):
        keep = os.path.join(BUILD, "replay")
        os.makedirs(keep, exist_ok=True)
        best = f
        mn = os.path.join(out, "min%d" % n)
        subprocess.run([exe, "-minimize_crash=1", "-max_total_time=30", "-exact_artifact_path=" + mn, f], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for cand in (mn, f):
            if os.path.exists(cand):
                r = subprocess.run([exe, cand], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    best = cand
                    txt = r.stdout.decode(errors="replace")
                    break
        else:
            raise BuildError("fuzzer input does not fail again: " + f)
        dst = os.path.join(keep, "%s-fuzz-%d-%d.bin" % (prop, seed, n))
        shutil.copyfile(best, dst)
        why = [l for l in txt.splitlines() if "ORACLE:" in l or "ERROR:" in l or "runtime error" in l][:3]
        print("FAILURE %s/fuzz: %s" % (prop, " | ".join(why)))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        msgs.append(why)
    kept = sum(len(os.listdir(os.path.join(out, "corpus%d" % i))) for i in range(NCPU))
    samples = []
    for f in sorted(glob.glob(os.path.join(out, "corpus0", "*")))[:3]:
        samples.append(read(f)[:120].hex())
    print("SUB %s/fuzz cases=%d kept=%d coverage=%d wall=%.1f failures=%d" % (prop, cases, kept, cov, time.time() - t0, len(viol)))
    return {"sub": "fuzz", "evaluations": cases, "distinct_nontrivial": kept, "rule": "libFuzzer, mode %s, structure-aware mutator; non-trivial and distinct: inputs that reached new code edges or counters and were kept" % mode,
            "wall_s": round(time.time() - t0, 2), "failures": len(viol), "labels": {"code edges covered": cov}, "samples": samples}, len(msgs)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == prop]


def do_run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop in SMALL:
        # a tree whose full build works must also build in the small configuration
        try:
            build_tool()
            try:
                build_tool(prop)
            except BuildError as e:
                log = os.path.join(BUILD, "replay", prop + "-build.log")
                os.makedirs(os.path.dirname(log), exist_ok=True)
                with open(log, "w") as f:
                    f.write(str(e) + "\n")
                print(e)
                print("FAILURE %s/build: the small footprint configuration does not build" % prop)
                print("VIOLATION property=%s replay=%s" % (prop, log))
                return 1
        except BuildError as e:
            print(e)
            print("ERROR: cannot build the tree under test")
            return 3
    try:
        exe = build_pbt(prop)
        env = dict(os.environ, PBT_REPO=REPO, PBT_BUDGET_S=str(BUDGET[tier]), PBT_PYTHON=sys.executable)
        if prop in NEEDS_TOOL:
            env["PBT_TOOL"] = build_tool(prop)
    except BuildError as e:
        print(e)
        print("ERROR: cannot build the tree under test")
        return 3
    tb = time.time() - t0
    out = os.path.join(BUILD, "out-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    scale = os.environ.get("VERIF_SCALE", "1")
    r = subprocess.run([exe, "run", prop, tier, str(seed), str(NCPU), out, scale], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    rj = os.path.join(out, prop + ".result.json")
    if not os.path.exists(rj):
        print("ERROR: no result (exit %d)" % r.returncode)
        return 3
    res = json.load(open(rj))
    rc = r.returncode
    if prop in TSAN and rc == 0:
        try:
            texe = build_tsan()
        except BuildError as e:
            print(e)
            return 3
        tout = out + "-tsan"
        shutil.rmtree(tout, ignore_errors=True)
        os.makedirs(tout)
        r = subprocess.run([texe, "run", prop, tier, str(seed), str(NCPU), tout, scale], env=dict(env, PBT_BUDGET_S=str(BUDGET[tier] / 2)), stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        tj = os.path.join(tout, prop + ".result.json")
        if not os.path.exists(tj):
            print("ERROR: no result from the ThreadSanitizer build (exit %d)" % r.returncode)
            return 3
        tres = json.load(open(tj))
        shutil.rmtree(tout, ignore_errors=True)
        res["subs"] += tres["subs"]
        res["violations"] += tres["violations"]
        rc = r.returncode
    if prop in FUZZ and rc == 0:
        try:
            sub, nv = run_fuzz(prop, tier, seed, scale, out)
        except BuildError as e:
            print(e)
            return 3
        res["subs"].append(sub)
        res["violations"] += nv
        rc = 1 if nv else rc
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": man.get(prop, {}).get("level", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in res["subs"]),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in res["subs"]),
            "rule": " || ".join("%s: %s" % (s["sub"], s["rule"]) for s in res["subs"]),
            "samples": [{"sub": s["sub"], "case": x} for s in res["subs"] for x in s["samples"][:3]],
            "by_sub": [{k: s[k] for k in ("sub", "evaluations", "distinct_nontrivial", "wall_s", "failures")} for s in res["subs"]],
            "classes": {s["sub"]: s["labels"] for s in res["subs"]},
        },
        "assumptions": [
            "tree built with clang 18, AddressSanitizer and UndefinedBehaviorSanitizer, " + ("SMALL_FOOTPRINT configuration" if prop in SMALL else "FDUMP/RTP/FPRINT defines on"),
            "oracle: reference walkers in harness/model.h, written from the H.264 syntax tables",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": res["violations"],
    }
    ev["coverage"]["build_s"] = round(tb, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    if rc == 0:
        seen = {l for s in res["subs"] for l in s["labels"]}
        for k in known_findings(prop):
            if k["label"] not in seen:
                continue  # not met, or repaired
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("OK property=%s cases=%d nontrivial=%d wall=%.1fs" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return rc if rc in (0, 1) else 3


def main():
    a = sys.argv[1:]
    if a[:1] == ["run"] and len(a) == 2 and a[1] in SOURCES:
        return do_run(a[1])
    if a[:1] == ["build"]:
        try:
            for p in sorted(SOURCES):
                if not all(os.path.exists(os.path.join(HARNESS, s)) for s in SOURCES[p]):
                    continue
                build_pbt(p)
            build_tool()
            build_tool("C24")
            build_tsan()
            build_fuzz()
        except BuildError as e:
            print(e)
            return 3
        return 0
    if a[:1] == ["replay"] and len(a) == 2 and a[1].endswith(".bin"):
        p = os.path.basename(a[1]).split("-")[0]
        r = subprocess.run([build_fuzz(), a[1]], env=dict(os.environ, FUZZ_MODE=FUZZ[p][0], PBT_REPO=REPO))
        if r.returncode:
            print("VIOLATION property=%s replay=%s" % (p, a[1]))
        return 1 if r.returncode else 0
    if a[:1] == ["replay"] and len(a) == 2:
        m = re.search(r"^property (\w+)", read(a[1]).decode(errors="replace"), re.M)
        p = m.group(1)
        env = dict(os.environ, PBT_REPO=REPO, PBT_PYTHON=sys.executable)
        if p in NEEDS_TOOL:
            env["PBT_TOOL"] = build_tool(p)
        tsan = re.search(r"^sub threads-tsan", read(a[1]).decode(errors="replace"), re.M)
        return subprocess.run([build_tsan() if tsan else build_pbt(p), "replay", a[1]], env=env).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
