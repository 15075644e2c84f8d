#!/usr/bin/env python3
"""Driver: build the harness of a property against the library's working tree, run it, write evidence.

  run.py setup                         build everything once (only warms the build folder)
  run.py check C05 --tier quick        exit 0 held / 1 violated (VIOLATION line) / 2 error of the check
  run.py replay replays/C05-....json   re-run a saved failing case
"""
import argparse, fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # overridden only when trying planted bugs in scratch copies
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import spec  # noqa: E402

SAN = {"asan": "-fsanitize=address,undefined -fno-sanitize-recover=all", "tsan": "-fsanitize=thread",
       "fuzz": "-fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all"}
TSAN_TOO = {"C29"}  # also run under ThreadSanitizer
FUZZED = {"C22"}    # libFuzzer campaign in the thorough tier


def log(*a):
    print(*a, flush=True)


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("CXX", "CC", "CXXFLAGS", "CFLAGS", "LDFLAGS", "CMAKE_TOOLCHAIN_FILE",
                                                         "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS")}
    e["LC_ALL"] = "C"
    return e


def build(targets, variant="asan"):
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    with open(os.path.join(BUILD, "." + variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in (0, 1):
            r = subprocess.run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bd, "-G", "Ninja",
                                "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18", "-DREPO_DIR=" + REPO, "-DVERIF_SAN=" + SAN[variant], "-DVERIF_FUZZ=" + ("ON" if variant == "fuzz" else "OFF")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env())
            if r.returncode == 0:
                r = subprocess.run(["ninja", "-C", bd] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env())
                if r.returncode == 0:
                    return bd
            if attempt == 0:  # a stale build folder must never decide anything
                shutil.rmtree(bd, ignore_errors=True)
                os.makedirs(bd, exist_ok=True)
        log(r.stdout[-6000:])
        log("BUILD-ERROR: the harness could not be built against", REPO)
        sys.exit(2)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=" + pid + " "):
                out.append(line[len("finding: "):].strip())
    return out


def run_harness(pid, bd, tier, seed, extra=()):
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    out = os.path.join(tmp, "result.json")
    rep = os.path.join(tmp, "replay.json")
    try:
        r = subprocess.run([os.path.join(bd, pid.lower()), "--seed", str(seed), "--tier", tier, "--tmp", tmp, "--out", out,
                            "--replay-out", rep] + list(extra), env=clean_env(), cwd=tmp)
        res = json.load(open(out)) if os.path.exists(out) else None
        replay = json.load(open(rep), strict=False) if os.path.exists(rep) else None
        return r.returncode, res, replay
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, extra):
    t0 = time.time()
    p = next(x for x in spec.P if x["id"] == pid)
    bd = build([pid.lower()])
    rc, res, replay = run_harness(pid, bd, tier, seed, extra)
    variant = "asan"
    runs = [("address+undefined sanitizers", res)]
    if rc == 0 and pid in TSAN_TOO:
        bd2 = build([pid.lower()], "tsan")
        probe = subprocess.run([os.path.join(bd2, pid.lower()), "--cases", "0", "--tmp", bd2], env=clean_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if probe.returncode == 0:
            rc, res2, replay = run_harness(pid, bd2, tier, seed, extra)
            variant = "tsan"
            runs.append(("thread sanitizer", res2))
        else:
            log("note: ThreadSanitizer cannot start here, its part is skipped:", probe.stdout[-300:])
    fuzz = None
    if rc == 0 and pid in FUZZED and tier == "thorough":
        fuzz = fuzz_campaign(pid, seed)
        if fuzz.get("replay"):
            rc, replay, variant = 1, fuzz["replay"], "fuzz"
    if rc not in (0, 1) or any(r is None for _, r in runs):
        log("HARNESS-ERROR: exit", rc)
        sys.exit(2)
    wall = time.time() - t0
    cov = dict(evaluations=sum(r["cases"] for _, r in runs), distinct_nontrivial=sum(r["distinct_nontrivial"] for _, r in runs),
               rule=res["rule"], samples=[s for _, r in runs for s in r["samples"]][:6] or ["(none kept)"],
               planned=sum(r["planned"] for _, r in runs), nontrivial=sum(r["nontrivial"] for _, r in runs), discarded=sum(r["discarded"] for _, r in runs),
               assertions=sum(r["checks"] for _, r in runs), inconclusive=sum(r["inconclusive"] for _, r in runs),
               labels={n: r["labels"] for n, r in runs}, worst_error_over_tolerance=max(r["worst_error_ratio"] for _, r in runs),
               search_wall_s=sum(r["wall_s"] for _, r in runs))
    if fuzz:
        cov["libfuzzer"] = {k: v for k, v in fuzz.items() if k != "replay"}
    kf = known_findings(pid)
    cov["known_findings"] = kf
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.COMMON + p["assumptions"],
              wall_s=round(wall, 3), violations=1 if rc == 1 else 0)
    EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    tmpf = os.path.join(EVD, "." + pid + ".tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmpf, os.path.join(EVD, pid + ".json"))
    for k in kf:
        log("KNOWN-FINDING:", k)
    log(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
        f"{cov['assertions']} assertions, worst error/tolerance {cov['worst_error_over_tolerance']:.2g}, {wall:.1f} s")
    if rc == 1:
        os.makedirs(os.path.join(os.environ.get("VERIF_EVIDENCE", VERIF), "replays"), exist_ok=True)
        path = os.path.join(os.environ.get("VERIF_EVIDENCE", VERIF), "replays", f"{pid}-{tier}-{seed}.json")
        replay["variant"] = variant
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        log("message:", replay.get("message", "")[:1500])
        log(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    sys.exit(0)


FUZZ_SECONDS, FUZZ_JOBS = 240, 7


def fuzz_seeds():
    """A few valid files of both kinds; the first byte selects the loader (odd: curve)."""
    import struct
    pts = [struct.pack("<4d", x, 1, 2, 1) for x in range(4)]
    kn = struct.pack("<i6d", 6, 0, 0, 0, 1, 1, 1)
    k4 = struct.pack("<i4d", 4, 0, 0, 1, 1)
    yield b"\x01LIBNURBS BIN CURVE\n" + struct.pack("<i", 2) + kn + struct.pack("<i", 3) + b"".join(pts[:3])
    yield b"\x00LIBNURBS BIN SURFACE\n" + struct.pack("<ii", 1, 1) + k4 + k4 + struct.pack("<ii", 2, 2) + b"".join(pts)
    yield b"\x01LIBNURBS TXT CURVE\n*Degree: 2\n*Knots:\n0, 0, 0, 1, 1, 1\n*ControlPoints:\n0 0 0 1,\n1 2 0 1,\n2 0 0 1e0,\n"
    yield b"\x00LIBNURBS TXT SURFACE\n*DegreeU: 1\n*DegreeV: 1\n*KnotsU:\n0,0,1,1\n*KnotsV:\n0,0,1,1\n*ControlPoints: 2 2\n0 0 0 1\n1 0 0 1\n0 1 0 1\n1 1 0 1\n"


def fuzz_campaign(pid, seed):
    """Coverage-guided search (libFuzzer, one process per core) with the same oracle as the harness."""
    bd = build([pid.lower() + "_fuzz"], "fuzz")
    exe = os.path.join(bd, pid.lower() + "_fuzz")
    tmp = tempfile.mkdtemp(prefix="fuzz-", dir=BUILD)
    try:
        corpus = os.path.join(tmp, "corpus")
        os.makedirs(corpus)
        for i, s in enumerate(fuzz_seeds()):
            open(os.path.join(corpus, f"seed{i}"), "wb").write(s)
        env = dict(clean_env(), ASAN_OPTIONS="max_allocation_size_mb=768:allocator_may_return_null=1:alloc_dealloc_mismatch=0")
        ps = []
        for j in range(FUZZ_JOBS):
            lf = open(os.path.join(tmp, f"log{j}"), "w")
            ps.append(subprocess.Popen([exe, f"-seed={seed * 100 + j + 1}", f"-max_total_time={FUZZ_SECONDS}", "-max_len=4000", "-timeout=20",
                                        "-rss_limit_mb=2500", "-reload=1", "-print_final_stats=1", f"-artifact_prefix={tmp}/crash{j}-", corpus],
                                       stdout=lf, stderr=lf, env=env, cwd=tmp))
        for p in ps:
            p.wait()
        runs = cov = 0
        for j in range(FUZZ_JOBS):
            t = open(os.path.join(tmp, f"log{j}"), errors="replace").read()
            for line in t.splitlines():
                if line.startswith("stat::number_of_executed_units:"):
                    runs += int(line.split()[-1])
                if " cov: " in line:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
        out = dict(executions=runs, corpus=len(os.listdir(corpus)), edges=cov, seconds=FUZZ_SECONDS, processes=FUZZ_JOBS)
        crashes = sorted((f for f in os.listdir(tmp) if f.startswith("crash") and "-slow-unit" not in f), key=lambda f: os.path.getsize(os.path.join(tmp, f)))
        for f in crashes:  # only what reproduces counts
            src = os.path.join(tmp, f)
            r = subprocess.run([exe, "-timeout=20", "-rss_limit_mb=2500", src], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                continue
            small = os.path.join(tmp, "min")
            subprocess.run([exe, "-minimize_crash=1", "-max_total_time=30", "-timeout=20", f"-exact_artifact_path={small}", src], env=env, cwd=tmp,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            use = small if os.path.exists(small) and subprocess.run([exe, "-timeout=20", small], env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode else src
            data = open(use, "rb").read()
            out["replay"] = dict(property=pid, message="libFuzzer: " + r.stdout[:3000], input_hex=data.hex(), input_repr=repr(data)[:2000])
            break
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    if d.get("variant") == "fuzz":
        bd = build([pid.lower() + "_fuzz"], "fuzz")
        with tempfile.TemporaryDirectory(prefix="rep-", dir=BUILD) as tmp:
            f = os.path.join(tmp, "input")
            open(f, "wb").write(bytes.fromhex(d["input_hex"]))
            r = subprocess.run([os.path.join(bd, pid.lower() + "_fuzz"), f], cwd=tmp,
                               env=dict(clean_env(), ASAN_OPTIONS="max_allocation_size_mb=768:allocator_may_return_null=1:alloc_dealloc_mismatch=0"))
        sys.exit(1 if r.returncode else 0)
    bd = build([pid.lower()], d.get("variant", "asan"))
    with tempfile.TemporaryDirectory(prefix="rep-", dir=BUILD) as tmp:
        flat = os.path.join(tmp, "r.json")
        with open(flat, "w") as f:
            json.dump(d, f, separators=(",", ":"))
        r = subprocess.run([os.path.join(bd, pid.lower()), "--replay", flat, "--tmp", tmp], env=clean_env(), cwd=tmp)
    sys.exit(r.returncode)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["setup", "check", "replay"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--cases")
    ap.add_argument("--budget")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.cmd == "setup":
        build([p["id"].lower() for p in spec.P if os.path.exists(os.path.join(VERIF, "harness", p["id"].lower() + ".cpp"))])
        log("built")
    elif a.cmd == "check":
        extra = (["--cases", a.cases] if a.cases else []) + (["--budget", a.budget] if a.budget else [])
        check(a.arg, a.tier, seed, extra)
    else:
        replay(a.arg)


if __name__ == "__main__":
    main()
