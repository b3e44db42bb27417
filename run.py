#!/usr/bin/env python3
"""Builds one property's harness from /repo's current tree, runs it, writes evidence/<id>.json.

  run.py <ID> [quick|thorough]          run the check (VERIF_SEED, VERIF_TIER are honoured)
  run.py <ID> --replay FILE             replay a saved counterexample
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the check.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
COMMON = ["-std=c++14", "-include", "cstdint", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "lib"),
          "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
ASAN_OPTS = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=12:max_malloc_fill_size=1048576:malloc_fill_byte=90:hard_rss_limit_mb=1800"

def meta():
    return json.load(open(os.path.join(HERE, "props", "meta.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def build(pid, m, out, fuzz=False):
    src = os.path.join(HERE, "props", pid + ".cpp")
    if fuzz:
        cmd = ["clang++"] + COMMON + ["-g", "-O1", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer,address"]
    else:
        cmd = ["g++"] + COMMON + ["-g1", "-O1"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if m.get("asan") else [])
    cmd += m.get("flags", []) + [src, "-o", out] + m.get("libs", [])
    r = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("\n".join(l[:300] for l in r.stdout.splitlines() if "error" in l)[:6000])
        print("BUILD-ERROR: the harness of %s does not compile against the current tree" % pid)
        sys.exit(2)

def env_for(scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_OPTS
    e["MALLOC_PERTURB_"] = "165"          # fresh heap memory is 0x5A.. (large numbers), also when it is reused
    e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    e["PBT_SCRATCH"] = scratch
    e["PBT_KNOWN_FILE"] = os.path.join(HERE, "known_findings.txt")
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e

def main():
    t0 = time.time()
    pid = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    m = meta()[pid]
    base = os.environ.get("TMPDIR", "/tmp")
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=base)
    rc = 2
    try:
        exe = os.path.join(work, "harness")
        build(pid, m, exe)
        env = env_for(work)
        if rest and rest[0] == "--replay":
            rc = sh([exe, "--replay", rest[1]], env=env).returncode
            return rc
        replays = os.path.join(HERE, "replays")
        out = os.path.join(work, "stats.json")
        wall = 240 if tier == "quick" else 420
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", replays, "--wall", str(wall), "--workers", "8"] + (["--scale", str(m.get("scale", 1))] if tier == "quick" else []) + rest
        r = sh(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        rc = r.returncode
        if rc not in (0, 1) or not os.path.exists(out):
            print("CHECK-ERROR: harness ended with status", rc)
            rc = 2 if rc != 1 else 1
        st = json.load(open(out)) if os.path.exists(out) else {}
        fz = None
        if rc == 0 and tier == "thorough" and m.get("fuzz"):
            rc, fz = fuzz(pid, m, work, exe, seed, replays, env)
        violations = 1 if rc == 1 else 0
        cov = {k: st.get(k) for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded", "planned", "rule", "per_property", "labels", "samples", "explore_s") if k in st}
        if fz:
            cov["libfuzzer"] = fz
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": m.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def fuzz(pid, m, work, exe, seed, replays, env):
    """Coverage-guided campaign over the same properties (bytes are decoded into the same choices)."""
    tgt = os.path.join(work, "fuzzer")
    build(pid, m, tgt, fuzz=True)
    corpus = os.path.join(work, "corpus"); os.makedirs(corpus, exist_ok=True)
    art = os.path.join(work, "art"); os.makedirs(art, exist_ok=True)
    e = dict(env)
    e["PBT_FUZZ_OUT"] = os.path.join(work, "fuzz.replay")
    secs = int(m["fuzz"].get("seconds", 180))
    cmd = [tgt, corpus, "-seed=%d" % (seed or 1), "-max_total_time=%d" % secs, "-max_len=%d" % m["fuzz"].get("max_len", 2048),
           "-artifact_prefix=" + art + "/", "-rss_limit_mb=3000", "-malloc_limit_mb=2500", "-timeout=60", "-print_final_stats=1", "-verbosity=0", "-workers=8", "-jobs=8"]
    r = sh(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    execs = 0
    for f in os.listdir(work):
        if f.startswith("fuzz-") and f.endswith(".log"):
            for l in open(os.path.join(work, f), errors="replace"):
                if l.startswith("stat::number_of_executed_units:"):
                    execs += int(l.split()[-1])
    res = {"executions": execs, "seconds": secs, "corpus": len(os.listdir(corpus)), "crashes": 0}
    # every crash artifact is decoded and must fail in the ordinary harness as well
    for a in sorted(os.listdir(art)):
        if not a.startswith(("crash-", "oom-", "timeout-")):
            continue
        q = sh([exe, "--bytes", os.path.join(art, a), "--replay-dir", replays], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if q.returncode == 1:
            sys.stdout.write(q.stdout); sys.stdout.flush()
            res["crashes"] += 1
            return 1, res
    return 0, res

if __name__ == "__main__":
    sys.exit(main())
