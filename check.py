#!/usr/bin/env python3
"""Run the check of one property: build the library from /repo's working tree
(sanitized, out of tree), build the harness, explore, write the evidence."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

COMMON = ["-std=gnu11", "-D_GNU_SOURCE", "-g", "-fno-omit-frame-pointer", "-w"]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address"],
    "fast": ["-O2"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:max_malloc_fill_size=4096:quarantine_size_mb=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "LSAN_OPTIONS": "exitcode=97",
    "LC_ALL": "C", "LANG": "C", "TZ": "UTC", "TERM": "vt100",
}


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd)[:300], r.stdout[-3000:]))
    return r.stdout


def files_hash(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.relpath(f, "/").encode())
        with open(f, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:20]


def pkg(flag):
    r = subprocess.run(["pkg-config", flag, "yaml-0.1", "libedit"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode == 0:
        return r.stdout.split()
    return ["-lyaml", "-ledit"] if flag == "--libs" else []


def build_lib(flavor, jobs=8):
    """compile every source of the library from the working tree"""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    deps = srcs + glob.glob(os.path.join(REPO, "src", "*.h")) + \
        glob.glob(os.path.join(REPO, "include", "*.h"))
    flags = COMMON + FLAVORS[flavor] + ["-I" + os.path.join(REPO, "include"),
                                        "-I" + os.path.join(REPO, "src")] + pkg("--cflags")
    key = files_hash(deps, flavor + " ".join(flags))
    d = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    if not os.path.exists(os.path.join(d, "done")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def cc(src):
            sh(["gcc"] + flags + ["-c", src, "-o",
                os.path.join(d, os.path.basename(src) + ".o")])
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(cc, srcs))
        open(os.path.join(d, "done"), "w").close()
    return key, sorted(glob.glob(os.path.join(d, "*.o")))


def build_harness(name, flavor, extra_src, extra_flags):
    key, objs = build_lib(flavor)
    srcs = [os.path.join(VERIF, "harness", name + ".c"),
            os.path.join(VERIF, "lib", "mc.c")] + \
        [os.path.join(VERIF, s) for s in extra_src]
    deps = srcs + glob.glob(os.path.join(VERIF, "lib", "*.h")) + \
        glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(REPO, "examples", "*", "*.c"))
    extra_flags = [f.replace("@REPO@", REPO) for f in extra_flags]
    k2 = files_hash(deps, key + flavor + " ".join(extra_flags))
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, k2))
    if not os.path.exists(exe):
        flags = COMMON + FLAVORS[flavor] + ["-I" + os.path.join(REPO, "include"),
                                            "-I" + os.path.join(VERIF, "lib")] + pkg("--cflags")
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["gcc"] + flags + extra_flags + srcs + objs + ["-o", tmp] + pkg("--libs") + ["-lpthread", "-lm"])
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the build directory small"""
    ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD) if e != "lock"]
    ents.sort(key=os.path.getmtime)
    for e in ents[:-60]:
        if os.path.isdir(e):
            shutil.rmtree(e, ignore_errors=True)
        else:
            os.unlink(e)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_lib("asan")
        return 0
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    prune()
    env = dict(os.environ)
    env.update(ENV)
    known = known_findings(prop)
    results, violations = [], []
    runs = [r for r in p["runs"] if tier == "thorough" or not r.get("thorough_only")]
    built = []
    for i, r in enumerate(runs):
        built.append(build_harness(r["harness"], r.get("flavor", "asan"), r.get("src", []),
                                   r.get("flags", []) + ["-DPROP_" + prop]))
    fcntl.flock(lock, fcntl.LOCK_UN)
    for i, (r, exe) in enumerate(zip(runs, built)):
        out = os.path.join(BUILD, "out-%s-%d-%d" % (prop, i, os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        kf = os.path.join(out, "known")
        with open(kf, "w") as f:
            for k in known:
                f.write(k["sig"] + "\n")
        js = os.path.join(out, "res.json")
        cmd = [exe, "--json", js, "--outdir", out, "--known", kf] + \
            (["--thorough"] if tier == "thorough" else [])
        env["MC_SCRATCH"] = out
        for attempt in range(2):
            if os.path.exists(js):
                os.unlink(js)
            rc = subprocess.run(cmd, env=env, cwd=out).returncode
            if rc in (0, 1):
                break
            # something did not replay: run the whole exploration again
        errs = ""
        for e in sorted(glob.glob(os.path.join(out, "worker-*.err"))):
            with open(e, errors="replace") as f:
                errs += f.read(3000)
        if rc not in (0, 1) and not os.path.exists(js):
            raise SystemExit("harness %s failed (%d)\n%s" % (r["harness"], rc, errs))
        with open(js) as f:
            res = json.load(f)
        res["rc"] = rc
        results.append((r, res))
        if rc == 1:
            v = res["violation"]
            path = os.path.join(replays, "%s-%s-%d.txt" % (prop, tier, i))
            with open(path, "w") as f:
                f.write("property: %s\nkind: %s\nsignature: %s\ncase: %s\n\n%s\n\n"
                        "replay: %s %s %s\n(rebuild with: python3 %s/check.py %s --tier %s)\n\n%s\n" % (
                            prop, v["kind"], v["sig"], v["desc"], v["msg"], exe, v["replay"],
                            "--thorough" if tier == "thorough" else "", VERIF, prop, tier, errs))
            violations.append((path, v))
        elif rc != 0:
            # two full runs both saw an abnormal end that a replay alone does not show
            path = os.path.join(replays, "%s-%s-%d.txt" % (prop, tier, i))
            with open(path, "w") as f:
                f.write("property: %s\nabnormal end in two complete runs (exit %d)\n%s\n" % (prop, rc, errs))
            violations.append((path, {"sig": "unstable", "desc": "abnormal end in two complete runs", "msg": errs[:500]}))
        shutil.rmtree(out, ignore_errors=True)

    tot = lambda k: sum(int(res[k]) for _, res in results)
    samples = []
    for _, res in results:
        samples += res["samples"][:12]
    hits = {}
    for _, res in results:
        for k in res["known"]:
            hits.setdefault(k["sig"], [0, ""])
            hits[k["sig"]][0] += k["hits"]
            hits[k["sig"]][1] = hits[k["sig"]][1] or k["example"]
    cov = {"samples": samples[:30], "exhaustive": not violations,
           "distinct_outcomes": tot("outcomes"), "bounds": p["bounds"][tier],
           "runs": [{"harness": r["harness"], "flavor": r.get("flavor", "asan"),
                     "cases_in_space": res["space"], "wall_s": res["wall"]} for r, res in results]}
    if p["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"),
                   traces_validated_against_impl=tot("evaluations"))
        if tot("states_overflow"):
            cov["states_note"] = "the fingerprint table filled up; states is a lower bound"
    else:
        cov.update(evaluations=tot("evaluations"), distinct_nontrivial=tot("nontrivial"),
                   rule=p["rule"], library_operations=tot("transitions"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "violations": len(violations),
          "assumptions": p["assumptions"]}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        n, ex = hits.get(k["sig"], (0, ""))
        if n:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, %.1fs" % (
        prop, tier, tot("evaluations"), tot("states"), tot("transitions"), tot("outcomes"), time.time() - t0))
    for path, v in violations:
        print("%s: %s" % (v["sig"], v["desc"][:1500]))
        print(v["msg"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
