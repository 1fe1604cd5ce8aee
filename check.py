#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--keep DIR]

Builds the harness of one property against /repo's working tree, explores its bounded space completely, writes
evidence/<property>.json and exits 0 (held on everything explored) or 1 with a VIOLATION line."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import CHECKS  # noqa: E402

INC = ["-I", os.path.join(REPO, "Source"), "-I", os.path.join(VERIF, "lib")]


def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "Source", "**", "*.cpp"), recursive=True)):
        if not f.endswith(".Windows.cpp"):
            out.append(f)
    return out


def known_findings(prop):
    """Keys listed in KNOWN_FINDINGS.txt: 'finding: property=P27 key=<key> <what fails>'."""
    out = {}
    try:
        lines = open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")).read().splitlines()
    except FileNotFoundError:
        return out
    for line in lines:
        if line.startswith("finding: property=%s key=" % prop):
            key, _, text = line.split("key=", 1)[1].partition(" ")
            out[key] = text
    return out


class BuildError(Exception):
    pass


def compile_all(units, flags, bdir, jobs):
    """units: list of (source, extra flags). Returns the object files."""
    def one(u):
        src, extra = u
        obj = os.path.join(bdir, os.path.basename(src).replace(".", "_") + "_" + hashlib.sha1((src + repr(extra)).encode()).hexdigest()[:8] + ".o")
        cmd = ["g++", "-std=c++20", "-c", src, "-o", obj, "-w"] + INC + flags + extra
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
        return obj
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, units))


def build(spec, bdir, defines=[]):
    jobs = max(2, os.cpu_count() or 8)
    mode = spec.get("mode", "asan")
    if mode == "asan":
        flags = ["-g1", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-pthread"]
        link = ["-fsanitize=address", "-pthread"]
        sut_extra = []
        h_extra = []
    elif mode == "sched":
        # the code under test is compiled with thread-sanitizer instrumentation, the instrumentation callbacks are
        # provided by lib/mcsched.cpp (a controlled scheduler), not by the tsan runtime
        flags = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pthread"]
        wraps = ["memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                 "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
        link = ["-pthread"] + ["-Wl,--wrap=" + w for w in wraps]
        sut_extra = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
        h_extra = sut_extra
    flags += spec.get("flags", []) + defines
    units = [(s, sut_extra) for s in repo_sources() if os.path.basename(s) not in spec.get("exclude", [])]
    for h in spec["harness"]:
        units.append((os.path.join(VERIF, "harness", h), h_extra))
    for h in (["mc.cpp"] if mode == "asan" else ["mc.cpp", "mcsched.cpp"]):
        units.append((os.path.join(VERIF, "lib", h), []))
    objs = compile_all(units, flags, bdir, jobs)
    exe = os.path.join(bdir, "harness")
    r = subprocess.run(["g++", "-o", exe] + objs + link + spec.get("link", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    return exe


def run_harness(exe, args, timeout):
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)


def explore(exe, tier, budget, bdir, only=None, workers=None):
    out = os.path.join(bdir, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    args = ["--tier", tier, "--out", out, "--workers", str(workers or os.cpu_count() or 8), "--budget", str(budget)]
    if only:
        args += ["--only", only]
    r = run_harness(exe, args, budget + 300)
    if not os.path.exists(out):
        raise RuntimeError("the explorer ended without a result (status %s)\n%s" % (r.returncode, r.stdout[-3000:]))
    return json.load(open(out))


def write_replay(prop, tier, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.replay" % (prop, v["scenario"]))
    with open(path, "w") as f:
        f.write("property %s\nscenario %s\ntier %s\ntape %s\n" % (prop, v["scenario"], tier, v["tape"]))
        f.write("# rerun: python3 /verif/check.py %s --replay %s\n# %s\n" % (prop, path, v["msg"].replace("\n", " ")))
        for line in v["trace"].splitlines():
            f.write("# " + line + "\n")
    return path


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    opt = {}
    i = 0
    while i < len(args):
        opt[args[i]] = args[i + 1] if i + 1 < len(args) else ""
        i += 2
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    spec = CHECKS[prop]
    start = time.time()
    bdir = opt.get("--keep") or tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(bdir, exist_ok=True)
    try:
        try:
            try:
                exe = build(spec, bdir)
            except BuildError as e:
                if not spec.get("plain"):
                    raise
                # see MC_NO_COPY in lib/mc.h
                exe = None
                for defines in (["-DMC_PLAIN_COPY"], ["-DMC_PLAIN_ASSIGN"], ["-DMC_PLAIN_COPY", "-DMC_PLAIN_ASSIGN"]):
                    try:
                        exe = build(spec, bdir, defines)
                        break
                    except BuildError:
                        pass
                if exe is None:
                    raise e
        except BuildError as e:
            print("BUILD-ERROR: the harness of %s does not compile against this tree\n%s" % (prop, e))
            return 2
        if "--replay" in opt:
            r = run_harness(exe, ["--replay", os.path.abspath(opt["--replay"])], 600)
            print(r.stdout)
            return 1 if r.returncode else 0
        built = time.time()
        budget = float(opt.get("--budget") or spec.get("budget", {}).get(tier, 420 if tier == "quick" else 7200))
        res = explore(exe, tier, budget, bdir, opt.get("--only"))
        if res["unconfirmed"] and not res["confirmed"]:
            # the tape alone did not reproduce it: the failure depends on what the process did before. It counts
            # when a fresh exploration of the same scenario fails again.
            scn = res["violations"][0]["scenario"]
            for workers in (None, 1):
                again = explore(exe, tier, budget, bdir, scn, workers)
                if again["violations"]:
                    break
            if again["violations"]:
                for v in again["violations"]:
                    v["confirmed"] = True
                    v["msg"] += " (depends on earlier executions in the same process: rerun with --only %s)" % scn
                res["violations"] = again["violations"]
            else:
                print("NOTE: a failure in %s could not be reproduced and is ignored: %s" % (scn, res["violations"][0]["msg"]))
                res = explore(exe, tier, budget, bdir, opt.get("--only"))
        viols = [v for v in res["violations"] if v["confirmed"]]
        listed = known_findings(prop)
        seen = []
        for k in res.get("findings", []):
            if k["key"] in listed:
                if k["key"] not in seen:
                    seen.append(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, listed[k["key"]]))
            else:
                viols.append({"scenario": k["scenario"], "tape": k["tape"], "msg": k["msg"], "trace": ""})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": res["states"], "transitions": res["transitions"],
                "traces_validated_against_impl": res["executions"],
                "exhaustive": bool(res["complete"]) and not viols,
                "scenarios": res["scenarios"],
                "bounds": spec["bounds"].get(tier) if isinstance(spec["bounds"], dict) else spec["bounds"],
                "how": spec.get("how", "Every trace is executed on the real code and on the reference model in lockstep; observations are compared after every operation, so each model trace is a trace validated against the implementation."),
                "samples": res["samples"][:12],
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(viols),
        }
        ev["coverage"].update(res.get("extra", {}))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d operations, %d executions, %s, build %.1fs explore %.1fs" % (
            prop, tier, res["states"], res["transitions"], res["executions"],
            "complete" if res["complete"] else "stopped early", built - start, res["wall"]))
        if viols:
            for k, v in enumerate(viols[:3]):
                print("  [%s] %s" % (v["scenario"], v["msg"]))
                for line in v["trace"].split("--- stderr ---")[0].splitlines()[-25:]:
                    print("    " + line)
            print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, tier, viols[0])))
            return 1
        return 0
    finally:
        if "--keep" not in opt:
            shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
