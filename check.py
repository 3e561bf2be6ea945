#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--keep]
  check.py --replay FILE           re-executes a recorded violation
  check.py --determinism [IDS]     same seeds twice, different worker counts, compare histories
  check.py --build                 builds everything

Exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error of the check.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from suites import SUITES, CHECKS  # noqa: E402

JOBS = int(os.environ.get("SIM_JOBS", "8"))
CXX = os.environ.get("CXX", "g++")
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique"]


class CheckError(Exception):
    pass


def files_under(path):
    for root, _, names in sorted(os.walk(path)):
        for n in sorted(names):
            yield os.path.join(root, n)


def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(extra.encode())
    return h.hexdigest()


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


PYTHON = "/usr/bin/python3"
DROPPED = re.compile(r"^\s*TAT_SINGLE_SCALAR_SYMMETRY\((S, float|C, std::complex<float>), SYM\).*\n|^.*TAT_SINGLE_SYMMETRY_ALL_SCALAR\((U1|FermiZ2|FermiU1)\).*\n", re.M)


def build_module(d):
    """The Python module from /repo's working tree, with fewer element types and symmetries where the source lists them as expected, and all of them otherwise."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    run_cmd([CXX, "-std=c++17", "-O2", "-fPIC", "-shared", "-w", os.path.join(HERE, "bindsim/mem.cpp"), "-o", os.path.join(d, "mem.so")])
    include, suffix = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'], sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    source = open(os.path.join(REPO, "PyTAT/PyTAT.cpp")).read()
    few = os.path.join(d, "few.cpp")
    with open(few, "w") as f:
        f.write(DROPPED.sub("", source))
    last = None
    clang = shutil.which("clang++")
    for cxx, src in ([(clang, few)] if clang else []) + [(CXX, few), (CXX, os.path.join(REPO, "PyTAT/PyTAT.cpp"))]:
        try:
            run_cmd([cxx, "-std=c++17", "-O0", "-fPIC", "-fvisibility=hidden", "-shared", "-w", "-DTAT_PYTHON_MODULE=TAT", '-DTAT_VERSION="x"', '-DTAT_BUILD_TYPE="x"', '-DTAT_COMPILER_INFORMATION="x"',
                     "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "PyTAT"), "-I" + include, src, "-o", os.path.join(d, "TAT" + suffix), "-llapack", "-lblas"])
            return
        except CheckError as e:
            last = e
    raise last


def build(suite_names):
    """Builds the simulator and the process images from /repo's working tree. Returns {suite: image prefix}."""
    os.makedirs(BUILD, exist_ok=True)
    include = list(files_under(os.path.join(REPO, "include")))
    sim_files = list(files_under(os.path.join(HERE, "sim")))
    scenario_files = list(files_under(os.path.join(HERE, "scenarios")))
    work = []
    simrun = os.path.join(BUILD, "simrun")
    sim_key = digest(sim_files, CXX)
    done = {}
    links = []

    def stale(stamp, key):
        try:
            return open(stamp).read() != key
        except OSError:
            return True

    modules = []
    if all("script" in SUITES[n] for n in suite_names):
        pass
    elif stale(simrun + ".key", sim_key) or not os.path.exists(simrun):
        work.append([CXX, "-std=c++17", "-O2", "-g1", "-w", "-rdynamic", "-I" + os.path.join(HERE, "sim/include"), os.path.join(HERE, "sim/core.cpp"),
                     os.path.join(HERE, "sim/mpi.cpp"), "-o", simrun, "-ldl", "-Wl,--no-as-needed", "-llapack", "-lblas"])
        done[simrun + ".key"] = sim_key
    prefixes = {}
    for name in suite_names:
        suite = SUITES[name]
        if "script" in suite:
            prefixes[name] = os.path.join(HERE, suite["script"])
            if suite.get("module"):
                d = os.path.join(BUILD, name)
                key = digest(include + list(files_under(os.path.join(REPO, "PyTAT"))) + [os.path.join(HERE, "bindsim/mem.cpp")], CXX)
                if stale(d + ".key", key):
                    modules.append(d)
                    done[d + ".key"] = key
            continue
        d = os.path.join(BUILD, name)
        prefixes[name] = os.path.join(d, "img")
        key = digest(include + sim_files + scenario_files, CXX + json.dumps(suite, sort_keys=True, default=str))
        if not stale(d + ".key", key) and os.path.exists(os.path.join(d, "img0.so")):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objects = []
        for obj, src, defs in suite["objects"]:
            out = os.path.join(d, obj + ".o")
            objects.append(out)
            work.append([CXX] + BASE + suite.get("flags", []) + defs + ["-I" + os.path.join(HERE, "sim/include"), "-I" + os.path.join(HERE, "scenarios"),
                                                                        "-I" + os.path.join(REPO, "include"), "-c", os.path.join(HERE, "scenarios", src), "-o", out])
        links.append((d, objects, suite["images"]))
        done[d + ".key"] = key
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        built = [pool.submit(build_module, d) for d in modules]
        list(pool.map(run_cmd, work))
        for b in built:
            b.result()
    for d, objects, images in links:
        so = os.path.join(d, "img0.so")
        run_cmd([CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,-s", "-o", so] + objects + ["-llapack", "-lblas"])
        for o in objects:
            os.unlink(o)
        for i in range(1, images):
            shutil.copyfile(so, os.path.join(d, "img%d.so" % i))
            os.chmod(os.path.join(d, "img%d.so" % i), 0o755)
    for path, key in done.items():
        with open(path, "w") as f:
            f.write(key)
    return simrun, prefixes


def command(simrun, prefix, suite, job):
    if SUITES[suite].get("module"):
        return [PYTHON, "-B", prefix, "--repo", REPO, "--module", os.path.join(BUILD, suite), "--scenario", job["scenario"], "--cpu-limit", str(job.get("cpu", 20))]
    if "script" in SUITES[suite]:
        return [shutil.which("python3-vt") or "python3", "-B", prefix, "--repo", REPO, "--scenario", job["scenario"], "--cpu-limit", str(job.get("cpu", 20))]
    cmd = [simrun, "--images", prefix, "--image-count", str(SUITES[suite]["images"]), "--scenario", job["scenario"], "--ranks-min", str(job.get("ranks", (1, 1))[0]),
           "--ranks-max", str(job.get("ranks", (1, 1))[1]), "--steps", str(job.get("steps", 400000)), "--cpu-limit", str(job.get("cpu", 20))]
    for k, v in sorted(job.get("params", {}).items()):
        cmd += ["-p", "%s=%s" % (k, v)]
    return cmd


def parse(out):
    for line in out.splitlines():
        if line.startswith("{"):
            yield json.loads(line)


class Server:
    """One simrun that executes decision lists."""

    def __init__(self, cmd):
        self.p = subprocess.Popen(cmd + ["--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, choices):
        self.p.stdin.write(",".join(map(str, choices)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise CheckError("simulator ended unexpectedly during minimisation")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def minimise(cmd, violation, seconds):
    """Shrinks the decision list while the same class of violation persists."""
    server = Server(cmd)
    deadline = time.time() + seconds
    cls = violation["class"]
    best = list(violation["choices"])
    tries = 0

    def fails(c):
        nonlocal tries, best
        tries += 1
        r = server.run(c)
        if r["outcome"] == 2 and r["class"] == cls:
            used = r["choices"]
            while used and used[-1] == 0:
                used = used[:-1]
            if (len(used), sum(used)) < (len(best), sum(best)):
                best = used
            return True
        return False

    try:
        fails(best)
        changed = True
        while changed and time.time() < deadline:
            changed = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(best) and time.time() < deadline:
                    before = (len(best), sum(best))
                    if fails(best[:i] + best[i + size:]) and (len(best), sum(best)) < before:
                        changed = True
                        continue
                    if any(best[i:i + size]):
                        before = (len(best), sum(best))
                        fails(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                        if (len(best), sum(best)) < before:
                            changed = True
                    i += size
                size //= 2
            i = 0
            while i < len(best) and time.time() < deadline:
                for target in (0, 1, best[i] // 2, best[i] - 1):
                    if i < len(best) and 0 <= target < best[i]:
                        before = (len(best), sum(best))
                        fails(best[:i] + [target] + best[i + 1:])
                        if (len(best), sum(best)) < before:
                            changed = True
                            break
                i += 1
    finally:
        server.close()
    return best, tries


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k.get("status") == "known"]


def matches(known, prop, run):
    return [k for k in known if k["property"] == prop and k["class"] == run["class"] and re.search(k["match"], run["msg"])]


def execute_batch(cmd, seed, runs, limit, workers, stop, samples=0, extra=()):
    """Runs `runs` seeds spread over workers. Returns (list of violating runs, merged summary, sample runs)."""
    procs = []
    for w in range(workers):
        count = (runs - w + workers - 1) // workers
        if count <= 0:
            continue
        c = cmd + ["--seed", str(seed), "--first", str(w), "--stride", str(workers), "--count", str(count), "--time-limit", str(limit), "--max-violations", "8"] + list(extra)
        if w == 0 and samples:
            c += ["--samples", str(samples), "--log"]
        procs.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = [None] * len(procs)

    def reader(i):
        outs[i] = procs[i].communicate()

    threads = [threading.Thread(target=reader, args=(i,)) for i in range(len(procs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    violations, sample_runs, hashes_list = [], [], []
    total = {"runs": 0, "discarded": 0, "steps": 0, "simulated_s": 0.0, "nontrivial": 0, "counters": {}, "hashes": set(), "schedules": set()}
    for p, (out, err) in zip(procs, outs):
        if p.returncode != 0:
            raise CheckError("simulator failed (%s): %s %s" % (p.returncode, out[-500:], err[-2000:]))
        for r in parse(out):
            if r["type"] == "run":
                (violations if r["outcome"] == 2 else sample_runs).append(r)
            elif r["type"] == "hash":
                hashes_list.append((r["run"], r["hash"], r["outcome"]))
            elif r["type"] == "summary":
                for k in ("runs", "discarded", "steps", "simulated_s", "nontrivial"):
                    total[k] += r[k]
                for k, (v, n) in r["counters"].items():
                    a = total["counters"].setdefault(k, [0, 0])
                    a[0] += v
                    a[1] += n
                total["hashes"].update(r["hashes"])
                total["schedules"].update(r["schedules"])
    total["list"] = sorted(hashes_list)
    violations.sort(key=lambda r: r["run"])
    return violations, total, sample_runs


def single(cmd, seed, run, extra=()):
    p = subprocess.run(cmd + ["--seed", str(seed), "--first", str(run), "--count", "1"] + list(extra), stdout=subprocess.PIPE, text=True)
    for r in parse(p.stdout):
        if r["type"] == "run":
            return r
    return None


def replay_choices(cmd, choices, log=False):
    path = os.path.join(BUILD, "replay.%d.txt" % os.getpid())
    with open(path, "w") as f:
        f.write(",".join(map(str, choices)) + "\n")
    p = subprocess.run(cmd + ["--replay", path] + (["--log"] if log else []), stdout=subprocess.PIPE, text=True)
    os.unlink(path)
    for r in parse(p.stdout):
        return r
    return None


def report(prop, tier, seed, suite, job, cmd, violation):
    """Gates, minimises and records one violation. Returns the path of the replay file."""
    again = single(cmd, seed, violation["run"])
    if again is None or again["class"] != violation["class"] or again["hash"] != violation["hash"]:
        raise CheckError("run %d of seed %d does not repeat: %s %s / %s" % (violation["run"], seed, violation["class"], violation["hash"], again and (again["class"], again["hash"])))
    fresh = replay_choices(cmd, violation["choices"])
    if fresh is None or fresh["class"] != violation["class"] or fresh["hash"] != violation["hash"]:
        raise CheckError("decision list of run %d does not reproduce in a fresh process" % violation["run"])
    best, tries = minimise(cmd, violation, 25 if tier == "quick" else 240)
    final = replay_choices(cmd, best, log=True)
    if final is None or final["outcome"] != 2 or final["class"] != violation["class"]:
        raise CheckError("minimised decision list does not reproduce")
    check = replay_choices(cmd, best)
    if check["hash"] != final["hash"]:
        raise CheckError("minimised replay is not repeatable")
    path = os.path.join(HERE, "evidence", "%s.replay.json" % prop)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "suite": suite, "job": job, "seed": seed, "run": violation["run"], "class": final["class"], "message": final["msg"], "hash": final["hash"],
                   "original_decisions": len(violation["choices"]), "decisions": best, "minimisation_runs": tries, "steps": final["steps"],
                   "trace": final.get("log", "").splitlines(), "replay": "python3 /verif/check.py --replay %s" % path}, f, indent=1)
    return path, final


def do_check(prop, tier, seed, runs_override=None):
    start = time.time()
    spec = CHECKS[prop]
    known = load_known()
    simrun, prefixes = build(sorted({j["suite"] for j in spec["jobs"]}))
    built = time.time()
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {}, "assumptions": spec.get("assumptions", []), "violations": 0}
    merged = {"runs": 0, "discarded": 0, "steps": 0, "simulated_s": 0.0, "counters": {}, "hashes": 0, "schedules": 0, "nontrivial": 0}
    samples, per_job, known_seen = [], [], {}
    failure = None
    run_start = time.time()
    for job in spec["jobs"]:
        cmd = command(simrun, prefixes[job["suite"]], job["suite"], job)
        runs = runs_override or job["runs"][0 if tier == "quick" else 1]
        limit = job.get("limit", (150, 1500))[0 if tier == "quick" else 1]
        t0 = time.time()
        violations, total, sample_runs = execute_batch(cmd, seed, runs, limit, JOBS, None, samples=2)
        per_job.append({"scenario": job["scenario"], "params": job.get("params", {}), "processes": list(job.get("ranks", (1, 1))), "runs": total["runs"], "requested": runs,
                        "discarded": total["discarded"], "distinct_histories": len(total["hashes"]), "distinct_schedules": len(total["schedules"]),
                        "wall_s": round(time.time() - t0, 2)})
        for k in ("runs", "discarded", "steps", "simulated_s", "nontrivial"):
            merged[k] += total[k]
        merged["hashes"] += len(total["hashes"])
        merged["schedules"] += len(total["schedules"])
        for k, (v, n) in total["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        for r in sample_runs[:2]:
            samples.append({"scenario": job["scenario"], "run": r["run"], "decisions": len(r["choices"]), "counters": r["counters"], "trace": r.get("log", "").splitlines()[:40]})
        if total["runs"] == 0:
            raise CheckError("no run was executed for %s" % job["scenario"])
        if total["discarded"] * 2 > total["runs"]:
            raise CheckError("most runs of %s were discarded" % job["scenario"])
        for v in violations:
            if v["class"] == "simulator":
                raise CheckError("simulator problem: " + v["msg"])
            found = matches(known, prop, v)
            if found:
                for k in found:
                    known_seen[k["id"]] = k
            else:
                failure = (job, cmd, v)
                break
        if failure:
            break
    for k in known:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    status = 0
    if failure:
        job, cmd, v = failure
        path, final = report(prop, tier, seed, job["suite"], job, cmd, v)
        print("%s: %s" % (final["class"], final["msg"]))
        print("seed %d run %d; %d decisions minimised to %d" % (seed, v["run"], len(v["choices"]), len(json.load(open(path))["decisions"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        evidence["violations"] = 1
        status = 1
    elapsed = max(time.time() - run_start, 1e-3)
    faults = {k[6:]: v for k, v in merged["counters"].items() if k.startswith("fault.")}
    probes = {k: v for k, v in merged["counters"].items() if not k.startswith("fault.")}
    evidence["coverage"] = {
        "evaluations": merged["runs"],
        "distinct_nontrivial": merged["hashes"],
        "rule": spec["rule"] + " A run is one seed; it counts when it met the property's situation (several processes, a fault that really fired or a multi-step history) and its full event history hash differs from every other run of the batch.",
        "samples": samples,
        "discarded": merged["discarded"],
        "runs_per_hour": int(merged["runs"] * 3600 / elapsed),
        "seeds": {"master": seed, "run_indices": merged["runs"]},
        "simulated_seconds": round(merged["simulated_s"], 6),
        "scheduler_steps": merged["steps"],
        "faults_injected": faults,
        "probes": probes,
        "distinct_schedules": merged["schedules"],
        "state_measure": "distinct 64-bit hashes of the complete event history (decisions, scheduling, message matching, outputs) and of the schedule alone",
        "jobs": per_job,
        "real_components": spec["real"],
        "stubbed_components": spec["stub"],
        "build_s": round(built - start, 2),
    }
    evidence["wall_s"] = round(time.time() - start, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if status == 0:
        print("%s held on %d simulated runs (%d distinct histories, %.1f s build, %.1f s run)" % (prop, merged["runs"], merged["hashes"], built - start, elapsed))
    return status


def do_replay(path):
    r = json.load(open(path))
    simrun, prefixes = build([r["suite"]])
    out = replay_choices(command(simrun, prefixes[r["suite"]], r["suite"], r["job"]), r["decisions"], log=True)
    print(out.get("log", ""))
    print("class=%s hash=%s\n%s" % (out["class"], out["hash"], out["msg"]))
    same = out["outcome"] == 2 and out["class"] == r["class"] and out["hash"] == r["hash"]
    print("reproduced exactly" if same else "NOT reproduced")
    return 1 if same else 0


def do_determinism(ids, runs, seeds):
    simrun, prefixes = build(sorted({j["suite"] for i in ids for j in CHECKS[i]["jobs"]}))
    bad = 0
    for i in ids:
        for job in CHECKS[i]["jobs"]:
            cmd = command(simrun, prefixes[job["suite"]], job["suite"], job)
            for seed in seeds:
                ref = None
                for workers in (8, 3, 13):
                    _, total, _ = execute_batch(cmd, seed, runs, 600, workers, None, extra=["--hashes"] + (["--log"] if workers == 13 else []), samples=2 if workers == 3 else 0)
                    if ref is None:
                        ref = total["list"]
                    elif ref != total["list"]:
                        bad += 1
                        diff = [a for a, b in zip(ref, total["list"]) if a != b]
                        print("DIVERGENCE %s %s seed %d workers %d: %s" % (i, job["scenario"], seed, workers, diff[:3]))
            print("%s %s: %d seeds x %d runs x 3 worker counts compared" % (i, job["scenario"], len(seeds), runs), flush=True)
    return 1 if bad else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="*")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--runs", type=int)
    a.add_argument("--replay")
    a.add_argument("--build", action="store_true")
    a.add_argument("--determinism", action="store_true")
    args = a.parse_args()
    try:
        if args.replay:
            return do_replay(args.replay)
        if args.build:
            build(sorted(SUITES))
            return 0
        if args.determinism:
            return do_determinism(args.property or sorted(CHECKS), args.runs or 200, [1, 2, 3])
        status = 0
        for p in args.property:
            status = max(status, do_check(p, args.tier, args.seed, args.runs))
        return status
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
