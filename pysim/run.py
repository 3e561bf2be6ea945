#!/usr/bin/env python3
"""Worker of the Python suites: the same command line and output as the C++ simulator.
Every run is a forked child of a process that has only imported the package."""
import argparse, builtins, gc, hashlib, json, mmap, os, resource, signal, struct, sys, time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    if "--module" in sys.argv:
        os.environ["LD_PRELOAD"] = os.path.join(sys.argv[sys.argv.index("--module") + 1], "mem.so")
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))


def child(scenarios, scenario, seed, choices, log, fd, cpu, shared):
    import simcore

    def hang(*_):
        raise simcore.Hang()

    signal.signal(signal.SIGPROF, hang)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    # native code does not come back for the handler
    resource.setrlimit(resource.RLIMIT_CPU, (int(cpu) + 3, int(cpu) + 6))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    simcore.run = r = simcore.Run(seed, choices)
    r.log = [] if log else None
    r.shared = shared
    outcome, cls, msg = 0, "", ""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        scenarios.run(scenario)
    except simcore.Violation as v:
        outcome, cls, msg = 2, v.cls, v.msg
    except simcore.Hang:
        # where the time ran out is no decision
        outcome, cls, msg = 2, "hang", "no progress within %g s of computing time" % cpu
        r.hash = hashlib.sha256()
    except simcore.Discard as d:
        outcome, cls, msg = 1, "discard", str(d)
    except BaseException as e:
        import traceback
        outcome, cls, msg = 2, "exception:" + type(e).__name__, "unexpected %s: %s | %s" % (type(e).__name__, e, " < ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
    # events, not the place in the source an exception came from, make up the history
    r.hash.update(("%d %s" % (outcome, cls)).encode())
    out = {"type": "run", "outcome": outcome, "class": cls, "msg": msg, "hash": r.hash.hexdigest()[:16], "schedule": r.schedule.hexdigest()[:16], "steps": r.steps, "now": 0,
           "nontrivial": int(r.nontrivial), "choices": r.choices, "counters": r.counters}
    if log:
        out["log"] = "\n".join(r.log)
    data = json.dumps(out).encode()
    while data:
        data = data[os.write(fd, data):]
    os._exit(0)


shared = mmap.mmap(-1, 4 * ((1 << 16) + 2))


def one(scenarios, scenario, seed, choices, log, cpu):
    sys.stdout.flush()
    a, b = os.pipe()
    shared[:4] = bytes(4)
    pid = os.fork()
    if pid == 0:
        os.close(a)
        try:
            child(scenarios, scenario, seed, choices, log, b, cpu, shared)
        finally:
            os._exit(3)
    os.close(b)
    data = b""
    while True:
        piece = os.read(a, 1 << 16)
        if not piece:
            break
        data += piece
    os.close(a)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        hang = os.WTERMSIG(status) in (signal.SIGPROF, signal.SIGXCPU, signal.SIGKILL)
        choices = list(struct.unpack_from("<%di" % struct.unpack_from("<i", shared, 0)[0], shared, 4))
        h = hashlib.sha256(json.dumps(choices).encode() if not hang else b"2 hang").hexdigest()[:16]
        return {"type": "run", "outcome": 2, "class": "hang" if hang else "crash", "msg": "no progress within the CPU budget" if hang else "killed by signal %d" % os.WTERMSIG(status),
                "hash": h, "schedule": h, "steps": 0, "now": 0, "nontrivial": 1, "choices": choices, "counters": {}}
    return json.loads(data)


def stub(repo):
    sys.path[:0] = [HERE, repo, "/opt/vp/py"]
    import simcore
    simcore.run = simcore.Run(0)
    plain_id = builtins.id
    import TAT

    def simulated_id(x):
        return x._address if isinstance(x, TAT._Base) else plain_id(x)

    builtins.id = simulated_id  # the address of a tensor is the simulator's decision
    import scenarios
    return scenarios


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--repo", required=True)
    p.add_argument("--module", help="directory of the compiled module; without it the package runs on a stub")
    p.add_argument("--scenario", required=True)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--first", type=int, default=0)
    p.add_argument("--stride", type=int, default=1)
    p.add_argument("--count", type=int, default=1)
    p.add_argument("--time-limit", type=float, default=1e9)
    p.add_argument("--max-violations", type=int, default=1 << 30)
    p.add_argument("--samples", type=int, default=0)
    p.add_argument("--cpu-limit", type=float, default=20)
    p.add_argument("--log", action="store_true")
    p.add_argument("--hashes", action="store_true")
    p.add_argument("--serve", action="store_true")
    p.add_argument("--replay")
    a = p.parse_args()
    if a.module:
        sys.path[:0] = [a.module, os.path.join(HERE, "../bindsim"), HERE]
        import bind as scenarios
        scenarios.prepare()
    else:
        scenarios = stub(a.repo)
    gc.disable()  # when the collector runs is the simulator's decision
    gc.freeze()

    def execute(seed, choices, log):
        return one(scenarios, a.scenario, seed, choices, log, a.cpu_limit)

    def parse(line):
        return [int(x) for x in line.strip().split(",") if x]

    if a.serve:
        for line in sys.stdin:
            print(json.dumps(execute(None, parse(line), a.log)), flush=True)
        return 0
    if a.replay:
        print(json.dumps(execute(None, parse(open(a.replay).read()), a.log)), flush=True)
        return 0
    start = time.time()
    total = {"type": "summary", "runs": 0, "discarded": 0, "steps": 0, "simulated_s": 0.0, "nontrivial": 0, "counters": {}, "hashes": set(), "schedules": set()}
    violations = shown = 0
    for k in range(a.count):
        if time.time() - start > a.time_limit or violations >= a.max_violations:
            break
        i = a.first + k * a.stride
        seed = int.from_bytes(hashlib.sha256(("%d %d %s" % (a.seed, i, a.scenario)).encode()).digest()[:8], "big")
        r = execute(seed, None, a.log and (shown < a.samples or a.samples == 0))
        r["run"] = i
        total["runs"] += 1
        total["discarded"] += r["outcome"] == 1
        total["steps"] += r["steps"]
        total["nontrivial"] += r["nontrivial"]
        for c, v in r["counters"].items():
            x = total["counters"].setdefault(c, [0, 0])
            x[0] += v
            x[1] += 1
        if r["outcome"] != 1:
            total["schedules"].add(r["schedule"])
            if r["nontrivial"]:
                total["hashes"].add(r["hash"])
        if a.hashes:
            print(json.dumps({"type": "hash", "run": i, "hash": r["hash"], "outcome": r["outcome"]}))
        if r["outcome"] == 2:
            violations += 1
            print(json.dumps(r))
        elif shown < a.samples or a.count == 1:
            shown += 1
            print(json.dumps(r))
    total["hashes"] = sorted(total["hashes"])
    total["schedules"] = sorted(total["schedules"])
    print(json.dumps(total))
    return 0


if __name__ == "__main__":
    sys.exit(main())
