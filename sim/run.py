"""Entry point of every check.

  run.py check PROPERTY [--tier quick|thorough] [--runs N] [--workers N] [--seed N] [--wall S]
  run.py replay FILE            execute a replay file; exit 1 and a VIOLATION line if it fails
  run.py selftest [PROPERTY..]  determinism: same seeds, other worker count and hash seed

Exit status: 0 held on everything explored, 1 violation, 2 error of the harness.
"""

import argparse
import hashlib
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import control  # noqa: E402
import proto  # noqa: E402
import registry  # noqa: E402


# ------------------------------------------------------------------ executing one plan
def execute(prop, plan, env):
    """Returns a JSON-able outcome"""
    engine = registry.engine(prop)
    history = control.History()
    outcome = {"violation": None, "error": None}
    try:
        engine.execute(plan, env, history)
    except control.Violation as exc:
        outcome["violation"] = {"kind": exc.kind, "detail": str(exc.detail)[:4000]}
        history.event("violation", exc.kind)
    except control.HarnessError as exc:
        outcome["error"] = "%s" % exc
    except Exception:
        outcome["error"] = traceback.format_exc()
    finally:
        try:
            env.cleanup()
        except Exception:
            outcome["error"] = outcome["error"] or traceback.format_exc()
    outcome["digest"] = history.digest()
    outcome["faults"] = history.faults
    outcome["probes"] = history.probes
    outcome["marks"] = sorted(history.marks)
    outcome["steps"] = history.steps
    outcome["time"] = history.time
    if outcome["violation"]:
        outcome["tail"] = history.tail[-40:]
    return outcome


def make_plan(prop, seed, tier, index):
    rng = control.rng_for(seed, prop, index)
    plan = registry.engine(prop).plan(rng, prop, tier, index)
    # a plan is exactly what a replay file holds
    return json.loads(json.dumps(plan))


def worker(sock, zygotes, prop, seed, tier):
    env = control.Env(zygotes)
    while True:
        try:
            message = proto.recv(sock)
        except proto.Gone:
            os._exit(0)
        if message[0] == "run":
            started = time.time()
            try:
                plan = make_plan(prop, seed, tier, message[1])
            except Exception:
                proto.send(sock, (message, {"error": traceback.format_exc()}))
                continue
            outcome = execute(prop, plan, env)
            outcome["wall"] = time.time() - started
            if outcome["violation"] or outcome["error"]:
                outcome["plan"] = plan
            elif message[1] < 2:
                outcome["sample"] = json.dumps(plan)[:1500]
            proto.send(sock, (message, outcome))
        elif message[0] == "plan":
            proto.send(sock, (message[:1], execute(prop, message[1], env)))


class Pool:
    """Hosts and workers for one property"""

    def __init__(self, prop, seed, tier, workers):
        self.scratch = tempfile.mkdtemp(prefix="simrun-")
        self.hosts, self.socks, self.pids = [], [], []
        engine = registry.engine(prop)
        zygotes = [dict() for _ in range(workers)]
        for mode in engine.modes(prop):
            process, socks = control.start_host(
                mode, engine.NODE, engine.params(prop), self.scratch, workers
            )
            self.hosts.append(process)
            for i, sock in enumerate(socks):
                zygotes[i][mode] = control.Zygote(sock, mode)
        for i in range(workers):
            mine, theirs = proto.pair()
            pid = os.fork()
            if pid == 0:
                try:
                    mine.close()
                    for sock in self.socks:
                        sock.close()
                    for j, group in enumerate(zygotes):
                        if j != i:
                            for zygote in group.values():
                                zygote.sock.close()
                    worker(theirs, zygotes[i], prop, seed, tier)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(3)
            theirs.close()
            self.pids.append(pid)
            self.socks.append(mine)
        for group in zygotes:
            for zygote in group.values():
                zygote.sock.close()

    def log(self):
        text = ""
        for name in sorted(os.listdir(self.scratch)):
            if name.endswith(".log"):
                with open(os.path.join(self.scratch, name), errors="replace") as handle:
                    content = handle.read()
                if content:
                    text += "--- %s\n%s\n" % (name, content[-3000:])
        return text

    def close(self):
        for sock in self.socks:
            sock.close()
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        for process in self.hosts:
            try:
                os.killpg(process.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            process.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def stream(self, jobs, on_result, deadline):
        """Hand jobs to free workers until they run out, on_result returns True, or time is up"""
        jobs = iter(jobs)
        selector = selectors.DefaultSelector()
        busy = {}
        stopped = False

        def feed(sock):
            nonlocal stopped
            if stopped or time.time() > deadline:
                stopped = True
                return
            try:
                job = next(jobs)
            except StopIteration:
                stopped = True
                return
            proto.send(sock, job)
            busy[sock] = job
            selector.register(sock, selectors.EVENT_READ)

        for sock in self.socks:
            feed(sock)
        while busy:
            for key, _ in selector.select():
                sock = key.fileobj
                try:
                    _, outcome = proto.recv(sock)
                except proto.Gone as exc:
                    raise control.HarnessError("a worker died") from exc
                selector.unregister(sock)
                job = busy.pop(sock)
                if on_result(job, outcome):
                    stopped = True
                feed(sock)
        selector.close()


# ------------------------------------------------------------------ minimising
def shrink(pool, prop, plan, kind, deadline):
    """ddmin over the plan's lists, then the engine's simplifications; parallel"""
    engine = registry.engine(prop)
    tried = {}

    def key(candidate):
        return hashlib.sha256(json.dumps(candidate, sort_keys=True).encode()).hexdigest()

    def first_failing(candidates):
        candidates = [c for c in candidates if key(c) not in tried]
        for start in range(0, len(candidates), len(pool.socks)):
            chunk = candidates[start : start + len(pool.socks)]
            results = {}

            def on_result(job, outcome):
                results[id(job[1])] = outcome
                return False

            if time.time() > deadline:
                return None
            pool.stream([("plan", c) for c in chunk], on_result, deadline)
            for c in chunk:
                outcome = results.get(id(c))
                if outcome is None:
                    continue
                tried[key(c)] = True
                violation = outcome["violation"]
                if violation and violation["kind"] == kind:
                    return c
        return None

    changed = True
    while changed and time.time() < deadline:
        changed = False
        for path in engine.lists(plan):
            try:
                length = len(get_path(plan, path))
            except (IndexError, KeyError):  # a list around this one became shorter
                continue
            size = max(1, length // 2)
            while length and time.time() < deadline:
                candidates = []
                for start in range(0, length, size):
                    candidate = json.loads(json.dumps(plan))
                    del get_path(candidate, path)[start : start + size]
                    candidates.append(candidate)
                found = first_failing(candidates)
                if found is not None:
                    plan, changed = found, True
                    length = len(get_path(plan, path))
                    size = max(1, min(size, length // 2))
                elif size == 1:
                    break
                else:
                    size = max(1, size // 2)
        while time.time() < deadline:
            found = first_failing(json.loads(json.dumps(list(engine.simplify(plan)))))
            if found is None:
                break
            plan, changed = found, True
    return plan, len(tried)


def get_path(plan, path):
    for part in path:
        plan = plan[part]
    return plan


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    found = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                # finding: property=ID match=<text the violation must contain> :: what fails
                body = line.split(" match=", 1)[1]
                match, text = body.split(" :: ", 1)
                found.append((match, text.strip()))
    return found


# ------------------------------------------------------------------ check
def check(args):
    prop, tier, seed = args.property, args.tier, args.seed
    started = time.time()
    spec = registry.SPECS[prop]
    engine = registry.engine(prop)
    runs = args.runs or spec[tier]
    budget = args.wall or spec.get("wall_" + tier, 110 if tier == "quick" else 3000)
    print("seed=%d property=%s tier=%s runs=%d" % (seed, prop, tier, runs), flush=True)
    pool = Pool(prop, seed, tier, args.workers)
    known = known_findings(prop)
    totals = {"faults": {}, "probes": {}, "marks": set(), "steps": 0, "time": 0.0, "done": 0}
    digests = {}
    failing, errors, samples, known_hit = {}, [], [], set()
    shapes = set()

    def on_result(job, outcome):
        index = job[1]
        if outcome.get("error"):
            errors.append((index, outcome["error"]))
            return True
        totals["done"] += 1
        digests[index] = outcome["digest"]
        for name in ("faults", "probes"):
            for kind, count in outcome[name].items():
                totals[name][kind] = totals[name].get(kind, 0) + count
        totals["marks"].update(outcome["marks"])
        totals["steps"] += outcome["steps"]
        totals["time"] += outcome["time"]
        if outcome["steps"] > 1:
            shapes.add(outcome["digest"])
        if "sample" in outcome:
            samples.append(outcome["sample"])
        violation = outcome["violation"]
        if violation:
            for match, text in known:
                if match in violation["kind"] + " " + violation["detail"]:
                    known_hit.add(text)
                    return False
            failing[index] = outcome
            return True
        return False

    status = 0
    try:
        pool.stream((("run", i) for i in range(runs)), on_result, started + budget)
        explored = time.time() - started
        for text in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if failing:
            index = min(failing)
            outcome = failing[index]
            kind = outcome["violation"]["kind"]
            print("run %d: %s: %s" % (index, kind, outcome["violation"]["detail"]), flush=True)
            path = report(pool, args, index, outcome)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            status = 1
        elif errors:
            print("harness error in run %d:\n%s" % errors[0], file=sys.stderr)
            print(pool.log(), file=sys.stderr)
            status = 2
        elif totals["done"] == 0:
            print("nothing was explored\n" + pool.log(), file=sys.stderr)
            status = 2
    finally:
        pool.close()
    if args.digests:
        with open(args.digests, "w") as handle:
            json.dump({str(k): v for k, v in sorted(digests.items())}, handle)
    if args.evidence and status in (0, 1):
        wall = time.time() - started
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": totals["done"],
                "distinct_nontrivial": len(shapes),
                "rule": spec["rule"]
                + " A run is counted as distinct and non-trivial by the hash of its whole event "
                "log (scheduling decisions, faults, operations and results).",
                "samples": samples or ["(none)"],
                "simulated_runs_per_hour": int(totals["done"] * 3600 / max(explored, 0.001)),
                "seeds": "run i uses sha256(VERIF_SEED/property/i), i=0..%d" % (runs - 1),
                "simulated_steps": totals["steps"],
                spec.get("time_name", "simulated_time"): round(totals["time"], 3),
                "faults_injected": dict(sorted(totals["faults"].items())),
                "probes": dict(sorted(totals["probes"].items())),
                spec.get("marks_name", "distinct_states"): len(totals["marks"]),
                "real_components": engine.REAL,
                "stub_components": engine.STUB,
                "explored_s": round(explored, 2),
                "requested_runs": runs,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(failing),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as handle:
            json.dump(evidence, handle, indent=1)
    print(
        "%s: %d runs, %d distinct, %d steps, faults %s, %.1f s"
        % (prop, totals["done"], len(shapes), totals["steps"], totals["faults"], time.time() - started)
    )
    return status


def report(pool, args, index, outcome):
    """Minimise, write the replay file, replay it in fresh processes"""
    prop, plan, kind = args.property, outcome["plan"], outcome["violation"]["kind"]
    directory = os.path.join(VERIF, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "%s-%d-%d.json" % (prop, args.seed, index))

    def write(plan, outcome, note):
        with open(path, "w") as handle:
            json.dump(
                {
                    "property": prop,
                    "verif_seed": args.seed,
                    "tier": args.tier,
                    "run": index,
                    "violation": outcome["violation"],
                    "digest": outcome["digest"],
                    "note": note,
                    "faults": outcome["faults"],
                    "trace": outcome.get("tail", []),
                    "plan": plan,
                },
                handle,
                indent=1,
            )

    write(plan, outcome, "as found")
    small, tried = plan, 0
    if not args.no_shrink:
        limit = 30 if args.tier == "quick" else 300
        small, tried = shrink(pool, prop, plan, kind, time.time() + limit)
    fresh = []

    def on_result(job, result):
        fresh.append(result)
        return True

    pool.stream([("plan", small)], on_result, time.time() + 600)
    final = fresh[0] if fresh else None
    if final and final["violation"] and final["violation"]["kind"] == kind:
        write(small, final, "minimised with %d executions" % tried)
    for _ in range(2):
        done = subprocess.run(
            [sys.executable, "-B", os.path.abspath(__file__), "replay", path],
            capture_output=True,
            text=True,
            timeout=600,
        )
        if done.returncode == 1:
            print("replayed in fresh processes: " + done.stdout.strip().splitlines()[-1])
            return path
        write(plan, outcome, "as found; the minimised plan did not fail again")
    write(plan, outcome, "as found; DID NOT FAIL AGAIN in fresh processes:\n" + done.stdout[-2000:])
    return path


def replay(args):
    with open(args.file) as handle:
        record = json.load(handle)
    prop = record["property"]
    pool = Pool(prop, record["verif_seed"], record["tier"], 1)
    results = []
    try:
        pool.stream(
            [("plan", record["plan"])],
            lambda job, outcome: results.append(outcome),
            time.time() + 600,
        )
        outcome = results[0]
        if outcome["error"]:
            print(outcome["error"], file=sys.stderr)
            print(pool.log(), file=sys.stderr)
            return 2
    finally:
        pool.close()
    for line in outcome.get("tail", []) if args.verbose else []:
        print("  " + line)
    if outcome["violation"]:
        same = outcome["digest"] == record["digest"]
        print(json.dumps(outcome["violation"], indent=1))
        print("event log identical to the recorded one: %s" % same)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(args.file)))
        return 1
    print("no violation")
    return 0


def selftest(args):
    """The same runs with other worker counts, hash seeds and processes give the same logs"""
    bad = 0
    for prop in args.properties or sorted(registry.SPECS):
        logs = []
        directory = tempfile.mkdtemp(prefix="simself-")
        try:
            for workers, hashseed in ((8, "0"), (3, "12345"), (8, "777")):
                path = os.path.join(directory, "d%d-%s" % (workers, hashseed))
                env = dict(os.environ, SIM_HASHSEED=hashseed, PYTHONHASHSEED=hashseed)
                done = subprocess.run(
                    [sys.executable, "-B", os.path.abspath(__file__), "check", prop]
                    + ["--runs", str(args.runs), "--workers", str(workers)]
                    + ["--seed", str(args.seed), "--no-evidence", "--digests", path]
                    + ["--wall", "1200"],
                    env=env,
                    capture_output=True,
                    text=True,
                )
                if done.returncode:
                    print(done.stdout[-2000:], done.stderr[-2000:])
                    bad += 1
                    break
                logs.append(json.load(open(path)))
            else:
                differing = [k for k in logs[0] if any(log.get(k) != logs[0][k] for log in logs)]
                print("%s: %d runs x 3, %d differ %s" % (prop, len(logs[0]), len(differing), differing[:5]), flush=True)
                bad += bool(differing)
        finally:
            shutil.rmtree(directory, ignore_errors=True)
    return 2 if bad else 0


def main():
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest="command", required=True)
    p = sub.add_parser("check")
    p.add_argument("property", choices=sorted(registry.SPECS))
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--runs", type=int)
    p.add_argument("--wall", type=float)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--digests")
    p.add_argument("--no-evidence", dest="evidence", action="store_false")
    p.add_argument("--no-shrink", action="store_true")
    p = sub.add_parser("replay")
    p.add_argument("file")
    p.add_argument("--verbose", action="store_true")
    p = sub.add_parser("selftest")
    p.add_argument("properties", nargs="*")
    p.add_argument("--runs", type=int, default=100)
    p.add_argument("--seed", type=int, default=7)
    args = parser.parse_args()
    try:
        return {"check": check, "replay": replay, "selftest": selftest}[args.command](args)
    except control.HarnessError as exc:
        print("harness error: %s" % exc, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
