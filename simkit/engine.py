"""
Simulation engine: seeds -> plans -> runs, violation shrinking, replay files, evidence.

A *plan* is a JSON document that contains everything a run depends on: workload, inputs, thread schedule, fault
sequence, clock behaviour, identity-hash order and string-hash seed.  `run(plan)` is a pure function of the plan and
of the code under test, so a replay file is a plan plus the violation it produces.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DESSIA_REPO", "/repo")
PYTHON = sys.executable
REAL_TIME = time.time
REAL_MONO = time.monotonic
N_WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
WATCHDOG_S = 180


class Violation(Exception):
    """ The property does not hold on this execution. """

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = str(message)[:2000]


class Watchdog(BaseException):
    """ A simulated run made no progress for far longer than any healthy run takes. """


class Ctx:
    """ Everything a run records: event digest, fault counts, distinct states, counters. """

    def __init__(self):
        self.digest = hashlib.sha256()
        self.events = []
        self.keep_events = False
        self.faults = {}
        self.states = set()
        self.counters = {}
        self.steps = 0
        self.simtime = 0.0
        self.scratch = None
        self.cleanups = []

    def ev(self, *data):
        text = repr(data)
        self.digest.update(text.encode("utf-8", "backslashreplace"))
        self.steps += 1
        if self.keep_events:
            self.events.append(text[:300])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.ev("fault", kind)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def state(self, *sig):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(sig).encode("utf-8", "backslashreplace"),
                                                       digest_size=7).digest(), "big"))

    def fail(self, kind, message=""):
        raise Violation(kind, message)

    def check(self, condition, kind, message=""):
        self.count("assertions")
        if not condition:
            raise Violation(kind, message() if callable(message) else message)

    def export(self):
        return {"digest": self.digest.hexdigest(), "events": self.events, "faults": self.faults,
                "states": list(self.states), "counters": self.counters, "steps": self.steps, "simtime": self.simtime}

    def merge(self, export):
        self.digest.update(export["digest"].encode())
        self.events.extend(export["events"])
        self.states.update(export["states"])
        self.steps += export["steps"]
        self.simtime += export["simtime"]
        for name in ("faults", "counters"):
            mine = getattr(self, name)
            for key, value in export[name].items():
                mine[key] = mine.get(key, 0) + value

    def restart(self, modname, fname, payload, seam=None, hashseed=None):
        """ Process restart: call modname.fname(payload, ctx) in a pristine process; payload is all that survives. """
        from simkit import zygote
        self.count("process-restarts")
        args = ("simkit.engine", "in_process", modname, fname, payload, seam or {}, self.keep_events)
        answer = zygote.isolated(*args) if hashseed is None else zygote.foreign(hashseed, *args[:2], args[2:])
        if answer[0] == "harness-error":
            raise RuntimeError(answer[1])
        if answer[0] != "done":
            raise Violation("process-" + answer[0], f"restarted process ended abnormally: {answer}")
        self.merge(answer[1]["export"])
        if answer[1]["violation"] is not None:
            raise Violation(*answer[1]["violation"])
        return answer[1]["result"]

    def tmp(self, *parts):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="run-", dir=os.environ.get("SIM_SCRATCH") or None)
        return os.path.join(self.scratch, *parts)

    def close(self):
        for cleanup in reversed(self.cleanups):
            cleanup()
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None


def scenario(property_id):
    """ Scenario module deciding a property. """
    return importlib.import_module(f"simkit.props.{property_id.lower()}")


def run_seed(property_id, base, index):
    text = f"{property_id}/{base}/{index}"
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def make_plan(mod, property_id, base, index, hashseed, tier):
    seed = run_seed(property_id, base, index)
    rng = random.Random(seed)
    plan = mod.gen(rng, tier)
    plan.update({"property": property_id, "seed": seed, "base_seed": base, "index": index, "hashseed": hashseed})
    return json.loads(json.dumps(plan))


def _alarm(signum, frame):
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_stack(frame)
             if f.filename.startswith(REPO + os.sep)]
    raise Watchdog(f"no answer within {WATCHDOG_S} s in {' > '.join(where[:1] + where[-4:])}")


def passes_through_repo(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    own = os.path.join(VERIF, "simkit") + os.sep
    if frames and frames[-1].filename.startswith(own) and not frames[-1].filename.endswith("models.py"):
        return False  # raised by the harness itself
    return any(f.filename.startswith(REPO + os.sep) for f in frames)


def guarded(ctx, body):
    """ Run body() as simulated code: anything the code under test raises unexpectedly is a violation. """
    try:
        return body(), None
    except Violation as exc:
        return None, exc
    except Watchdog as exc:
        return None, Violation("no-progress", str(exc))
    except Exception as exc:  # noqa
        if not passes_through_repo(exc):
            if isinstance(exc, (KeyError, IndexError, TypeError, ValueError)):
                # The check could not make sense of what the code under test answered
                return None, Violation("unreadable-answer", f"{exc!r}\n{traceback.format_exc()[-1500:]}")
            raise
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_tb(exc.__traceback__)
                 if f.filename.startswith(REPO)]
        return None, Violation("unexpected-exception:" + type(exc).__name__,
                               f"{exc!r} in {' > '.join(where[-4:])}\n{traceback.format_exc()[-1200:]}")


def in_process(modname, fname, payload, seam, keep_events=False):
    """ Body of one simulated process: fresh seams, call modname.fname(payload, ctx), export what was recorded. """
    from simkit import seams
    ctx = Ctx()
    ctx.keep_events = keep_events
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, WATCHDOG_S)
    result = None
    try:
        seams.reset(seam, ctx)
        fn = getattr(importlib.import_module(modname), fname)
        result, violation = guarded(ctx, lambda: fn(payload, ctx))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        seams.restore()
        ctx.close()
    if violation is not None:
        ctx.ev("violation", violation.kind)
    return {"result": result, "violation": None if violation is None else (violation.kind, violation.message),
            "export": ctx.export()}


def execute(mod, plan, keep_events=False):
    """ One simulated run in a fork of the pristine process. Returns (violation or None, ctx-like). """
    from simkit import zygote
    answer = zygote.isolated("simkit.engine", "in_process", mod.__name__, "run", plan, plan.get("seam", {}),
                             keep_events)
    ctx = Ctx()
    if answer[0] == "harness-error":
        raise RuntimeError(answer[1])
    if answer[0] != "done":
        return Violation("process-" + answer[0], f"simulated process ended abnormally: {answer}"), ctx
    ctx.merge(answer[1]["export"])
    violation = answer[1]["violation"]
    return (None if violation is None else Violation(*violation)), ctx


# ---------------------------------------------------------------------------------------------------------- shrinking
def _list_paths(node, path=()):
    """ Paths of every shrinkable list: keys named in plan['shrink'] (top level or dotted). """
    for key in node.get("shrink", []):
        cur, ok = node, True
        for part in key.split("."):
            if isinstance(cur, dict) and part in cur:
                cur = cur[part]
            else:
                ok = False
                break
        if ok and isinstance(cur, list):
            yield key


def _get(plan, key):
    for part in key.split("."):
        plan = plan[part]
    return plan


def _set(plan, key, value):
    plan = json.loads(json.dumps(plan))
    cur = plan
    parts = key.split(".")
    for part in parts[:-1]:
        cur = cur[part]
    cur[parts[-1]] = value
    return plan


def shrink(mod, plan, kind, budget_s=40.0, max_tries=400):
    """ Delta debugging over the plan's shrinkable lists, then scenario-specific simplifications. """
    deadline = REAL_MONO() + budget_s
    tries = 0

    def still_fails(candidate):
        nonlocal tries
        tries += 1
        try:
            violation, _ = execute(mod, candidate)
        except BaseException:  # noqa a candidate that breaks the harness is just not a smaller counterexample
            return False
        return violation is not None and violation.kind == kind

    def left():
        return REAL_MONO() < deadline and tries < max_tries

    best = plan
    changed = kind != "unreadable-answer"  # a reduced plan may be unreadable for reasons of its own
    while changed and left():
        changed = False
        if hasattr(mod, "simplify"):
            progress = True
            while progress and left():
                progress = False
                for candidate in mod.simplify(json.loads(json.dumps(best))):
                    if not left():
                        break
                    if still_fails(candidate):
                        best, progress, changed = candidate, True, True
                        break
        for key in list(_list_paths(best)):
            items = _get(best, key)
            size = max(1, len(items) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(items) and left():
                    candidate_items = items[:i] + items[i + size:]
                    candidate = _set(best, key, candidate_items)
                    if still_fails(candidate):
                        best, items, changed = candidate, candidate_items, True
                    else:
                        i += size
                size //= 2
    return best, tries


# ------------------------------------------------------------------------------------------------------------- workers
def silence():
    """ Library code prints and warns a lot: keep the check's own output readable. """
    import warnings
    warnings.simplefilter("ignore")
    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    return os.fdopen(real, "w")


def prepare(property_id):
    sys.setrecursionlimit(5000)
    from simkit import seams, zygote
    seams.install()
    mod = scenario(property_id) if property_id else None
    zygote.preload()
    return mod


def worker_main(args):
    out = silence()
    mod = prepare(args.property)
    result = {"runs": 0, "steps": 0, "simtime": 0.0, "faults": {}, "counters": {}, "samples": [], "violation": None,
              "digests": {}, "nontrivial": 0}
    states = set()
    deadline = REAL_MONO() + args.seconds
    for index in range(args.start, args.runs, args.stride):
        if REAL_MONO() > deadline:
            break
        plan = make_plan(mod, args.property, args.seed, index, args.hashseed, args.tier)
        if os.environ.get("SIM_TRACE_RUNS"):
            print(json.dumps({"running": index}), file=sys.stderr, flush=True)
        violation, ctx = execute(mod, plan)
        result["runs"] += 1
        result["steps"] += ctx.steps
        result["simtime"] += ctx.simtime
        for name in ("faults", "counters"):
            for key, value in getattr(ctx, name).items():
                result[name][key] = result[name].get(key, 0) + value
        if len(states) < 400000:
            states |= ctx.states
        if result["runs"] <= 2:
            result["digests"][str(index)] = ctx.digest.hexdigest()
            sample = mod.describe(plan) if hasattr(mod, "describe") else {k: plan[k] for k in plan.get("shrink", [])}
            result["samples"].append({"index": index, "seed": plan["seed"], "plan": json.dumps(sample)[:700]})
        if violation is not None:
            result["violation"] = {"kind": violation.kind, "message": violation.message, "plan": plan}
            break
    result["states"] = sorted(states)
    with open(args.out, "w", encoding="utf-8") as file:
        json.dump(result, file)
    out.close()
    return 0


def one_main(args):
    """ Execute one replay file / plan (optionally shrink it) in this process. """
    out = silence()
    with open(args.file, "r", encoding="utf-8") as file:
        doc = json.load(file)
    plan = doc["plan"] if "plan" in doc else doc
    mod = prepare(plan["property"])
    answer = {}
    if args.shrink:
        kind = doc["violation"]["kind"]
        plan, tries = shrink(mod, plan, kind, budget_s=args.seconds)
        answer["shrink_tries"] = tries
    violation, ctx = execute(mod, plan, keep_events=True)
    answer.update({"plan": plan, "digest": ctx.digest.hexdigest(), "steps": ctx.steps,
                   "events": ctx.events[-400:], "faults": ctx.faults,
                   "violation": None if violation is None else {"kind": violation.kind,
                                                                "message": violation.message}})
    if args.out:
        with open(args.out, "w", encoding="utf-8") as file:
            json.dump(answer, file, indent=1)
    else:
        print(json.dumps(answer, indent=1), file=out)
    out.close()
    return 0


def child_env(scratch, hashseed):
    env = dict(os.environ)
    env.update({"PYTHONPATH": f"{VERIF}:{REPO}", "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "agg",
                "BROWSER": "true", "MPLCONFIGDIR": os.path.join(scratch, "mpl"), "HOME": scratch, "LC_ALL": "C.UTF-8",
                "TMPDIR": scratch, "SIM_SCRATCH": scratch, "TZ": "UTC"})
    return env


def run_child(argv, scratch, hashseed, timeout):
    return subprocess.run([PYTHON, "-m", "simkit", *argv], env=child_env(scratch, hashseed), cwd=scratch,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, check=False)


# --------------------------------------------------------------------------------------------------------------- check
def load_known(property_id):
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file:
            for line in file:
                line = line.strip()
                if line.startswith("known: "):
                    doc = json.loads(line[len("known: "):])
                    if doc["property"] == property_id:
                        known.append(doc)
    return known


def check_main(args):
    started = REAL_MONO()
    mod = scenario_info(args.property)
    tier = args.tier
    budget = mod["budget"][tier]
    runs = args.runs or budget["runs"]
    seconds = args.seconds or budget["seconds"]
    seed = int(os.environ.get("VERIF_SEED", "1")) if args.seed is None else args.seed
    scratch = tempfile.mkdtemp(prefix=f"sim-{args.property}-")
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    code = 0
    try:
        known = load_known(args.property)
        violations, notes = [], []
        # 1. pinned plans of repaired defects and known findings
        corpus_dir = os.path.join(VERIF, "corpus", args.property)
        corpus = sorted(os.listdir(corpus_dir)) if os.path.isdir(corpus_dir) else []
        corpus_runs = 0
        procs = []
        for name in corpus:
            path = os.path.join(corpus_dir, name)
            with open(path, encoding="utf-8") as file:
                plan = json.load(file)["plan"]
            out = os.path.join(scratch, f"corpus-{name}")
            procs.append((name, path, out, subprocess.Popen(
                [PYTHON, "-m", "simkit", "one", path, "--out", out], cwd=scratch,
                env=child_env(scratch, plan.get("hashseed", 0)), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            if len(procs) % N_WORKERS == 0:
                for item in procs:
                    item[3].wait()
        for name, path, out, proc in procs:
            _, err = proc.communicate(timeout=400)
            if not os.path.exists(out):
                return harness_error(args.property, f"corpus {name}", err)
            corpus_runs += 1
            with open(out, encoding="utf-8") as file:
                answer = json.load(file)
            expected = [k for k in known if k["corpus"] == name]
            if answer["violation"] is None:
                if expected:
                    notes.append(f"known finding {name} no longer reproduces")
            elif expected and answer["violation"]["kind"] == expected[0]["kind"]:
                print(f"KNOWN-FINDING: property={args.property} {expected[0]['what']}")
            else:
                violations.append({"kind": answer["violation"]["kind"], "message": answer["violation"]["message"],
                                   "plan": answer["plan"], "corpus": name})
        # 2. seeded search
        merged = {"runs": 0, "steps": 0, "simtime": 0.0, "faults": {}, "counters": {}, "samples": [], "digests": {}}
        states = set()
        if not violations:
            workers = []
            for k in range(N_WORKERS):
                out = os.path.join(scratch, f"w{k}.json")
                argv = ["worker", "--property", args.property, "--tier", tier, "--seed", str(seed), "--start", str(k),
                        "--stride", str(N_WORKERS), "--runs", str(runs), "--hashseed", str(k + 1),
                        "--seconds", str(seconds), "--out", out]
                err = open(os.path.join(scratch, f"w{k}.err"), "wb")
                workers.append((k, out, subprocess.Popen([PYTHON, "-m", "simkit", *argv],
                                                         env=child_env(scratch, k + 1), cwd=scratch,
                                                         stdout=subprocess.DEVNULL, stderr=err)))
            pending = list(workers)
            while pending:
                time.sleep(0.05)
                for item in list(pending):
                    k, out, proc = item
                    if proc.poll() is None:
                        continue
                    pending.remove(item)
                    if not os.path.exists(out):
                        for other in pending:
                            other[2].kill()
                        with open(os.path.join(scratch, f"w{k}.err"), "rb") as file:
                            return harness_error(args.property, f"worker {k} rc={proc.returncode}", file.read())
                    with open(out, encoding="utf-8") as file:
                        result = json.load(file)
                    for key in ("runs", "steps", "simtime"):
                        merged[key] += result[key]
                    for name in ("faults", "counters"):
                        for key, value in result[name].items():
                            merged[name][key] = merged[name].get(key, 0) + value
                    states.update(result["states"])
                    merged["samples"].extend(result["samples"][:1])
                    merged["digests"].update({i: (k + 1, d) for i, d in result["digests"].items()})
                    if result["violation"]:
                        violations.append(result["violation"])
                        for other in pending:
                            other[2].kill()
                        for other in pending:
                            other[2].wait()
                        pending = []
                        break
        # 3. determinism self-check: re-run two plans in fresh processes, compare event digests
        repro = {"checked": 0, "mismatch": 0}
        if not violations:
            for index, (hashseed, digest) in sorted(merged["digests"].items(), key=lambda kv: int(kv[0]))[:2]:
                path = os.path.join(scratch, f"det{index}.json")
                out = path + ".out"
                plan_argv = ["plan", "--property", args.property, "--seed", str(seed), "--index", index, "--tier", tier,
                             "--hashseed", str(hashseed), "--out", path]
                run_child(plan_argv, scratch, hashseed, 300)
                run_child(["one", path, "--out", out], scratch, hashseed, 400)
                with open(out, encoding="utf-8") as file:
                    repro["checked"] += 1
                    repro["mismatch"] += json.load(file)["digest"] != digest
        # 4. report
        if violations:
            code = 1
            violation = violations[0]
            plan = violation["plan"]
            raw = os.path.join(scratch, "raw.json")
            with open(raw, "w", encoding="utf-8") as file:
                json.dump({"plan": plan, "violation": {"kind": violation["kind"]}}, file)
            out = os.path.join(scratch, "shrunk.json")
            replay = os.path.join(replay_dir, f"{args.property}-{plan.get('seed', 0)}.json")
            doc = {"property": args.property, "violation": {k: violation[k] for k in ("kind", "message")},
                   "plan": plan, "original_plan": plan, "minimised": False}
            try:
                run_child(["one", raw, "--shrink", "--seconds", "40", "--out", out], scratch, plan["hashseed"], 300)
                with open(out, encoding="utf-8") as file:
                    answer = json.load(file)
                if answer["violation"] and answer["violation"]["kind"] == violation["kind"]:
                    doc.update({"plan": answer["plan"], "violation": answer["violation"], "minimised": True,
                                "digest": answer["digest"], "events": answer["events"], "faults": answer["faults"],
                                "shrink_tries": answer["shrink_tries"]})
            except (subprocess.TimeoutExpired, OSError, ValueError):
                pass
            with open(replay, "w", encoding="utf-8") as file:
                json.dump(doc, file, indent=1)
            print(f"{args.property}: {doc['violation']['kind']}: {doc['violation']['message']}")
            print(f"VIOLATION property={args.property} replay={replay}")
        wall = REAL_MONO() - started
        write_evidence(args.property, tier, seed, mod, merged, states, corpus_runs, repro, violations, notes, wall, known)
        if code == 0:
            print(f"{args.property}: held on {merged['runs']} simulated runs ({merged['steps']} steps, "
                  f"{len(states)} distinct states, {sum(merged['faults'].values())} faults) in {wall:.1f} s")
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def harness_error(property_id, where, err):
    text = (err or b"").decode("utf-8", "replace")[-4000:]
    print(f"{property_id}: HARNESS-ERROR in {where}\n{text}")
    return 3


def scenario_info(property_id):
    """ Static description of the scenario, without importing the code under test in this process. """
    path = os.path.join(VERIF, "simkit", "props", f"{property_id.lower()}.json")
    with open(path, encoding="utf-8") as file:
        return json.load(file)


def write_evidence(property_id, tier, seed, info, merged, states, corpus_runs, repro, violations, notes, wall, known):
    runs = merged["runs"]
    hours = max(wall, 1e-6) / 3600
    coverage = {
        "evaluations": runs + corpus_runs,
        "distinct_nontrivial": len(states),
        "rule": info["measure"],
        "samples": [s["plan"] for s in merged["samples"][:5]] or ["(no run)"],
        "simulated_runs": runs, "simulated_runs_per_hour": int(runs / hours), "seeds_per_hour": int(runs / hours),
        "simulated_steps": merged["steps"], "simulated_time_s": round(merged["simtime"], 3),
        "faults_injected": merged["faults"], "counters": merged["counters"],
        "pinned_plans": corpus_runs, "determinism_self_check": repro,
        "components_real": info["real"], "components_stubbed": info["stubs"],
        "notes": notes, "violation_kinds": [v["kind"] for v in violations],
    }
    doc = {"property": property_id, "tier": tier, "seed": seed, "level": info["level"], "coverage": coverage,
           "wall_s": round(wall, 3), "assumptions": info["assumptions"],
           "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{property_id}.json"), "w", encoding="utf-8") as file:
        json.dump(doc, file, indent=1)


def plan_main(args):
    mod = prepare(args.property)
    plan = make_plan(mod, args.property, args.seed, args.index, args.hashseed, args.tier)
    with open(args.out, "w", encoding="utf-8") as file:
        json.dump({"plan": plan}, file, indent=1)
    return 0


def sibling_main(args):
    from simkit import zygote
    silence()
    prepare(None)
    return zygote.sibling_main(args.fd)


def replay_main(args):
    """ Replay a file exactly: same interpreter hash seed, same plan. Exit 1 when the violation reproduces. """
    with open(args.file, encoding="utf-8") as file:
        doc = json.load(file)
    scratch = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        out = os.path.join(scratch, "answer.json")
        proc = run_child(["one", os.path.abspath(args.file), "--out", out], scratch, doc["plan"]["hashseed"], 400)
        if not os.path.exists(out):
            return harness_error(doc["plan"]["property"], "replay", proc.stderr)
        with open(out, encoding="utf-8") as file:
            answer = json.load(file)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for event in answer["events"]:
        print("  ", event)
    if answer["violation"] is None:
        print("no violation on replay")
        return 0
    same = doc.get("digest") in (None, answer["digest"])
    print(f"{answer['violation']['kind']}: {answer['violation']['message']}")
    print(f"replay {'identical to the recorded execution' if same else 'differs from the recorded execution'}")
    print(f"VIOLATION property={doc['plan']['property']} replay={args.file}")
    return 1


def main():
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest="command", required=True)
    p_check = sub.add_parser("check")
    p_check.add_argument("property")
    p_check.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p_check.add_argument("--seed", type=int)
    p_check.add_argument("--runs", type=int)
    p_check.add_argument("--seconds", type=float)
    p_worker = sub.add_parser("worker")
    for name, type_ in (("property", str), ("tier", str), ("seed", int), ("start", int), ("stride", int),
                        ("runs", int), ("hashseed", int), ("seconds", float), ("out", str)):
        p_worker.add_argument(f"--{name}", type=type_, required=True)
    p_one = sub.add_parser("one")
    p_one.add_argument("file")
    p_one.add_argument("--shrink", action="store_true")
    p_one.add_argument("--seconds", type=float, default=40)
    p_one.add_argument("--out")
    p_plan = sub.add_parser("plan")
    for name, type_ in (("property", str), ("tier", str), ("seed", int), ("index", int), ("hashseed", int),
                        ("out", str)):
        p_plan.add_argument(f"--{name}", type=type_, required=True)
    p_sibling = sub.add_parser("sibling")
    p_sibling.add_argument("--fd", type=int, required=True)
    p_replay = sub.add_parser("replay")
    p_replay.add_argument("file")
    args = parser.parse_args()
    return {"check": check_main, "worker": worker_main, "one": one_main, "plan": plan_main,
            "replay": replay_main, "sibling": sibling_main}[args.command](args)


