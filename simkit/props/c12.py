"""
C12: concurrent use of the library gives the sequential results.

Several threads describe, serialize, copy, compare and export shared objects, from a cold start and under seeded
interleavings; each result is compared with the one the same thread gets when it is alone in a new process.
"""
import json

from simkit import engine, objgen, observe, sched, seams

FOCUS = [None, None, None, "class", "object", "assembly", "workflow", "dataset", "state", "run", "run", "run"]
PREFIXES = [engine.REPO + "/", engine.VERIF + "/simkit/models.py"]


def gen(rng, tier):
    universe = observe.gen_universe(rng, size=rng.choice([1, 2, 3, 5]))
    n = rng.choice([2, 2, 3] if tier == "quick" else [2, 3, 4])
    focus = rng.choice(FOCUS)
    shared = [observe.gen_operation(rng, universe, focus) for _ in range(3)]
    clients = []
    for _ in range(n):
        clients.append([list(rng.choice(shared)) if rng.random() < 0.5 else observe.gen_operation(rng, universe, focus)
                        for _ in range(rng.choice([1, 1, 2, 3]))])
    return {"universe": universe, "clients": clients, "seam": seams.gen_seam(rng), "opcodes": rng.random() < 0.2,
            "schedules": [sched.gen_schedule(rng, n, tier, marks=True) for _ in range(6)], "shrink": ["schedules"]}


def describe(plan):
    return {"clients": plan["clients"], "schedules": [s[:4] for s in plan["schedules"][:3]], "opcodes": plan["opcodes"],
            "workflow": "workflow" in plan["universe"]}


def simplify(plan):
    for i, operations in enumerate(plan["clients"]):
        for j in range(len(operations)):
            candidate = json.loads(json.dumps(plan))
            del candidate["clients"][i][j]
            yield candidate
    if len(plan["schedules"]) == 1:
        schedule = plan["schedules"][0]
        size = len(schedule)
        while size > 1:
            size //= 2
            for i in range(0, len(schedule), size):
                candidate = json.loads(json.dumps(plan))
                candidate["schedules"] = [schedule[:i] + schedule[i + size:]]
                yield candidate


def make(plan):
    world = observe.Universe(plan["universe"])
    world.prepare([o for operations in plan["clients"] for o in operations])
    return world


def alone(payload, ctx):
    """ What one thread gets when it is alone. """
    plan, number = payload
    world = make(plan)
    return sched.survey(ctx, lambda: [observe.observe(world, *operation) for operation in plan["clients"][number]],
                        PREFIXES, plan["opcodes"])


def contend(payload, ctx):
    """ All threads at once, in a process where nothing was used before. """
    plan, schedule, answers = payload
    world = make(plan)
    before = world.view()

    def body(operations):
        return [observe.observe(world, *operation) for operation in operations]
    scheduler = sched.Scheduler(ctx, schedule, PREFIXES, plan["opcodes"], [marks for _, marks in answers])
    results = scheduler.run([lambda o=operations: body(o) for operations in plan["clients"]])
    for number, operations in enumerate(plan["clients"]):
        for operation, result, wanted in zip(operations, results[number], answers[number][0]):
            ctx.count("operations")
            ctx.state(operation[0], operation[2], operation[1] if operation[0] == "class" else 0)
            ctx.check(result == wanted, "differs-from-sequential:" + operation[2],
                      lambda: f"thread {number}, {operation}: {objgen.difference(wanted, result)}")
    ctx.check(world.view() == before, "objects-changed", "observing the objects changed them")


def run(plan, ctx):
    answers = [ctx.restart(__name__, "alone", (plan, i), plan["seam"]) for i in range(len(plan["clients"]))]
    for schedule in plan["schedules"]:
        ctx.count("interleavings")
        ctx.restart(__name__, "contend", (plan, schedule, answers), plan["seam"])
