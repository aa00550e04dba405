"""
C13: results do not depend on memory layout, hash seed or clock.

The same program is executed in several simulated processes which differ in nothing but the identity hashes of the
library objects (their addresses), the string hash seed of the interpreter, the addresses of everything else and the
clock; the observable results are compared.
"""
import json
import re

from simkit import objgen, observe, seams, wfgen

FOCUS = [None, None, "workflow", "workflow", "workflow", "state", "run", "dataset", "object", "assembly", "class"]
CLOCKED = re.compile(r"\|[^\n|]*(?:[Tt]ime|[Dd]uration|[Ss]tart|[Ee]nd)[^\n]*\n?")
EXTRA = {"workflow": ["trace", "trace", "steps", "steps", "layout", "upstream", "runtime", "branches", "memo", "matches", "method_schemas",
                      "graph", "script"], "state": ["resume", "resume", "activable", "load"]}


def gen(rng, tier):
    universe = observe.gen_universe(rng, blocks=(2, 4, 6, 9))
    if "workflow" not in universe and rng.random() < 0.5:
        universe = observe.gen_universe(rng, blocks=(2, 4, 6, 9))
    focus = rng.choice(FOCUS)
    operations = []
    for _ in range(rng.choice([4, 6, 10, 16])):
        operation = observe.gen_operation(rng, universe, focus if rng.random() < 0.7 else None)
        if rng.random() < 0.35 and operation[0] in EXTRA:
            operation[2] = rng.choice(EXTRA[operation[0]])
        if operation[2] != "hash":
            operations.append(operation)
    seam = seams.gen_seam(rng)
    variants = []
    for i in range(3 if tier == "quick" else 4):
        other = seams.gen_seam(rng)
        variants.append({"layout": rng.getrandbits(32), "ballast": [rng.choice([16, 48, 64, 400]) for _ in range(rng.randrange(40))],
                         "clock": other["clock"] if rng.random() < 0.5 else seam["clock"],
                         "hashseed": 1001 if i == 0 else 1002 if i == 3 else None})
    return {"universe": universe, "operations": operations, "edits": gen_edits(rng) if rng.random() < 0.6 else [], "seam": seam,
            "variants": variants, "shrink": ["operations", "edits", "variants"]}


def gen_edits(rng):
    """ Modifications of the workflow before the results are looked at. """
    return [[rng.choice(["add_step", "insert_step", "to_step", "to_step", "spare", "remove_step", "reorder", "lock", "unlock",
                         "label", "display", "copy", "reload"]), rng.randrange(6), rng.randrange(6)]
            for _ in range(rng.choice([1, 3, 6, 10]))]


def edit(world, edits):
    """ Perform the edits; what is refused is a result too. """
    journal = []
    for action, a, b in edits:
        workflow = world.workflow
        steps = workflow.steps
        try:
            if action == "add_step":
                workflow.insert_step(label=f"step {a}")
            elif action == "insert_step":
                workflow.insert_step(label=f"inserted {b}", step_index=a % (len(steps) + 1))
            elif action == "to_step" and steps:
                workflow.change_input_step(b % len(workflow.inputs), a % len(steps))
            elif action == "spare" and steps:
                workflow.reset_steps() if b == 0 else workflow.remove_input_from_step(b % len(workflow.inputs))
            elif action == "remove_step" and steps:
                workflow.remove_step(a % len(steps))
            elif action == "reorder" and len(steps) > 1:
                order = list(range(len(steps)))
                order.insert(a % len(steps), order.pop(b % len(steps)))
                workflow.reorder_steps(order)
            elif action == "lock":
                workflow.lock_input(a % len(workflow.inputs), b)
            elif action == "unlock":
                workflow.inputs[a % len(workflow.inputs)].unlock()
            elif action == "label":
                workflow.rename_input(a % len(workflow.inputs), f"label {b}")
            elif action == "display" and steps:
                workflow.add_step_display(b % len(workflow.variables), a % len(steps), "Markdown")
            elif action == "copy":
                world.workflow = workflow.copy()
            elif action == "reload":
                world.workflow = type(workflow).dict_to_object(json.loads(json.dumps(workflow.to_dict())))
            journal.append("done")
        except Exception as exc:  # noqa
            journal.append([type(exc).__name__, observe.ADDRESS.sub("0x", str(exc))])
    return journal


def describe(plan):
    return {"operations": plan["operations"], "edits": plan["edits"], "workflow": plan["universe"].get("workflow"),
            "variants": [[v["hashseed"], v["clock"]["steps"][:3]] for v in plan["variants"]]}


def simplify(plan):
    if "workflow" in plan["universe"] and not any(o[0] in ("workflow", "run", "state") for o in plan["operations"]):
        candidate = json.loads(json.dumps(plan))
        for key in ("workflow", "inputs", "given"):
            del candidate["universe"][key]
        yield candidate
    for variant in plan["variants"]:
        for key, value in (("ballast", []), ("hashseed", None), ("layout", 1), ("clock", plan["seam"]["clock"])):
            if variant[key] != value:
                candidate = json.loads(json.dumps(plan))
                candidate["variants"][plan["variants"].index(variant)][key] = value
                yield candidate


def scrub(value):
    """ Leave out what the clock is allowed to change: logs, execution times. """
    if isinstance(value, dict):
        items = value.get("items")
        if isinstance(items, list):
            return {"items": [[k, scrub(v)] for k, v in items if k not in ("log", "execution_info")]}
        return {k: scrub(v) for k, v in value.items() if k not in ("log", "execution_info")}
    if isinstance(value, list):
        return [scrub(v) for v in value]
    if isinstance(value, str):
        return CLOCKED.sub("", value)
    return value


def extra(world, kind, operation):
    """ Observations of this property alone: orders. """
    subject = world.subject(kind, 0)
    if operation == "trace":
        state = subject.start_run(dict(world.values))
        return [[b.name for b in state.continue_run()], wfgen.canon(state.output_value)]
    if operation == "steps":
        return [[s.label, [[v.name, v.label] for v in s.inputs]] for s in subject.steps] + \
            [[[v.name, v.label] for v in subject.inputs], [str(e) for e in getattr(subject, "spare_variables", [])]]
    if operation == "memo":
        return [[subject.pipes.index(p), str(t)] for p, t in getattr(subject, "memorized_pipes", {}).items()] \
            if isinstance(getattr(subject, "memorized_pipes", None), dict) else []
    if operation == "activable":
        return [[b.name for b in subject.activable_blocks()], [b.name for b in subject.workflow.blocks if b in subject.activated_items
                                                                and subject.activated_items[b]]]
    raise ValueError(operation)


def orders(world):
    """ What is always looked at, last. """
    return [["workflow", 0, what] for what in ("runtime", "upstream", "branches", "graph", "steps", "dict", "trace")] \
        if world.workflow is not None else []


def program(payload, ctx):
    """ The program under observation, in one simulated process. """
    plan, ballast = payload
    keep = [bytearray(n) for n in ballast]
    world = observe.Universe(plan["universe"])
    keep.append([object() for _ in range(len(ballast))])
    journal = edit(world, plan["edits"]) if world.workflow is not None else []
    if world.workflow is not None:
        world.names = wfgen.Names(plan["universe"]["workflow"], world.workflow)
        world.values = {world.names.index(k): wfgen.to_real(v) for k, v in plan["universe"]["inputs"].items()}
    world.prepare(plan["operations"])
    results = []
    for kind, number, operation in plan["operations"] + orders(world):
        ctx.state(kind, operation, bool(journal))
        if operation in ("trace", "steps", "memo", "activable"):
            try:
                result = observe.plain(extra(world, kind, operation))
            except Exception as exc:  # noqa
                result = ["raises", type(exc).__name__, observe.ADDRESS.sub("0x", str(exc))[:300]]
        else:
            result = observe.observe(world, kind, number, operation)
        results.append(scrub(result))
    return json.loads(json.dumps([journal, world.view(), results]))


def run(plan, ctx):
    reference = ctx.restart(__name__, "program", (plan, []), plan["seam"])
    for variant in plan["variants"]:
        seam = dict(plan["seam"], layout=variant["layout"], clock=variant["clock"])
        ctx.count("twins")
        ctx.fault("memory-layout")
        if variant["clock"] != plan["seam"]["clock"]:
            ctx.fault("other-clock")
        if variant["hashseed"]:
            ctx.fault("other-hash-seed")
        twin = ctx.restart(__name__, "program", (plan, variant["ballast"]), seam, hashseed=variant["hashseed"])
        where = ["edits", "data", "results"]
        for number, name in enumerate(where[:2]):
            ctx.check(twin[number] == reference[number], "depends-on-layout:" + name,
                      lambda: objgen.difference(reference[number], twin[number]))
        for number, (one, other) in enumerate(zip(reference[2], twin[2])):
            operation = plan["operations"][number] if number < len(plan["operations"]) else ["workflow", number - len(plan["operations"]), "order"]
            ctx.check(one == other, "depends-on-layout:" + operation[2],
                      lambda: f"{operation}: {objgen.difference(one, other)}")
