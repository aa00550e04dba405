"""
C15: a deep copy is equal to and independent of its original.

A population of object graphs, workflows, states and runs goes through a history of copies, in-place modifications,
executions and failed copies.  After each operation every member but the one acted upon still has the data it had.
"""
import copy
import json

from simkit import engine, faults, models, objgen, seams, wfgen

LISTS = {"Node": ["children"], "Root": ["items"], "Crate": ["parts"], "Bag": ["content", "extra"]}
DICTS = {"Node": ["props"], "Root": ["table"]}
FIELDS = dict(objgen.FIELDS, Bag=["number", "content", "extra"], Fresh=["rows", "columns", "base"])
ACTIONS = ["label", "lock", "default", "position", "block", "block_position", "step", "step_input", "texts", "run", "remove_step",
           "held", "spread", "display", "order"]
WF_KINDS = list(wfgen.KINDS)


# -------------------------------------------------------------------------------------------------------- generation
def gen_free(rng, below, depth=0):
    """ Value of a bag: containers of all sorts. """
    kind = rng.choice(["scalar", "ref", "list", "tuple", "dict", "array", "text", "binary", "shared", "keyed", "fresh", "by_object"])
    if depth > 2 and kind in ("list", "tuple", "dict", "keyed"):
        kind = "scalar"
    if kind == "ref":
        return {"$": rng.randrange(below)} if below else 1
    if kind in ("list", "tuple"):
        return {kind: [gen_free(rng, below, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]}
    if kind == "dict":
        return {"d": [[k, gen_free(rng, below, depth + 1)] for k in rng.sample(objgen.KEYS, rng.choice([0, 1, 2]))]}
    if kind == "keyed":
        return {"d": [[[1, n], gen_free(rng, below, depth + 1)] for n in range(rng.choice([1, 2]))]}
    if kind == "fresh":
        return {"fresh": [[rng.randrange(9) for _ in range(rng.choice([0, 1, 3]))] for _ in range(rng.choice([1, 2, 4]))]}
    if kind == "by_object":
        return {"o": [[r, gen_free(rng, below, depth + 1)] for r in rng.sample(range(below), min(below, rng.choice([1, 2])))]}
    if kind == "array":
        return {"array": [rng.randrange(9) for _ in range(rng.choice([1, 3]))]}
    if kind == "shared":
        return {"shared": rng.randrange(3)}
    if kind in ("text", "binary"):
        return {kind: rng.choice(["", "abc", "line\nline"])}
    return objgen.gen_scalar(rng)


def gen(rng, tier):
    spec = objgen.gen_spec(rng, size=rng.choice([1, 2, 3, 5, 8]))
    plan = {"objects": spec, "bags": [[gen_free(rng, len(spec["nodes"]), 0), gen_free(rng, len(spec["nodes"]), 0)]
                                      for _ in range(rng.choice([0, 1, 1, 2]))],
            "aliases": [[rng.randrange(20), rng.randrange(20)] for _ in range(rng.choice([0, 0, 1, 2]))]}
    if rng.random() < 0.6:
        plan["workflow"] = wfgen.gen_spec(rng, size=rng.choice([1, 2, 3, 4, 6]), kinds=WF_KINDS)
        plan["reloaded"] = rng.random() < 0.4
        plan["inputs"] = wfgen.gen_inputs(rng, plan["workflow"])
        plan["setup"] = [[rng.choice(["step", "display", rng.choice(ACTIONS)]), rng.randrange(1000), rng.randrange(1000)]
                         for _ in range(rng.choice([0, 2, 4, 8]))]
    history = []
    for _ in range(rng.choice([2, 4, 8, 14])):
        draw = rng.random()
        action = "copy" if draw < 0.45 else "change" if draw < 0.8 else "fail" if draw < 0.9 else "together"
        op = {"do": action, "who": rng.randrange(64), "n": rng.randrange(1000), "m": rng.randrange(1000)}
        if action == "copy":
            op["how"] = rng.choice(["method", "method", "deepcopy", "value", "list"])
        if action == "fail":
            op["at"] = rng.choice([["user", rng.choice([1, 1, 2, 3, 5]), rng.choice(faults.EXCEPTIONS)],
                                   ["line", rng.choice([3, 10, 30, rng.randrange(1, 900)]), "KeyboardInterrupt"]])
        history.append(op)
    plan.update(history=history, seam=seams.gen_seam(rng), shrink=["history", "aliases", "bags", "setup"])
    return plan


def describe(plan):
    return {"history": plan["history"][:6], "aliases": plan["aliases"], "classes": [n["c"] for n in plan["objects"]["nodes"]],
            "workflow": [n["k"] for n in plan.get("workflow", {"nodes": []})["nodes"]]}


def simplify(plan):
    if "workflow" in plan:
        candidate = json.loads(json.dumps(plan))
        del candidate["workflow"]
        yield candidate


# ---------------------------------------------------------------------------------------------------------- population
def real_free(value, objects, shared):
    if isinstance(value, dict):
        from dessia_common.files import BinaryFile, StringFile
        import numpy
        if "list" in value:
            return [real_free(v, objects, shared) for v in value["list"]]
        if "tuple" in value:
            return tuple(real_free(v, objects, shared) for v in value["tuple"])
        if "d" in value:
            return {tuple(k) if isinstance(k, list) else k: real_free(v, objects, shared) for k, v in value["d"]}
        if "fresh" in value:
            return [models.Fresh(rows, rows[1:], len(rows)) for rows in value["fresh"]]
        if "o" in value:
            return {objects[r]: real_free(v, objects, shared) for r, v in value["o"]}
        if "array" in value:
            return numpy.array(value["array"])
        if "shared" in value:
            return shared[value["shared"]]
        if "text" in value:
            stream = StringFile("file.txt")
            stream.write(value["text"])
            return stream
        if "binary" in value:
            stream = BinaryFile("file.bin")
            stream.write(value["binary"].encode())
            return stream
    return objgen.real(value, objects)


def population(plan):
    """ [kind, member] of the population at start. """
    objects = objgen.build(plan["objects"])
    shared = [["shared"], {"shared": [1]}, ("tuple", [2])]
    for number, (content, extra) in enumerate(plan["bags"]):
        objects.append(models.Bag(number, real_free(content, objects, shared), real_free(extra, objects, shared), name=f"bag {number}"))
    for table in (LISTS, DICTS):
        slots = [(o, f) for o in objects for f in table.get(objgen.kind_of(o), []) if isinstance(getattr(o, f), (list, dict))]
        for a, b in plan["aliases"]:
            if len(slots) > 1:
                first, second = sorted([a % len(slots), b % len(slots)])
                if slots[first][0] is not slots[second][0]:
                    setattr(slots[second][0], slots[second][1], getattr(*slots[first]))
    members = [["object", o] for o in objects[-3:]]
    if "workflow" in plan:
        members.append(["workflow", build(plan)])
        workflow = build(plan, "state")
        names = wfgen.Names(plan["workflow"], workflow)
        values = {names.index(k): wfgen.to_real(v) for k, v in plan["inputs"].items()}
        state = workflow.start_run({i: v for i, v in values.items() if i % 3})
        state.evaluate_next_block()
        run_ = workflow.run(dict(values), name="run")
        state.log, run_.log = "partial\n", "finished\n"
        members += [["state", state], ["run", run_]]
    from dessia_common.workflow.core import Variable
    variable = Variable(type_=models.Part, default_value=[objects[-1], {"a": []}], name="the variable")
    variable.lock()
    members += [["variable", variable]]
    return members


def build(plan, kind="workflow"):
    workflow = wfgen.build(plan["workflow"], documentation="doc", description="described", name="The workflow")
    if plan["reloaded"]:
        workflow = type(workflow).dict_to_object(json.loads(json.dumps(workflow.to_dict())))
    for action, n, m in plan.get("setup", []):
        try_change(kind, workflow, action, n, m, plan)
    return workflow


def try_change(kind, member, action, n, m, plan):
    try:
        return change_workflow(kind, member, action, n, m, plan)
    except Exception as exc:  # noqa a refused modification is none
        if not engine.passes_through_repo(exc):
            raise
        return "refused"


# -------------------------------------------------------------------------------------------------------------- views
def shape(value, seen):
    """ Data of a value and, by numbers, which of its mutable parts are the same. """
    from dessia_common.core import DessiaObject
    from dessia_common.measures import Measure
    import io
    import numpy
    if isinstance(value, (DessiaObject, list, dict, io.IOBase, numpy.ndarray)):
        if id(value) in seen:
            return ["same", seen[id(value)][0]]
        seen[id(value)] = [len(seen), value]
    if isinstance(value, DessiaObject):
        name = objgen.kind_of(value)
        if name not in FIELDS:
            return ["thing", name, value.name]
        return ["object", name, value.name] + [[f, shape(getattr(value, f), seen)] for f in FIELDS[name]]
    if isinstance(value, dict):
        return ["dict"] + [[shape(k, seen) if isinstance(k, DessiaObject) else repr(k), shape(v, seen)] for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [shape(v, seen) for v in value]
    if isinstance(value, io.IOBase):
        return ["file", value.filename, repr(value.getvalue())]
    if isinstance(value, numpy.ndarray):
        return ["array", value.tolist()]
    if isinstance(value, type):
        return ["class", value.__name__]
    if isinstance(value, Measure):
        return ["measure", type(value).__name__, float(value)]
    if value is None or isinstance(value, (str, int, float)):
        return [type(value).__name__, repr(value)]
    return ["other", type(value).__name__]


def workflow_view(workflow, seen):
    def variable(item):
        return [item.name, item.label, item.locked, shape(item.default_value, seen) if item.has_default_value else "undefined",
                [float(c) for c in item.position]]
    return {"texts": [workflow.name, workflow.description, workflow.documentation],
            "blocks": [[type(b).__name__, b.name, [float(c) for c in b.position], [variable(v) for v in b.inputs],
                        [v.name for v in b.outputs], getattr(b, "attributes", None) and list(b.attributes),
                        [shape(f, seen) for f in getattr(b, "filters", [])],
                        [[type(c).__name__, str(c.to_dict() if hasattr(c, "to_dict") else c)] for c in getattr(b, "configurations", [])],
                        workflow_view(b.workflow, seen) if hasattr(b, "workflow") else
                        workflow_view(b.workflow_block.workflow, seen) if hasattr(b, "workflow_block") else None]
                       for b in workflow.blocks],
            "pipes": [[str(i) for i in workflow.pipe_variable_indices(p)] for p in workflow.pipes],
            "free": [variable(v) for v in workflow.nonblock_variables],
            "inputs": [str(workflow.variable_indices(v)) for v in workflow.inputs],
            "output": str(workflow.variable_indices(workflow.output)),
            "steps": [[s.label, s.documentation, [str(workflow.variable_indices(v)) for v in s.inputs],
                       [str(workflow.variable_indices(v)) for v in s.group_inputs], s.display_variable_index,
                       s.display_setting.to_dict() if s.display_setting else None] for s in workflow.steps]}


def place(items, item):
    """ Index of an item in a list of things, None if it is not one of them. """
    return next((i for i, other in enumerate(items) if other is item), -1)


def view(kind, member):
    seen = {}
    if kind == "variable":
        return [member.name, str(member.type_), member.locked, shape(member.default_value, seen) if member.has_default_value else "undefined"]
    if kind == "object":
        return shape(member, seen)
    if kind == "workflow":
        return workflow_view(member, seen)
    workflow = member.workflow
    doc = {"workflow": workflow_view(workflow, seen), "name": member.name,
           "given": sorted([[i, shape(v, seen)] for i, v in member.input_values.items()], key=lambda e: e[0]),
           "values": sorted([[place(workflow.pipes, p), shape(v, seen)] for p, v in member.values.items()], key=lambda e: e[0]),
           "output": shape(member.output_value, seen), "log": member.log, "progress": member.progress,
           "memory": [[place(workflow.blocks, b), n] for b, n in member.execution_info.before_block_memory_usage],
           "times": [member.execution_info.start_time, member.execution_info.end_time]}
    doc["activated"] = [[bool(member.activated_items.get(item)) for item in part]
                        for part in (workflow.blocks, workflow.pipes, workflow.variables)]
    return doc


def mutables(value, found=None, path="root", depth=0):
    """ {id: (path, part)} of the mutable parts of a member, following public attributes. """
    from dessia_common.core import DessiaObject
    from dessia_common.displays import DisplaySetting
    from dessia_common.workflow.core import Step
    import io
    import numpy
    if found is None:
        found = {}
    if isinstance(value, (str, int, float, type)) or value is None or depth > 60:
        return found
    if isinstance(value, tuple):
        for i, item in enumerate(value):
            mutables(item, found, f"{path}/{i}", depth + 1)
        return found
    if not isinstance(value, (DessiaObject, list, dict, io.IOBase, numpy.ndarray, DisplaySetting, Step)) or id(value) in found:
        return found
    found[id(value)] = (path, value)
    if isinstance(value, list):
        items = list(enumerate(value))
    elif isinstance(value, dict):
        items = list(value.items()) + [("key", k) for k in value]
    elif isinstance(value, (io.IOBase, numpy.ndarray)):
        items = []
    else:
        items = [(k, v) for k, v in vars(value).items() if not k.startswith("_") and k != "detached_variables"]
    for key, item in items:
        mutables(item, found, f"{path}/{key if not isinstance(key, DessiaObject) else type(key).__name__}", depth + 1)
    return found


# ---------------------------------------------------------------------------------------------------------- operations
def change(kind, member, n, m, plan):
    """ Modify one member in place. """
    if kind == "object":
        return change_part(parts_of(member), n, m)
    if kind == "variable":
        return change_part(parts_of(member.default_value), n, m)
    workflow = member if kind == "workflow" else member.workflow
    if kind in ("state", "run") and n % 3 == 0:
        held = [p for v in list(member.input_values.values()) + list(member.values.values()) + [member.output_value]
                for p in parts_of(v)]
        return change_part(held, m, n)
    if kind == "state" and n % 3 == 1:
        free = [i for i in range(len(workflow.inputs)) if i not in member.input_values]
        names = wfgen.Names(plan["workflow"], workflow)
        values = {names.index(k): v for k, v in plan["inputs"].items()}
        if free and free[m % len(free)] in values:
            index = free[m % len(free)]
            member.add_input_value(index, wfgen.to_real(values[index]))
        elif m % 2:
            member.evaluate_next_block()
        else:
            member.continue_run()
        return "state"
    return change_workflow(kind, workflow, ACTIONS[n % len(ACTIONS)], n, m, plan)


def change_workflow(kind, workflow, action, n, m, plan):
    variables = workflow.variables
    variable = variables[m % len(variables)]
    inputs, steps = workflow.inputs, workflow.steps
    if kind != "workflow" and action in ("lock", "default"):  # a state takes its inputs from the workflow it started with
        return "nothing"
    if action == "label":
        variable.label = f"label {m}"
    elif action == "lock" and inputs:
        workflow.lock_input(m % len(inputs), m)
    elif action == "default" and inputs:
        workflow.set_input_default(m % len(inputs), [models.Part(m)])
    elif action == "position":
        if isinstance(variable.position, list):
            variable.position[0] = m
        else:
            variable.position = (m, n)
    elif action == "block":
        block = workflow.blocks[m % len(workflow.blocks)]
        if hasattr(block, "workflow") or hasattr(block, "workflow_block"):  # names of its variables are derived from its own
            return "nothing"
        block.name = f"block {m}"
    elif action == "block_position":
        block = workflow.blocks[m % len(workflow.blocks)]
        if isinstance(block.position, list):
            block.position[1] = m
        else:
            block.position = (m, -m)
    elif action == "step":
        workflow.insert_step(label=f"step {m}")
    elif action == "step_input" and steps and inputs:
        workflow.change_input_step(m % len(inputs), n % len(steps))
    elif action == "display" and steps:
        if steps[m % len(steps)].display_setting is not None:
            steps[m % len(steps)].display_setting.selector = f"selector {m}"
            steps[m % len(steps)].display_setting.arguments["new"] = m
        else:
            entries = workflow.displayable_display_settings()["available_display_settings"]
            options = sorted((int(i), s, e["selector"]) for s, available in enumerate(entries) for i, found in available.items()
                             for e in found)
            if not options:
                return "nothing"
            workflow.add_step_display(*options[m % len(options)])
    elif action == "order" and steps:
        step = steps[m % len(steps)]
        workflow.save_step_documentation(m % len(steps), f"doc {m}")
        step.inputs.reverse()
    elif action == "texts":
        workflow.description, workflow.documentation, workflow.name = f"d{m}", f"doc {m}", f"name {m}"
    elif action == "run" and kind == "workflow":
        workflow.run(dict(enumerate(wfgen.to_real(v) for v in plan["inputs"].values())), name="again")
    elif action == "remove_step" and steps:
        workflow.remove_step(m % len(steps))
    elif action == "held":
        held = [p for v in workflow.inputs if v.has_default_value for p in parts_of(v.default_value)]
        return change_part(held, m, n)
    elif action == "spread":
        for block in workflow.blocks:
            if hasattr(block, "attributes") and isinstance(block.attributes, list):
                block.attributes.reverse()
            for item in getattr(block, "filters", []):
                item.bound = m
            for item in getattr(block, "configurations", []):
                item.name = f"configuration {m}"
    return action


def parts_of(value):
    """ Mutable parts of user data, in order of discovery. """
    seen = {}
    shape(value, seen)
    return [part for _, part in sorted(seen.values(), key=lambda e: e[0])]


def change_part(parts, n, m):
    import io
    import numpy
    from dessia_common.core import DessiaObject
    if not parts:
        return "nothing"
    part = parts[n % len(parts)]
    if isinstance(part, DessiaObject):
        fields = [f for f in FIELDS.get(objgen.kind_of(part), []) if isinstance(getattr(part, f), (int, float, str))
                  and f not in ("min_value", "max_value")]  # other attributes are derived from these
        field = (fields + ["name"])[m % (len(fields) + 1)]
        setattr(part, field, f"changed {m}" if isinstance(getattr(part, field), str) else m + 0.5)
    elif isinstance(part, list):
        if m % 3 == 0 and part:
            part.pop()
        elif m % 3 == 1:
            part.append(m)
        else:
            part.insert(0, {"new": m})
    elif isinstance(part, dict):
        if m % 2 and part and all(isinstance(k, (str, tuple)) for k in part):
            part.pop(next(iter(part)))
        else:
            part[f"new {m}"] = m
    elif isinstance(part, numpy.ndarray):
        part[0] = m
    elif isinstance(part, io.StringIO):
        part.write(f"changed {m}")
    else:
        part.write(b"changed")
    return type(part).__name__


def make_copy(how, member):
    from dessia_common.utils.copy import deepcopy_value
    if how == "method":
        return member.copy(deep=True)
    if how == "deepcopy":
        return copy.deepcopy(member)
    if how == "value":
        return deepcopy_value(member, {})
    first, table = deepcopy_value([member, {"again": member}], {})
    if table["again"] is not first:
        raise AssertionError("sharing lost")
    return first


def judge_copy(ctx, kind, original, copied, op):
    one, other = view(kind, original), view(kind, copied)
    ctx.check(type(copied) is type(original), "copy-differs", lambda: f"{type(copied)} is not a {type(original)}")
    ctx.check(one == other, "copy-differs", lambda: f"{kind}: {objgen.difference(one, other)}")
    if kind != "variable" and not has_array(one):
        ctx.check(copied == original and original == copied, "copy-not-equal", lambda: f"copy of {type(original).__name__} is not equal to it")
    mine, theirs = mutables(original), mutables(copied)
    common = [path for key, (path, _) in mine.items() if key in theirs]
    ctx.check(not common, "shared-part", lambda: f"original and copy share {common[:5]}")


def has_array(doc):
    """ Arrays have no equality, modified keys have another hash. """
    return isinstance(doc, list) and (doc[:1] == ["array"] or doc[:1] == ["dict"] and any(isinstance(k, list) for k, _ in doc[1:]) or any(has_array(d) for d in doc)) or \
        isinstance(doc, dict) and any(has_array(d) for d in doc.values())


def run(plan, ctx):
    members = population(plan)
    views = [view(kind, member) for kind, member in members]

    def settle(actor, what):
        for i, (kind, member) in enumerate(members):
            now = view(kind, member)
            if i in actor:
                views[i] = now
            else:
                ctx.check(now == views[i], "not-independent", lambda: f"{what} changed member {i} ({kind}): {objgen.difference(views[i], now)}")

    groups = [{"object": 0, "variable": 0, "workflow": 1}.get(kind, 2) for kind, _ in members]  # the first members share data with one another
    for op in plan["history"]:
        who = op["who"] % len(members)
        kind, member = members[who]
        if op["do"] == "copy" or op["do"] == "fail":
            failed = None
            if op["do"] == "fail":
                what, number, name = op["at"]
                try:
                    if what == "user":
                        injector = faults.UserCode(ctx, [(number, name)]).install()
                        try:
                            copied = make_copy("method", member)
                        finally:
                            injector.remove()
                    else:
                        with faults.LineInterrupt(ctx, [number], lambda: True, [engine.REPO + "/"], name) as injector:
                            copied = make_copy("method", member)
                except BaseException as exc:  # noqa
                    if not injector.fired or not faults.in_chain(exc, injector.fired[-1]):
                        raise
                    failed = exc
            else:
                copied = make_copy(op["how"] if kind != "variable" else "method", member)
            ctx.state(kind, op["do"], type(member).__name__, failed is None, op.get("how"))
            if failed is None:
                judge_copy(ctx, kind, member, copied, op)
                members.append([kind, copied])
                views.append(view(kind, copied))
                groups.append(2 + len(members))
            settle([], "copying")
        elif op["do"] == "together":
            from dessia_common.utils.copy import deepcopy_value
            pair = [m for m in members if m[0] == "object"][-2:]
            copies = deepcopy_value([m for _, m in pair], {})
            seen, other = {}, {}
            one = shape([m for _, m in pair], seen)
            two = shape(copies, other)
            ctx.check(one == two, "copy-differs", lambda: f"objects copied together: {objgen.difference(one, two)}")
            settle([], "copying")
        else:
            try:
                label = change(kind, member, op["n"], op["m"], plan)
            except Exception as exc:  # noqa a refused modification is none
                if not engine.passes_through_repo(exc):
                    raise
                label = "refused"
            ctx.state(kind, "change", label)
            settle([i for i, g in enumerate(groups) if g == groups[who]], f"changing member {who} ({kind}, {label})")
        ctx.ev(op["do"], who, len(members))
