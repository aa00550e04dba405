"""
C01: whatever the order in which inputs are supplied and blocks are evaluated, a workflow computes the same thing,
each block of the main branch exactly once.
"""
from simkit import seams, wfgen, wfsim


def gen(rng, tier):
    spec = wfgen.gen_spec(rng)
    inputs = wfgen.gen_inputs(rng, spec)
    locks = wfgen.locked_keys(spec)
    keys = [k for k, _, _ in wfgen.input_keys(spec) if k not in locks]
    types = {k: t for k, t, _ in wfgen.input_keys(spec)}
    nodes = len(spec["nodes"])
    initial = [k for k in inputs if rng.random() < 0.3]
    ops = []
    style = rng.choice(["mixed", "eager", "lazy", "blocks"])
    weights = {"mixed": [4, 1, 4, 3, 1, 2, 1, 1], "eager": [3, 1, 1, 1, 4, 1, 1, 1], "lazy": [5, 2, 1, 3, 0.3, 1, 1, 1],
               "blocks": [3, 2, 8, 1, 0.2, 1, 1, 0.5]}[style]
    for _ in range(rng.randint(3, 14 if tier == "quick" else 30)):
        op = rng.choices(["add", "addblock", "eval", "next", "continue", "poll", "tryrun", "provisional"], weights)[0]
        if op == "add":
            ops.append(["add", rng.choice(keys) if keys else None])
        elif op == "addblock":
            ops.append(["addblock", rng.randrange(nodes), rng.random() < 0.5])
        elif op == "eval":
            ops.append(["eval", rng.randrange(nodes)])
        elif op == "provisional" and keys:
            key = rng.choice(keys)
            ops.append(["provisional", key, wfgen.gen_value(rng, types[key])])
        elif op == "poll":
            ops.append(["poll", rng.choice(["progress", "dict", "markdown", "displays", "copy", "eq", "hash"])])
        else:
            ops.append([op])
    return {"spec": spec, "inputs": inputs, "initial": initial, "ops": ops, "seam": seams.gen_seam(rng),
            "drain": rng.choice(["next", "continue", "eval"]), "drain_seed": rng.getrandbits(16),
            "callback": rng.random() < 0.5, "shrink": ["ops", "initial"]}


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]], "inputs": plan["inputs"], "ops": plan["ops"],
            "drain": plan["drain"]}


def run(plan, ctx):
    import random
    spec, inputs = plan["spec"], plan["inputs"]
    probe = wfsim.Probe().install()
    ctx.cleanups.append(probe.remove)
    workflow = wfgen.build(spec)
    names = wfgen.Names(spec, workflow)
    client = wfsim.Harness(spec, ctx)
    model = client.model
    shape = tuple(n["k"] for n in spec["nodes"])

    def after(block, values, result):
        if wfsim.node_of(block) is not None:
            client.evaluated(block, values, result)
            ctx.ev("evaluated", block.name)

    probe.after = after
    real_inputs = {k: wfgen.to_real(v) for k, v in inputs.items()}
    start_values = {}
    for key in plan["initial"]:
        start_values[names.index(key)] = real_inputs[key]
        model.supply(key, inputs[key])
    caller_view = dict(start_values)
    state = workflow.start_run(start_values)
    calls = []
    kwargs = {"progress_callback": calls.append} if plan["callback"] else {}

    def settle():
        """ Invariants that hold between any two calls. """
        ctx.check(abs(state.progress - model.progress()) < 1e-9, "progress",
                  lambda: f"progress {state.progress}, {model.progress()} of the main blocks are evaluated")
        if not model.complete():
            try:
                state.to_workflow_run()
            except ValueError:
                pass
            else:
                ctx.fail("incomplete-run", "an incomplete state was turned into a workflow run")
        ctx.state(shape, tuple(sorted(model.outs)), tuple(sorted(model.keys)))

    def evaluate(node):
        expected = model.activable(node)
        before = len(client.log)
        answer = state.block_evaluation(workflow.blocks.index(names.block(node)), **kwargs)
        ctx.ev("eval", node, answer)
        ctx.check(bool(answer) == expected, "block-evaluation-answer",
                  f"evaluating n{node} answered {answer}, its inputs being {'known' if expected else 'unknown or done'}")
        ctx.check(client.log[before:] == ([node] if expected else []), "evaluated-blocks",
                  lambda: f"asked for n{node}, engine evaluated {client.log[before:]}")
        return expected

    def evaluate_next():
        ready = [n for n in range(len(spec["nodes"])) if n not in model.outs and model.ready(n)]
        before = len(client.log)
        block = state.evaluate_next_block(**kwargs)
        done = client.log[before:]
        ctx.ev("next", done)
        if not ready:
            ctx.check(block is None and not done, "next-block", f"nothing was evaluable, engine evaluated {done}")
            return False
        ctx.check(block is not None and len(done) == 1 and done[0] in ready and wfsim.node_of(block) == done[0],
                  "next-block", f"evaluable blocks {ready}, engine evaluated {done} and answered {block}")
        return True

    def evaluate_all():
        goal = model.reachable()
        before = len(client.log)
        blocks = state.continue_run(**kwargs)
        ctx.ev("continue", client.log[before:])
        done = {n for n in model.main if n in model.outs}
        ctx.check(done == goal, "continue-run", lambda: f"main blocks evaluated {sorted(done)}, expected {sorted(goal)}")
        ctx.check(sorted(map(wfsim.node_of, blocks)) == sorted(client.log[before:]), "continue-run-answer",
                  f"answered {[b.name for b in blocks]} but evaluated {client.log[before:]}")

    def add(key, *values):
        if not values and key not in inputs:
            return
        value = values[0] if values else inputs[key]
        real = wfgen.to_real(value)
        state.add_input_value(names.index(key), real)
        model.supply(key, value)
        ctx.ev("add", key)

    settle()
    for op in plan["ops"]:
        if op[0] == "add" and op[1] in inputs:
            add(op[1])
        elif op[0] == "provisional":
            if not any(n in model.outs for n in wfgen.consumers(spec, op[1])):
                add(op[1], op[2])
                if op[1] not in inputs and op[1] in names.defaults:
                    inputs = dict(inputs, **{op[1]: op[2]})  # the last value given stays
        elif op[0] == "addblock":
            node = op[1]
            own = [f"n{node}.{port}" if source[0] == "free" else f"v{source[1]}"
                   for port, source in enumerate(spec["nodes"][node]["ins"]) if source[0] != "pipe"]
            if own and all(k in inputs or k in model.keys for k in own):
                values, given = {}, {}
                for key in own:
                    if key in inputs:
                        values[str(names.index(key)) if op[2] else names.index(key)] = wfgen.to_real(inputs[key])
                        given[key] = inputs[key]
                state.add_block_input_values(workflow.blocks.index(names.block(node)), values)
                for key, value in given.items():
                    model.supply(key, value)
                ctx.ev("addblock", node)
        elif op[0] == "eval":
            if op[1] not in model.main and op[1] in model.outs and spec["nodes"][op[1]]["k"] in wfsim.MUTATORS:
                continue
            evaluate(op[1])
        elif op[0] == "next":
            evaluate_next()
        elif op[0] == "continue":
            evaluate_all()
        elif op[0] == "poll":
            poll(op[1], state)
        settle()
    # every remaining input arrives, then the run must complete within a bounded number of calls
    rng = random.Random(plan["drain_seed"])
    left = [k for k in inputs if k not in model.keys or wfgen.canon(model.keys[k]) != wfgen.canon(wfgen.to_ref(inputs[k]))]
    rng.shuffle(left)
    for key in left:
        if not any(n in model.outs for n in wfgen.consumers(spec, key)):
            add(key)
            settle()
    assert not model.missing(), "inputs missing"
    calls_made = 0
    limit = 2 * len(spec["nodes"]) + 2
    while not model.complete():
        calls_made += 1
        ctx.check(calls_made <= limit, "no-progress", "run not complete after enough evaluation calls")
        if plan["drain"] == "next":
            evaluate_next()
        elif plan["drain"] == "continue":
            evaluate_all()
        else:
            ready = [n for n in model.main if n not in model.outs and model.ready(n)]
            evaluate(rng.choice(sorted(ready)))
        settle()
    finish(ctx, spec, names, model, state, client, inputs, start_values, caller_view)


def finish(ctx, spec, names, model, state, client, inputs, start_values, caller_view):
    workflow = names.workflow
    for node in model.main:
        ctx.check(model.evaluations.get(node) == 1, "exactly-once", f"n{node} evaluated {model.evaluations.get(node)}x")
    out_type = wfgen.out_type(spec)
    wfrun = state.to_workflow_run(name="done")
    expected = model.output()
    for holder, what in ((state, "state"), (wfrun, "run")):
        ctx.check(client.matches(out_type, holder.output_value, expected), "wrong-result",
                  lambda: f"{what} output {wfgen.canon(holder.output_value)}, expected {wfgen.canon(expected)}")
    for key in names.keys:
        got = wfrun.input_values.get(names.index(key))
        ctx.check(client.matches("", got, model.keys[key]), "run-inputs",
                  lambda: f"run remembers {wfgen.canon(got)} for {key}, was given {wfgen.canon(model.keys[key])}")
    ctx.check(start_values == caller_view or not caller_view, "caller-values", "the caller's input values were changed")
    # one-shot evaluation of the same workflow on the same inputs
    values = {names.index(k): wfgen.to_real(v) for k, v in inputs.items()}
    if any(wfgen.canon(wfgen.to_ref(inputs[k])) != wfgen.canon(model.keys[k]) for k in inputs):
        return
    twin = wfsim.Harness(spec, ctx)
    client.model, client.log = twin.model, []
    for key, value in inputs.items():
        client.model.supply(key, value)
    again = workflow.run(values)
    ctx.check(client.matches(out_type, again.output_value, wfgen.reference(
        spec, {k: wfgen.to_ref(v) for k, v in inputs.items()})["output"]), "one-shot-run",
        lambda: f"one-shot run computes {wfgen.canon(again.output_value)}")
    ctx.check(sorted(client.log) == sorted(model.main), "exactly-once",
              lambda: f"one-shot run evaluated {sorted(client.log)} instead of {sorted(model.main)}")


def poll(what, state):
    """ Looking at a state never changes it. """
    if what == "progress":
        return state.progress
    if what == "dict":
        return state.to_dict()
    if what == "markdown":
        return state.to_markdown()
    if what == "displays":
        return state.display_settings()
    if what == "copy":
        return state.copy()
    if what == "eq":
        return state == state.copy()
    return hash(state)
