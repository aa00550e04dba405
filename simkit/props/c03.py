"""
C03: a workflow state saved at any point and restored in a new process resumes to the same result.
"""
import json
import re

from simkit import faults, seams, wfgen, wfsim


NBV = re.compile(r"(^|/)v\d+$")


def parts_of(value, found):
    if isinstance(value, wfgen.Ref):
        found.append(value)
    elif isinstance(value, (list, tuple)):
        for item in value:
            parts_of(item, found)


def all_parts(spec, inputs):
    """ Every reference part that exists during a run. """
    ref = wfgen.reference(spec, {k: wfgen.to_ref(v) for k, v in inputs.items()}, nodes=range(len(spec["nodes"])))
    found = []
    for args in list(ref["ins"].values()) + list(ref["outs"].values()):
        parts_of(args, found)
    return found


def twins(spec, inputs):
    """ Whether distinct parts with equal data exist (they become one part in the saved document). """
    owners = {}
    for part in all_parts(spec, inputs):
        owners.setdefault((part.a, part.b), set()).add(id(part))
    return any(len(ids) > 1 for ids in owners.values())


def ambiguous_names(spec, inputs):
    names = {}
    for part in all_parts(spec, inputs):
        names.setdefault((part.a, part.b), set()).add(part.name)
    return any(len(n) > 1 for n in names.values())


def gen(rng, tier):
    pool = [k for k in wfgen.KINDS if k != "archive"]
    if rng.random() < 0.12:  # No answer (None) is a value like another one
        spec = wfgen.gen_spec(rng, kinds=[k for k in pool], secondary=False,
                               script=rng.choice([["inst", "maybe", "deal"], ["maybe", "inst", "deal"],
                                                  ["inst", "maybe", "maybe", "deal", "deal"]]))
    else:
        spec = wfgen.gen_spec(rng, kinds=[k for k in pool], secondary=False)
    if rng.random() < 0.6:
        add_secondary(rng, spec)
    inputs = wfgen.gen_inputs(rng, spec)
    if any(n["k"] in wfsim.MUTATORS for n in spec["nodes"]) and twins(spec, inputs):
        spec = wfgen.gen_spec(rng, kinds=[k for k in pool if k not in wfsim.MUTATORS], secondary=False)
        inputs = wfgen.gen_inputs(rng, spec)
    nodes = len(spec["nodes"])
    keys = list(inputs)
    segments = []
    for _ in range(rng.choice([2, 2, 3, 4] if tier == "quick" else [2, 3, 4, 6])):
        ops = []
        for _ in range(rng.randint(0, 5)):
            op = rng.choices(["add", "eval", "next", "continue", "fail"], [3, 4, 3, 0.6, 1])[0]
            if op == "add" and keys:
                ops.append(["add", rng.choice(keys)])
            elif op == "eval":
                ops.append(["eval", rng.randrange(nodes)])
            elif op == "fail":
                ops.append(["fail", rng.randrange(nodes), rng.choice(["Boom", "ValueError", "KeyboardInterrupt"])])
            elif op in ("next", "continue"):
                ops.append([op])
        segments.append({"ops": ops, "how": rng.choice(["dict", "dict", "file", "flat", "stream"]),
                         "seam": seams.gen_seam(rng)})
    return {"spec": spec, "inputs": inputs, "segments": segments, "initial": [k for k in keys if rng.random() < 0.4],
            "finish_how": rng.choice(["dict", "file", "flat", "stream"]), "seam": segments[0]["seam"],
            "shrink": ["segments", "initial", "segments.0.ops", "segments.1.ops"]}


def add_secondary(rng, spec):
    gen_ = wfgen.Gen(rng, 0)
    gen_.nodes, gen_.nbvs = spec["nodes"], spec["nbvs"]
    gen_.ports = []
    main_mutable = any(n["k"] in wfsim.MUTATORS for n in spec["nodes"])
    if main_mutable:
        return
    for index in range(len(spec["nodes"])):
        _, outs = wfgen.node_ports(spec, index)
        for port, type_ in enumerate(outs):
            gen_.ports.append({"node": index, "port": port, "type": type_, "len": None, "linear": False, "used": False})
    before = len(spec["nodes"])
    for _ in range(rng.randint(1, 2)):
        gen_.add(rng.choice(list(wfgen.DISPLAY_KINDS) + list(wfgen.EXPORT_KINDS)))
    spec["order"] = spec["order"] + list(range(before, len(spec["nodes"])))


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]],
            "segments": [[s["how"], s["ops"]] for s in plan["segments"]]}


def simplify(plan):
    """ Drop the operations of one segment at a time. """
    for i, segment in enumerate(plan["segments"]):
        for j in range(len(segment["ops"])):
            candidate = json.loads(json.dumps(plan))
            del candidate["segments"][i]["ops"][j]
            yield candidate


def save(obj, how, ctx):
    if how == "file":
        path = ctx.tmp("saved.json")
        obj.save_to_file(path)
        with open(path, "r", encoding="utf-8") as file:
            return file.read()
    if how == "stream":
        from dessia_common.files import StringFile
        stream = StringFile()
        obj.save_to_stream(stream)
        return stream.getvalue()
    return json.dumps(obj.to_dict(use_pointers=how != "flat"))


def load(text, how, ctx):
    from dessia_common.core import DessiaObject
    from dessia_common.workflow.core import WorkflowState
    if how == "file":
        path = ctx.tmp("restored.json")
        with open(path, "w", encoding="utf-8") as file:
            file.write(text)
        return DessiaObject.from_json(path)
    if how == "stream":
        import io
        return DessiaObject.from_json_stream(io.BytesIO(text.encode("utf-8")))
    return DessiaObject.dict_to_object(json.loads(text))


def document(state):
    """ Pointer-free document of a state, without the figures that record when things happened. """
    doc = json.loads(json.dumps(state.to_dict(use_pointers=False)))
    doc.pop("execution_info", None)
    forget_nbv_types(doc)
    return doc


def record(state):
    """ When things happened, and with how much memory. """
    return json.loads(json.dumps(state.to_dict(use_pointers=False)["execution_info"]))


def forget_nbv_types(node):
    """ The type of a variable shared by blocks is recomputed from these blocks on restoration (documented). """
    if isinstance(node, dict):
        if NBV.search(str(node.get("name", ""))) and "pretty_type" in node:
            node.pop("type_", None)
            node.pop("pretty_type")
        for value in node.values():
            forget_nbv_types(value)
    elif isinstance(node, list):
        for value in node:
            forget_nbv_types(value)


def strip(form):
    """ Canonical form without part names. """
    if isinstance(form, tuple):
        if form and form[0] == "P":
            return form[:3]
        return tuple(strip(f) for f in form)
    return form


class Lax(wfsim.Harness):
    """ After a JSON round trip tuples are lists; names are compared unless equal parts with several names exist. """

    names_ok = True

    def matches(self, type_, real, ref):
        if type_ in ("D", "F", "X") and ref is None:
            return True
        real, ref = wfgen.loose(wfgen.canon(real)), wfgen.loose(wfgen.canon(ref))
        if not self.names_ok:
            real, ref = strip(real), strip(ref)
        return real == ref


def segment(payload, ctx):
    """ One process lifetime: restore, operate, save. """
    plan, number = payload["plan"], payload["number"]
    spec, inputs = plan["spec"], plan["inputs"]
    probe = wfsim.Probe().install()
    ctx.cleanups.append(probe.remove)
    user = faults.UserCode(ctx).install()
    client = Lax(spec, ctx, tag=f"process {number}: ")
    client.names_ok = payload["names_ok"]
    model = client.model
    shape = tuple(n["k"] for n in spec["nodes"])
    if payload["text"] is None:
        workflow = wfgen.build(spec)
        names = wfgen.Names(spec, workflow)
        values = {names.index(k): wfgen.to_real(inputs[k]) for k in plan["initial"]}
        state = workflow.start_run(values)
        for key in plan["initial"]:
            model.supply(key, inputs[key])
    else:
        state = load(payload["text"], payload["how"], ctx)
        workflow = state.workflow
        names = wfgen.Names(spec, workflow)
        for key in payload["known"]:
            model.supply(key, inputs[key])
        full = wfgen.reference(spec, {k: wfgen.to_ref(v) for k, v in inputs.items()}, nodes=range(len(spec["nodes"])))
        for node in payload["done"]:
            model.outs[node] = full["outs"][node]
        verify_restored(ctx, client, state, names, payload)
    ctx.ev("process", number, payload["how"])

    def after(block, args, result):
        if wfsim.node_of(block) is not None:
            client.evaluated(block, args, result)
            ctx.ev("evaluated", block.name)
    probe.after = after

    def settle():
        ctx.check(abs(state.progress - model.progress()) < 1e-9, "progress",
                  lambda: f"process {number}: progress {state.progress} instead of {model.progress()}")
        ctx.state(shape, tuple(sorted(model.outs)), tuple(sorted(model.keys)), number)

    settle()
    last = payload["last"]
    ops = plan["segments"][number]["ops"] if not last else [["drain"]]
    for op in ops:
        if op[0] == "add" and op[1] in inputs:
            if not any(n in model.outs for n in wfgen.consumers(spec, op[1])):
                state.add_input_value(names.index(op[1]), wfgen.to_real(inputs[op[1]]))
                model.supply(op[1], inputs[op[1]])
        elif op[0] in ("eval", "fail"):
            node = op[1]
            if node in model.outs and node not in model.main:
                continue
            if op[0] == "fail":
                user.faults = {user.count + 1: op[2]}
            # a default value the user means to override must not be consumed before
            try:
                if consumes_default(spec, inputs, model, node):
                    continue
                expected = model.activable(node)
                answer = state.block_evaluation(workflow.blocks.index(names.block(node)))
                ctx.check(bool(answer) == expected, "block-evaluation-answer", f"process {number}: n{node} {answer}")
            except (faults.Boom, ValueError, KeyboardInterrupt) as exc:
                if not any(faults.in_chain(exc, e) for e in user.fired):
                    raise
            finally:
                user.faults = {}
        elif op[0] == "next":
            ready = [n for n in range(len(spec["nodes"])) if n not in model.outs and model.ready(n)]
            if any(consumes_default(spec, inputs, model, n) for n in ready):
                continue
            state.evaluate_next_block()
        elif op[0] == "continue":
            goal = model.reachable()
            if any(consumes_default(spec, inputs, model, n) for n in goal if n not in model.outs):
                continue
            state.continue_run()
        elif op[0] == "drain":
            for key in sorted(inputs):
                if key not in model.keys or not any(n in model.outs for n in wfgen.consumers(spec, key)):
                    state.add_input_value(names.index(key), wfgen.to_real(inputs[key]))
                    model.supply(key, inputs[key])
            done = set(model.outs) & model.main
            blocks = state.continue_run()
            ctx.check({wfsim.node_of(b) for b in blocks} == model.main - done, "resumed-blocks",
                      f"process {number}: resumed with {[b.name for b in blocks]}, {sorted(done)} being evaluated")
        settle()
    if last:
        ctx.check(model.complete(), "incomplete", "resumed run does not complete")
        wfrun = state.to_workflow_run(name="done")
        check_output(ctx, client, wfrun)
        first = document(wfrun)
        ctx.check(first == document(wfrun), "unstable-document", lambda: diff(first, document(wfrun)))
        return {"text": save(wfrun, plan["finish_how"], ctx), "how": plan["finish_how"], "done": sorted(model.outs),
                "known": [k for k in inputs if k in model.keys], "doc": document(wfrun),
                "record": record(wfrun)}
    how = plan["segments"][number]["how"]
    known = [k for k in inputs if k in model.keys and wfgen.canon(model.keys[k]) == wfgen.canon(wfgen.to_ref(inputs[k]))]
    before = model.progress()
    text = save(state, how, ctx)
    settle()
    return {"text": text, "how": how, "done": sorted(model.outs), "known": known, "progress": before,
            "doc": document(state), "record": record(state)}


def consumes_default(spec, inputs, model, node):
    """ Whether evaluating the node now would use a default value where the plan has another value in store. """
    for port, source in enumerate(spec["nodes"][node]["ins"]):
        if source[0] == "pipe":
            continue
        key = f"n{node}.{port}" if source[0] == "free" else f"v{source[1]}"
        if key in inputs and key in model.keys and wfgen.canon(model.keys[key]) != wfgen.canon(wfgen.to_ref(inputs[key])):
            return True
    return False


def verify_restored(ctx, client, state, names, payload):
    spec = client.spec
    workflow = names.workflow
    got = [b.name for b in workflow.blocks]
    ctx.check(got == [f"n{i}" for i in spec["order"]], "restored-blocks", f"restored blocks {got}")
    evaluated = {wfsim.node_of(workflow.blocks[i]) for i in state.to_dict()["evaluated_blocks_indices"]}
    ctx.check(evaluated == set(payload["done"]), "restored-progress",
              lambda: f"restored with {sorted(evaluated)} evaluated instead of {payload['done']}")
    for key in names.keys:
        index = names.index(key)
        if key in client.model.keys and key in payload["known"]:
            ctx.check(index in state.input_values, "restored-inputs", f"value of {key} lost")
            ctx.check(client.matches(names.types[key], state.input_values[index], client.model.keys[key]),
                      "restored-inputs", lambda: f"{key} restored as {wfgen.canon(state.input_values[index])}")
    if spec["out"][0] in client.model.outs:
        check_output(ctx, client, state)
    ctx.check(not client.names_ok or document(state) == payload["doc"], "second-save-differs",
              lambda: diff(payload["doc"], document(state)))
    ctx.check(record(state) == payload["record"], "execution-record", lambda: diff(payload["record"], record(state)))


def diff(left, right, path=""):
    if type(left) is not type(right):
        return f"{path}: {left!r:.80} became {right!r:.80}"
    if isinstance(left, dict):
        for key in sorted(set(left) | set(right)):
            if key not in left or key not in right:
                return f"{path}/{key}: {'missing' if key in left else 'added'}"
            if left[key] != right[key]:
                return diff(left[key], right[key], f"{path}/{key}")
    if isinstance(left, list):
        if len(left) != len(right):
            return f"{path}: {len(left)} elements became {len(right)}"
        for i, (a, b) in enumerate(zip(left, right)):
            if a != b:
                return diff(a, b, f"{path}/{i}")
    return f"{path}: {left!r:.80} became {right!r:.80}"


def check_output(ctx, client, holder):
    expected = client.model.output()
    ctx.check(client.matches(wfgen.out_type(client.spec), holder.output_value, expected), "wrong-result",
              lambda: f"{client.tag}output {wfgen.canon(holder.output_value)} instead of {wfgen.canon(expected)}")


def finished(payload, ctx):
    """ A finished run restored in a new process. """
    plan = payload["plan"]
    spec, inputs = plan["spec"], plan["inputs"]
    wfrun = load(payload["text"], payload["how"], ctx)
    client = Lax(spec, ctx, tag="finished run: ")
    client.names_ok = payload["names_ok"]
    for key, value in inputs.items():
        client.model.supply(key, value)
    full = wfgen.reference(spec, {k: wfgen.to_ref(v) for k, v in inputs.items()}, nodes=range(len(spec["nodes"])))
    for node in payload["done"]:
        client.model.outs[node] = full["outs"][node]
    names = wfgen.Names(spec, wfrun.workflow)
    verify_restored(ctx, client, wfrun, names, payload)
    ctx.check(wfrun.progress == 1, "progress", f"finished run restored with progress {wfrun.progress}")
    values = {names.index(k): wfgen.to_real(v) for k, v in inputs.items()}
    again = wfrun.run_again(values)
    check_output(ctx, client, again)
    return None


def run(plan, ctx):
    me = "simkit.props.c03"
    names_ok = not ambiguous_names(plan["spec"], plan["inputs"])
    payload = {"text": None, "how": None, "known": [], "done": []}
    for number in range(len(plan["segments"])):
        payload.update({"plan": plan, "number": number, "last": False, "names_ok": names_ok})
        payload = ctx.restart(me, "segment", payload, plan["segments"][number]["seam"])
        ctx.fault("process-crash")
    payload.update({"plan": plan, "number": len(plan["segments"]), "last": True, "names_ok": names_ok})
    payload = ctx.restart(me, "segment", payload, plan["seam"])
    payload.update({"plan": plan, "names_ok": names_ok})
    ctx.restart(me, "finished", payload, plan["seam"])
