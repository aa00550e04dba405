"""
C06: locked values, user values and default values are used in that order, through any history, restart and copy.
"""
import json

from simkit import faults, seams, wfgen, wfsim

LABELS = ["", "Width", "Épaisseur", "a label with spaces"]


def gen(rng, tier):
    kinds = [k for k in wfgen.KINDS if wfgen.KINDS[k]["weight"] > 0]
    spec = wfgen.gen_spec(rng, size=rng.choice([1, 2, 3, 4, 5]), kinds=kinds, secondary=False, p_free=0.6,
                          script=rng.choice([[], [], [], ["wfb"], ["foreach"]]))
    keys = [k for k, _, _ in wfgen.input_keys(spec)]
    types = {k: t for k, t, _ in wfgen.input_keys(spec)}
    segments = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 8 if tier == "quick" else 20)):
            if not keys:
                break
            key, which = rng.choice(keys), rng.randrange(3)
            value = wfgen.gen_value(rng, types[key])
            op = rng.choices(["lock", "lockv", "unlock", "forget", "default", "nodefault", "label", "run", "form", "copy",
                              "look", "partial"], [2, 3, 2, 1, 3, 1, 1, 4, 2, 0.7, 1, 1.5])[0]
            if op in ("lockv", "default"):
                ops.append([which, op, key, value])
            elif op == "label":
                ops.append([which, op, key, rng.choice(LABELS)])
            elif op in ("run", "form", "partial"):
                p = rng.choice([0.3, 0.8, 1.0, 1.0])
                values = {k: wfgen.gen_value(rng, types[k]) for k in keys if rng.random() < p}
                fail = rng.choice([None, None, None, "Boom", "KeyboardInterrupt"])
                ops.append([which, op, values, fail])
            else:
                ops.append([which, op, key])
        segments.append({"ops": ops, "how": rng.choice(["dict", "file", "state"]), "seam": seams.gen_seam(rng)})
    return {"spec": spec, "segments": segments, "seam": segments[0]["seam"], "shrink": ["segments"]}


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]], "ops": [s["ops"] for s in plan["segments"]]}


def simplify(plan):
    for i, segment in enumerate(plan["segments"]):
        for j in range(len(segment["ops"])):
            candidate = json.loads(json.dumps(plan))
            del candidate["segments"][i]["ops"][j]
            yield candidate


class Desk:
    """ One workflow with the reference configuration of its inputs. """

    def __init__(self, spec, workflow, config, ctx, tag, hub):
        self.spec, self.workflow, self.ctx, self.tag, self.hub = spec, workflow, ctx, tag, hub
        self.names = wfgen.Names(spec, workflow)
        if config is None:
            locks = wfgen.locked_keys(spec)  # the lock of an input of a nested workflow is that of the port
            config = {k: {"default": d, "locked": k in locks, "label": ""} for k, _, d in wfgen.input_keys(spec)}
        self.config = config

    def variable(self, key):
        return self.workflow.inputs[self.names.index(key)]

    def verify(self, kind="configuration"):
        ctx, w = self.ctx, self.workflow
        for key, entry in self.config.items():
            variable = self.variable(key)
            ctx.check(variable.locked == entry["locked"], kind, lambda: f"{self.tag}lock of {key}: {variable.locked}")
            ctx.check(variable.label == entry["label"], kind, lambda: f"{self.tag}label of {key}: {variable.label!r}")
            ctx.check(variable.has_default_value == (entry["default"] is not None), kind,
                      lambda: f"{self.tag}{key} {'has a' if variable.has_default_value else 'lost its'} default value")
            if entry["default"] is not None:
                ctx.check(same(variable.default_value, entry["default"][0]), kind,
                          lambda: f"{self.tag}default of {key} is {wfgen.canon(variable.default_value)}, "
                                  f"expected {entry['default'][0]}")
        locked = sorted(self.names.index(k) for k, e in self.config.items() if e["locked"])
        ctx.check(sorted(i for i, v in enumerate(w.inputs) if v in w.locked_inputs) == locked, kind, "locked inputs")

    def look(self):
        """ What the form shows. """
        shown = {}
        for prop in self.workflow.method_schemas["run"]["spareProperties"]:
            shown[int(prop["key"])] = prop
        for key, entry in self.config.items():
            prop = shown[self.names.index(key)]
            self.ctx.check(prop["editable"] != entry["locked"], "form", f"{self.tag}{key} editable {prop['editable']}")
            if entry["label"]:
                self.ctx.check(prop["title"] == entry["label"], "form", f"{self.tag}{key} titled {prop['title']!r}")
            if entry["default"] is not None and isinstance(entry["default"][0], (int, str)):
                self.ctx.check(prop.get("defaultValue") == entry["default"][0], "form",
                               f"{self.tag}{key} default {prop.get('defaultValue')!r}")
        first = self.workflow.method_dict("run")
        self.ctx.check(sorted(map(int, first)) == sorted(self.names.index(k) for k, e in self.config.items()
                                                         if e["default"] is not None), "form", f"initial dict {first}")

    def effective(self, values):
        used = {}
        for key, entry in self.config.items():
            if entry["locked"]:
                used[key] = entry["default"][0]
            elif key in values:
                used[key] = values[key]
            elif entry["default"] is not None:
                used[key] = entry["default"][0]
        return used

    def run(self, values, how, fail):
        ctx, w = self.ctx, self.workflow
        used = self.effective(values)
        complete = len(used) == len(self.config)
        client = wfsim.Harness(self.spec, ctx, tag=self.tag)
        client.model.keys = {k: wfgen.to_ref(v) for k, v in used.items()}
        self.hub["client"] = client
        user = self.hub["user"]
        given = {self.names.index(k): wfgen.to_real(v) for k, v in values.items()}
        untouched = {k: wfgen.canon(v) for k, v in given.items()}
        try:
            if how == "form" and all(w.inputs[i].type_ is not None for i in given):
                document = {str(i): serialized(v) for i, v in given.items()}
                arguments = w.dict_to_arguments(document, "run")
            else:
                arguments = {"input_values": given}
            user.faults = {user.count + 1: fail} if fail else {}
            result = w.run(**arguments)
        except BaseException as exc:  # noqa
            if fail and any(faults.in_chain(exc, e) for e in user.fired):
                ctx.ev("run failed", fail)
            else:
                if complete or not isinstance(exc, (ValueError, KeyError)):
                    raise
                ctx.check(not client.log, "refused-too-late", lambda: f"{self.tag}blocks {client.log} were evaluated first")
                ctx.count("refused-runs")
            return
        finally:
            user.faults = {}
            ctx.check({k: wfgen.canon(v) for k, v in given.items()} == untouched, "caller-mapping-changed", self.tag)
        ctx.check(complete, "run-not-refused",
                  lambda: f"{self.tag}ran without a value for {sorted(set(self.config) - set(used))}")
        expected = client.model.output()
        ctx.check(value_matches(self.spec, result.output_value, expected), "wrong-result",
                  lambda: f"{self.tag}{wfgen.canon(result.output_value)} instead of {wfgen.canon(expected)}")
        for key, value in used.items():
            got = result.input_values.get(self.names.index(key))
            ctx.check(same(got, value), "wrong-recorded-input", lambda: f"{self.tag}{key} recorded as {wfgen.canon(got)}")

    def partial(self, values, fail):
        """ Step by step run: locked inputs are not given, the others may be overridden. """
        w, ctx = self.workflow, self.ctx
        values = {k: v for k, v in values.items() if not self.config[k]["locked"]}
        used = self.effective(values)
        client = wfsim.Harness(self.spec, ctx, tag=self.tag)
        client.model.keys = {k: wfgen.to_ref(v) for k, v in used.items()}
        self.hub["client"] = client
        state = w.start_run({self.names.index(k): wfgen.to_real(v) for k, v in values.items()})
        goal = client.model.reachable()
        state.continue_run()
        done = {n for n in client.model.main if n in client.model.outs}
        ctx.check(done == goal, "partial-run", lambda: f"{self.tag}evaluated {sorted(done)} instead of {sorted(goal)}")
        ctx.check((state.progress == 1) == client.model.complete(), "partial-run", f"{self.tag}progress {state.progress}")

    def do(self, op):
        w, name = self.workflow, op[1]
        if name in ("run", "form"):
            self.run(op[2], name, op[3])
            return
        if name == "partial":
            self.partial(op[2], op[3])
            return
        if name == "look":
            self.look()
            return
        entry, index = self.config[op[2]], self.names.index(op[2])
        if name == "lock":
            try:
                w.lock_input(index)
            except ValueError:
                self.ctx.check(entry["default"] is None, "lock-refused", f"{self.tag}{op[2]}")
            else:
                self.ctx.check(entry["default"] is not None, "lock-accepted", f"{self.tag}{op[2]} locked without value")
                entry["locked"] = True
        elif name == "lockv":
            w.lock_input(index, wfgen.to_real(op[3]))
            entry.update(locked=True, default=[op[3]])
        elif name == "unlock":
            self.variable(op[2]).unlock()
            entry["locked"] = False
        elif name == "forget":
            self.variable(op[2]).unlock(keep_default=False)
            entry.update(locked=False, default=None)
        elif name == "default":
            w.set_input_default(index, wfgen.to_real(op[3]))
            entry["default"] = [op[3]]
        elif name == "nodefault" and not entry["locked"]:
            w.reset_input_default(index)
            entry["default"] = None
        elif name == "label":
            w.rename_input(index, op[3])
            entry["label"] = op[3]


def same(real, value):
    return wfgen.loose(wfgen.canon(real)) == wfgen.loose(wfgen.canon(wfgen.to_ref(value)))


def value_matches(spec, real, ref):
    return wfsim.value_ok(wfgen.out_type(spec), real, ref, lax=True)


def serialized(value):
    if isinstance(value, list):
        return [serialized(v) for v in value]
    return value.to_dict() if hasattr(value, "to_dict") else value


def segment(payload, ctx):
    from dessia_common.core import DessiaObject
    from dessia_common.workflow.core import Workflow, WorkflowState
    plan, number = payload["plan"], payload["number"]
    spec = plan["spec"]
    hub = {"user": faults.UserCode(ctx).install(), "client": None}
    probe = wfsim.Probe().install()
    ctx.cleanups.append(probe.remove)
    probe.after = lambda block, args, result: hub["client"].evaluated(block, args, result) \
        if wfsim.node_of(block) is not None else None
    desks = []
    if payload["desks"] is None:
        desks.append(Desk(spec, wfgen.build(spec), None, ctx, "original: ", hub))
    else:
        for i, (text, config) in enumerate(payload["desks"]):
            if payload["how"] == "state":
                workflow = WorkflowState.dict_to_object(json.loads(text)).workflow
            elif payload["how"] == "file":
                path = ctx.tmp(f"w{i}.json")
                with open(path, "w", encoding="utf-8") as file:
                    file.write(text)
                workflow = DessiaObject.from_json(path)
            else:
                workflow = Workflow.dict_to_object(json.loads(text))
            desks.append(Desk(spec, workflow, config, ctx, f"restored {i}: ", hub))
            desks[-1].verify("restored-configuration")
    last = number == len(plan["segments"])
    for op in [] if last else plan["segments"][number]["ops"]:
        desk = desks[op[0] % len(desks)]
        if op[1] == "copy":
            if len(desks) < 3:
                twin = Desk(spec, desk.workflow.copy(), json.loads(json.dumps(desk.config)), ctx, f"copy of {desk.tag}", hub)
                twin.verify("copied-configuration")
                desks.append(twin)
        else:
            desk.do(op)
        ctx.ev(op[:3] if op[1] not in ("run", "form") else op)
        for other in desks:
            other.verify("configuration" if other is desk else "interference")
        ctx.state(json.dumps(desk.config, sort_keys=True))
    out = []
    for desk in desks:
        how = None if last else plan["segments"][number]["how"]
        if how == "state":
            text = json.dumps(desk.workflow.start_run().to_dict())
        elif how == "file":
            path = ctx.tmp("saved.json")
            desk.workflow.save_to_file(path)
            with open(path, "r", encoding="utf-8") as file:
                text = file.read()
        else:
            text = json.dumps(desk.workflow.to_dict())
        desk.verify("changed-by-saving")
        out.append((text, desk.config))
    return out


def run(plan, ctx):
    desks, how = None, None
    for number in range(len(plan["segments"]) + 1):
        segments = plan["segments"]
        seam = segments[min(number, len(segments) - 1)]["seam"] if segments else plan["seam"]
        desks = ctx.restart("simkit.props.c06", "segment",
                            {"plan": plan, "number": number, "desks": desks, "how": how}, seam)
        if number < len(segments):
            how = segments[number]["how"]
            ctx.fault("process-crash")
