"""
C05: through any history of step edits, restarts and copies, form steps partition the inputs of a workflow.
"""
import json

from simkit import models, seams, wfgen

LABELS = ["", "Geometry", "Étape 2", "loads & cases", "x" * 40]
DOCS = ["", "Some *markdown*.", "été\nsecond line"]


def gen(rng, tier):
    kinds = [k for k in wfgen.KINDS if wfgen.KINDS[k]["weight"] > 0]
    spec = wfgen.gen_spec(rng, size=rng.choice([1, 2, 3, 4, 5, 6]), kinds=kinds, secondary=rng.random() < 0.2)
    if any(n["k"] == "archive" for n in spec["nodes"]):
        spec = wfgen.gen_spec(rng, size=3, kinds=kinds, secondary=False)
    for _ in range(6):
        if sum(n["k"] in ("inst", "build", "scaled", "total") for n in spec["nodes"]) >= 2:
            break
        spec = wfgen.gen_spec(rng, size=rng.choice([3, 4, 6, 8]), kinds=kinds, secondary=False)
    count = len(wfgen.input_keys(spec))
    ports = [[i, o] for i in range(len(spec["nodes"])) for o, t in enumerate(wfgen.node_ports(spec, i)[1]) if t == "P"]
    segments = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = [[0, "insert", f"Step {i}", None] for i in range(rng.choice([0, 1, 2, 3]))]
        for _ in range(rng.randint(2, 14 if tier == "quick" else 30)):
            op = rng.choices(["change", "remove_input", "order_inputs", "insert", "rename", "order_steps", "remove_step",
                              "reset", "add_display", "remove_display", "doc", "rename_input", "copy", "look", "compute"],
                             [6, 2, 2, 3, 1, 2, 1, 0.3, 6, 0.7, 1, 1, 0.7, 1, 1.5])[0]
            which = rng.randrange(4)
            step = rng.choice([0, 0, 1, 1, 2, 3, 7])
            if op == "change":
                ops.append([which, op, [rng.randrange(count + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                            if count else [], step])
            elif op == "remove_input":
                ops.append([which, op, rng.randrange(count + 1)])
            elif op == "order_inputs":
                ops.append([which, op, step, rng.choice(["shuffle", "shuffle", "shuffle", "dup", "missing", "extra"]),
                            rng.getrandbits(16)])
            elif op == "order_steps":
                ops.append([which, op, rng.choice(["shuffle", "shuffle", "shuffle", "dup", "missing", "extra", "neg"]),
                            rng.getrandbits(16)])
            elif op == "insert":
                ops.append([which, op, rng.choice(LABELS), rng.choice([None, None, 0, 1, 2])])
            elif op == "rename":
                ops.append([which, op, step, rng.choice(LABELS)])
            elif op == "doc":
                ops.append([which, op, step, rng.choice(DOCS)])
            elif op in ("remove_step", "remove_display"):
                ops.append([which, op, step])
            elif op == "add_display":
                target = rng.choice(ports) if ports and rng.random() < 0.8 else rng.choice(["out-of-range", "nbv", "int"])
                step = rng.choice([0, 0, 1, 1, 2, 7])
                ops.append([which, op, target, step, rng.choice(["Sheet", "Sheet", "Sheet", "CAD", "Plot", "Unknown"])])
                if rng.random() < 0.6:
                    ops.append([which, "compute", step])
            elif op == "rename_input":
                ops.append([which, op, rng.randrange(count + 1), rng.choice(LABELS)])
            elif op == "compute":
                ops.append([which, op, step])
            else:
                ops.append([which, op, rng.randrange(5)])
        segments.append({"ops": ops, "seam": seams.gen_seam(rng)})
    return {"spec": spec, "inputs": wfgen.gen_inputs(rng, spec), "segments": segments, "seam": segments[0]["seam"],
            "shrink": ["segments"]}


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]], "ops": [s["ops"] for s in plan["segments"]]}


def simplify(plan):
    for i, segment in enumerate(plan["segments"]):
        size = max(1, len(segment["ops"]) // 2)
        while size:
            for j in range(0, len(segment["ops"]), size):
                candidate = json.loads(json.dumps(plan))
                del candidate["segments"][i]["ops"][j:j + size]
                yield candidate
            size //= 2


def fresh_layout(count):
    return {"steps": [], "spare": list(range(count)), "labels": [""] * count}


def index_of(items, item):
    for i, candidate in enumerate(items):
        if candidate is item:
            return i
    return None


class Layout:
    """ Real workflow and reference layout in lock step. """

    def __init__(self, spec, workflow, model, ctx, tag):
        self.spec, self.workflow, self.model, self.ctx, self.tag = spec, workflow, model, ctx, tag
        self.names = wfgen.Names(spec, workflow)
        if model is None:
            self.model = fresh_layout(len(workflow.inputs))

    def real(self):
        workflow = self.workflow
        steps = []
        for step in workflow.steps:
            setting = step.display_setting
            steps.append({"label": step.label, "doc": step.documentation,
                          "inputs": [index_of(workflow.inputs, i) for i in step.inputs],
                          "display": None if setting is None else [step.display_variable_index, setting.selector],
                          "group": sorted(index_of(workflow.inputs, i) for i in step.group_inputs)})
        return {"steps": steps, "spare": sorted(index_of(workflow.inputs, i) for i in workflow.spare_inputs),
                "labels": [i.label for i in workflow.inputs]}

    def verify(self, kind="layout"):
        model = dict(self.model, spare=sorted(self.model["spare"]))
        real = self.real()
        self.ctx.check(real == model, kind, lambda: f"{self.tag}{real} instead of {model}")
        everything = sorted([i for s in real["steps"] for i in s["inputs"]] + real["spare"])
        self.ctx.check(everything == list(range(len(self.workflow.inputs))), "partition",
                       lambda: f"{self.tag}{real} does not partition the {len(self.workflow.inputs)} inputs")

    def verify_schema(self, schema):
        """ The generated form shows every input once, where the layout says. """
        def keys(properties):
            found = []
            for prop in properties:
                found.extend(keys(prop["properties"]) if prop.get("formType") == "group" else [int(prop["key"])])
            return found
        self.ctx.check(len(schema["steps"]) == len(self.model["steps"]), "form", f"{self.tag}number of steps")
        for got, step in zip(schema["steps"], self.model["steps"]):
            self.ctx.check(sorted(keys(got["properties"])) == sorted(step["inputs"]), "form",
                           lambda: f"{self.tag}form step shows {keys(got['properties'])}, expected {step['inputs']}")
            plain = [k for k in keys(got["properties"]) if k not in step["group"]]
            self.ctx.check(plain == [k for k in step["inputs"] if k not in step["group"]], "form-order",
                           lambda: f"{self.tag}form step shows {plain} for {step['inputs']}")
            shown = (got["label"], got["documentation"], got["displayVariable"])
            expected = (step["label"], step["doc"], step["display"][0] if step["display"] else None)
            self.ctx.check(shown == expected, "form", lambda: f"{self.tag}form shows {shown} instead of {expected}")
        spare = keys(schema["spareProperties"])
        self.ctx.check(sorted(spare) == sorted(self.model["spare"]), "form", lambda: f"{self.tag}spare {spare}")

    # ------------------------------------------------------------------------------------------------- edits
    def edit(self, accepted, call, effect):
        before = self.real()
        try:
            schema = call()
        except Exception as exc:  # noqa
            self.ctx.check(not accepted, "edit-refused", lambda: f"{self.tag}valid edit refused: {exc!r}")
            self.ctx.count("rejected-edits")
            self.ctx.check(self.real() == before, "rejected-edit-changed-layout",
                           lambda: f"{self.tag}{before} became {self.real()} by an edit that raised {exc!r}")
            return
        self.ctx.check(accepted, "edit-accepted", lambda: f"{self.tag}invalid edit accepted, {before} became {self.real()}")
        effect()
        self.verify()
        if schema is not None:
            self.verify_schema(schema)

    def locate(self, index):
        for step in self.model["steps"]:
            if index in step["inputs"]:
                return step["inputs"]
        return self.model["spare"]

    def move(self, index, target):
        self.locate(index).remove(index)
        target.append(index)

    def do(self, op):
        import random
        w, m = self.workflow, self.model
        count, n = len(w.inputs), len(m["steps"])
        name, args = op[1], op[2:]
        if name == "change":
            indices, step = args
            ok = not indices or (step < n and all(i < count for i in indices))
            self.edit(ok, lambda: w.change_inputs_step(list(indices), step),
                      lambda: [self.move(i, m["steps"][step]["inputs"]) for i in indices])
        elif name == "remove_input":
            ok = args[0] < count and self.locate(args[0]) is not m["spare"]
            self.edit(ok, lambda: w.remove_input_from_step(args[0]), lambda: self.move(args[0], m["spare"]))
        elif name in ("order_inputs", "order_steps"):
            rng = random.Random(args[-1])
            style = args[-2]
            if name == "order_inputs" and args[0] >= n:
                self.edit(False, lambda: w.reorder_step_inputs(args[0], []), lambda: None)
                return
            base = list(m["steps"][args[0]]["inputs"]) if name == "order_inputs" else list(range(n))
            order = list(base)
            rng.shuffle(order)
            if style == "dup" and order:
                order.append(order[0]) if name == "order_inputs" else order.__setitem__(0, order[-1])
            elif style == "missing" and order:
                order.pop()
            elif style == "extra":
                order.append(count + 5)
            elif style == "neg" and order:
                order[0] = -1
            ok = sorted(order) == sorted(base)
            if name == "order_inputs":
                self.edit(ok, lambda: w.reorder_step_inputs(args[0], list(order)),
                          lambda: m["steps"][args[0]].update(inputs=list(order)))
            else:
                self.edit(ok, lambda: w.reorder_steps(list(order)),
                          lambda: m.update(steps=[m["steps"][i] for i in order]))
        elif name == "insert":
            label, at = args
            new = {"label": label, "doc": "", "inputs": [], "display": None, "group": []}
            self.edit(True, lambda: w.insert_step(label, at),
                      lambda: m["steps"].append(new) if at is None else m["steps"].insert(at, new))
        elif name == "rename":
            self.edit(args[0] < n, lambda: w.rename_step(args[0], args[1]),
                      lambda: m["steps"][args[0]].update(label=args[1]))
        elif name == "doc":
            self.edit(args[0] < n, lambda: w.save_step_documentation(args[0], args[1]),
                      lambda: m["steps"][args[0]].update(doc=args[1]))
        elif name == "remove_step":
            def effect():
                m["spare"].extend(m["steps"][args[0]]["inputs"])
                del m["steps"][args[0]]
            self.edit(args[0] < n, lambda: w.remove_step(args[0]), effect)
        elif name == "reset":
            self.edit(True, w.reset_steps, lambda: m.update(steps=[], spare=list(range(count))))
        elif name == "remove_display":
            self.edit(args[0] < n, lambda: w.remove_step_display(args[0]),
                      lambda: m["steps"][args[0]].update(display=None, group=[]))
        elif name == "rename_input":
            self.edit(args[0] < count, lambda: w.rename_input(args[0], args[1]),
                      lambda: m["labels"].__setitem__(args[0], args[1]))
        elif name == "add_display":
            self.add_display(*args)
        elif name == "look":
            self.verify_schema(w.method_schemas["run"])
            if args[0] == 0:
                w.displayable_display_settings()
            self.verify("layout-changed-by-reading")
        elif name == "compute":
            self.compute(*args)

    def add_display(self, target, step, selector):
        w, m = self.workflow, self.model
        node = None
        if target == "out-of-range":
            index = len(w.variables) + 3
        elif target in ("nbv", "int"):
            pool = w.nonblock_variables if target == "nbv" else [v for v in w.variables if v.type_ is int]
            if not pool:
                return
            index = index_of(w.variables, pool[0])
        else:
            node = target[0]
            index = index_of(w.variables, self.names.block(node).outputs[target[1]])
        # only variables announced as displayable can be displayed
        typed = node is not None and w.variables[index].type_ is models.Part
        ok = typed and step < len(m["steps"]) and selector != "Unknown"
        self.ctx.count("displays-asked")

        def effect():
            # an input that is locked needs no value from the user: it is not part of what a display asks for
            locks = wfgen.locked_keys(self.spec)
            needed = sorted(self.names.index(k) for k in wfgen.needed_keys(self.spec, node) if k not in locks)
            earlier = {i for s in m["steps"][:step] for i in s["inputs"]}
            moved = [i for i in needed if i not in earlier]
            mine = m["steps"][step]
            kept = [i for i in mine["inputs"] if i not in moved]
            for i in moved:
                self.locate(i).remove(i)
            real = self.real()["steps"][step]["inputs"]
            self.ctx.check(real[:len(kept)] == kept and sorted(real[len(kept):]) == moved, "display-inputs",
                           lambda: f"{self.tag}step shows {real}, expected {kept} then {moved}")
            mine.update(inputs=list(real), display=[index, selector], group=needed)
        self.edit(ok, lambda: w.add_step_display(index, step, selector), effect)

    def compute(self, step):
        """ Display of a step, computed from what the user has filled in so far. """
        w, m = self.workflow, self.model
        if step >= len(m["steps"]):
            return
        display = m["steps"][step]["display"]
        values = {str(self.names.index(k)): serialized(v) for k, v in self.inputs.items()}
        result = w.compute_step_display(step, values)
        if display is None:
            self.ctx.check(result is None, "step-display", f"{self.tag}a step without display shows {result}")
        elif display[1] == "Sheet":
            node, port = next((i, o) for i in range(len(self.spec["nodes"])) for o in range(8)
                              if o < len(self.names.block(i).outputs)
                              and w.variables[display[0]] is self.names.block(i).outputs[o])
            ref = wfgen.reference(self.spec, {k: wfgen.to_ref(v) for k, v in self.inputs.items()}, nodes=[node])
            part = ref["outs"][node][port]
            self.ctx.check(result["data"] == f"# Part {part.a}\n\nb = {part.b}" and not result["traceback"],
                           "step-display", lambda: f"{self.tag}shows {result}, the part being {wfgen.canon(part)}")
            self.ctx.count("step-displays")
        self.verify("layout-changed-by-display")


def serialized(value):
    real = wfgen.to_real(value)

    def plain(item):
        if isinstance(item, list):
            return [plain(i) for i in item]
        return item.to_dict() if hasattr(item, "to_dict") else item
    return plain(real)


def segment(payload, ctx):
    from dessia_common.workflow.core import Workflow
    plan, number = payload["plan"], payload["number"]
    spec = plan["spec"]
    layouts = []
    if payload["layouts"] is None:
        layouts.append(Layout(spec, wfgen.build(spec, description="d", documentation="doc"), None, ctx, "original: "))
    else:
        for i, (text, model, ids) in enumerate(payload["layouts"]):
            workflow = Workflow.dict_to_object(json.loads(text))
            layouts.append(Layout(spec, workflow, model, ctx, f"restored {i}: "))
            layouts[-1].verify("restored-layout")
            ctx.check([s.id_ for s in workflow.steps] == ids, "restored-step-ids", f"{ids}")
    for layout in layouts:
        layout.inputs = plan["inputs"]
    for op in plan["segments"][number]["ops"] if number < len(plan["segments"]) else []:
        layout = layouts[op[0] % len(layouts)]
        others = [(other, other.real()) for other in layouts if other is not layout]
        if op[1] == "copy":
            if len(layouts) < 4:
                workflow = layout.workflow.copy()
                twin = Layout(spec, workflow, json.loads(json.dumps(layout.model)), ctx, f"copy of {layout.tag}")
                twin.inputs = plan["inputs"]
                twin.verify("copied-layout")
                layout.verify("layout-changed-by-copy")
                ctx.check(workflow == layout.workflow, "copy-not-equal", f"{twin.tag}differs from its original")
                layouts.append(twin)
        else:
            layout.do(op)
        ctx.ev(op)
        for other, view in others:
            ctx.check(other.real() == view, "interference",
                      lambda: f"editing {layout.tag}changed {other.tag}{view} became {other.real()}")
        ctx.state(len(spec["nodes"]), json.dumps(layout.model["steps"]))
    out = []
    for layout in layouts:
        layout.verify()
        layout.verify_schema(layout.workflow.method_schemas["run"])
        text = json.dumps(layout.workflow.to_dict())
        layout.verify("layout-changed-by-saving")
        out.append((text, layout.model, [s.id_ for s in layout.workflow.steps]))
    return out


def run(plan, ctx):
    layouts = None
    for number in range(len(plan["segments"]) + 1):
        seam = plan["segments"][min(number, len(plan["segments"]) - 1)]["seam"] if plan["segments"] else plan["seam"]
        layouts = ctx.restart("simkit.props.c05", "segment", {"plan": plan, "number": number, "layouts": layouts}, seam)
        if number < len(plan["segments"]):
            ctx.fault("process-crash")
