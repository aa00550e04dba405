"""
C11: a failing display or export does not affect the others.

Histories of displays and exports of objects, workflow states and workflow runs, with display code that fails or returns
nonsense, and data modified in between; every display is compared with the data it must show at that moment.
"""
import io
import json
import zipfile

from simkit import faults, models, seams, wfgen, wfsim

SHOW = [*wfgen.DISPLAY_KINDS]
FILES = [*wfgen.EXPORT_KINDS, "archive"]
SELECTORS = {"md": "Sheet", "plot": "Plot", "cad": "CAD"}


def gen(rng, tier):
    plan = {"subject": rng.choice(["run", "run", "run", "state", "state", "object"]), "seam": seams.gen_seam(rng),
            "shrink": ["ops"]}
    if plan["subject"] == "object":
        plan["part"] = [rng.randrange(100), rng.randrange(10)]
    else:
        kinds = [k for k in wfgen.KINDS if k not in wfsim.MUTATORS]
        for _ in range(60):
            spec = wfgen.gen_spec(rng, size=rng.choice([1, 2, 3, 5, 7, 10]), kinds=kinds, linear=False)
            names = [n["k"] for n in spec["nodes"]]
            shown = [k for k in names if k in SHOW + FILES]
            if shown and all(names.count(k) <= 1 for k in SELECTORS):
                break
        else:
            return gen(rng, tier)
        if rng.random() < 0.5:  # An early output gives long secondary branches
            outs = [[i, p] for i in range(len(spec["nodes"])) for p, t in enumerate(wfgen.node_ports(spec, i)[1])
                    if t not in ("D", "F")]
            spec["out"] = outs[rng.randrange((len(outs) + 1) // 2)]
        if rng.random() < 0.4:
            extend(rng, spec)
        plan.update(spec=spec, inputs=wfgen.gen_inputs(rng, spec))
    ops = []
    for _ in range(rng.randint(2, 8 if tier == "quick" else 20)):
        op = rng.choices(["display", "displays", "block", "export", "zip", "edit", "supply", "eval", "continue"],
                         [3, 3, 1.5, 3, 0.7, 2.5, 1, 1.5, 0.4])[0]
        ops.append({"op": op, "pick": rng.randrange(1000), "spoil": rng.choice([None, None, None, None, rng.randrange(6)]),
                    "faults": [[rng.choice([1, 1, 2, 3, 4, 6]), rng.choice(faults.EXCEPTIONS)]
                               for _ in range(rng.choice([0, 0, 1, 1, 2]))]})
    plan["ops"] = ops
    return plan


def extend(rng, spec):
    """ Add a secondary branch whose blocks meet again after different distances. """
    nodes = spec["nodes"]
    main = wfgen.main_nodes(spec)
    ports = [[i, p] for i in sorted(main) for p, t in enumerate(wfgen.node_ports(spec, i)[1]) if t == "P"]
    parts, numbers = [["pipe", *rng.choice(ports)] if ports and rng.random() < 0.8 else ["free"]], []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["scaled", "scaled", "total", "getattr", "combine"])
        near = lambda pool: rng.choice(pool[-2:] * 2 + pool) if pool else ["free"]  # noqa
        if kind == "combine":
            ins = [near(numbers), near(numbers)]
        elif kind == "getattr":
            ins = [near(parts)]
        else:
            ins = [near(parts), near(numbers)] + ([["free"]] if kind == "scaled" else [])
        nodes.append({"k": kind, "ins": ins, "p": {}})
        (parts if kind == "scaled" else numbers).append(["pipe", len(nodes) - 1, 0])
    nodes.append({"k": "scaled", "ins": [rng.choice(parts), numbers[-1] if numbers else ["free"], ["free"]], "p": {}})
    parts.append(["pipe", len(nodes) - 1, 0])
    free = [k for k in ("md", "cad", "plot", "exptxt") if k == "exptxt" or all(n["k"] != k for n in nodes)]
    for kind in rng.sample(free, rng.randint(1, min(2, len(free)))):
        nodes.append({"k": kind, "ins": [rng.choice(parts[-2:])] + ([["free"]] if kind == "exptxt" else []),
                      "p": {"filename": f"f{len(nodes)}"} if kind == "exptxt" else {}})
    new = [i for i in range(len(nodes)) if i not in spec["order"]]
    for i in new:
        spec["order"].insert(rng.randint(0, len(spec["order"])), i)


def describe(plan):
    return {"subject": plan["subject"], "kinds": [n["k"] for n in plan["spec"]["nodes"]] if "spec" in plan else None,
            "ops": [[o["op"], o["pick"], o["faults"], o["spoil"]] for o in plan["ops"]]}


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for key, value in (("faults", []), ("spoil", None)):
            if op[key] != value:
                candidate = json.loads(json.dumps(plan))
                candidate["ops"][i][key] = value
                yield candidate


class Nonsense:
    """ Cannot be serialized. """


def nonsense(pick):
    method = ["sheet", "plot_view", "cad"][pick % 3]
    return {method: [Nonsense(), 12345][pick // 3]}


def real_to_ref(value):
    if isinstance(value, models.Part):
        return wfgen.Ref(value.a, value.b, value.name)
    if isinstance(value, list):
        return [real_to_ref(v) for v in value]
    if isinstance(value, tuple):
        return tuple(real_to_ref(v) for v in value)
    return value


def shown(kind, data):
    """ The model data a display shows. """
    if kind == "md":
        return data
    if kind == "plot":
        return [[p["cx"], p["cy"]] for p in data["primitives"]]
    if kind == "cad":
        return data["meshes"]
    return objects_shown(kind, data)


def objects_shown(kind, data):
    """ Values, and position in the displayed list, of what a plot of several objects shows. """
    def samples(plot, attributes):
        return [[int(e["reference_path"].split("/")[-1]), *(e["values"].get(a) for a in attributes)] for e in plot["elements"]]
    overall = samples(data, "ab")
    if kind == "mplot":
        return overall
    return [overall, [[p["type_"], p["attribute_names"], samples(p, p["attribute_names"])] for p in data["plots"]]]


def to_show(kind, arg, node=0):
    if kind == "md":
        return f"# Part {arg.a}\n\nb = {arg.b}"
    if kind in ("plot", "cad"):
        return [[arg.a, arg.b]]
    if kind == "mplot":
        return [[i, p.a, p.b] for i, p in enumerate(arg)]
    views = wfgen.views(node)
    return [[[i, p.a, p.b] for i, p in enumerate(arg)],
            [[{"s": "scatterplot", "p": "parallelplot"}[v[0]], list(v[1:]), [[i, *(getattr(p, a) for a in v[1:])]
                                                                           for i, p in enumerate(arg)]] for v in views]]


def to_export(kind, args):
    part = args[0]
    if kind == "exptxt":
        return f"part a={part.a} b={part.b} (±1 µm)\n"
    if kind == "expbin":
        return f"part:{part.a}:{part.b}".encode()
    return json.dumps({"object_class": "simkit.models.Part", "name": part.name, "a": part.a, "b": part.b, "_references": {}},
                      sort_keys=True)


def exported(kind, content):
    if kind == "expjson":
        return json.dumps(json.loads(content), sort_keys=True)
    return content


class Unreachable(Exception):
    """ A display needs something that is not computed yet. """


class Subject:
    """ A workflow state or run, and what its displays must show now. """

    def __init__(self, plan, ctx, user):
        self.plan, self.ctx, self.user = plan, ctx, user
        self.spec = plan["spec"]
        self.main = wfgen.main_nodes(self.spec)
        self.workflow = wfgen.build(self.spec)
        self.names = wfgen.Names(self.spec, self.workflow)
        values = {self.names.index(k): wfgen.to_real(v) for k, v in plan["inputs"].items()}
        self.state = self.workflow.start_run(values)
        self.probe = wfsim.Probe().install()
        ctx.cleanups.append(self.probe.remove)
        self.done, self.touched = set(), []
        self.probe.before = self.before
        self.probe.after = self.after
        nodes = self.spec["nodes"]
        self.displays = [i for i, n in enumerate(nodes) if n["k"] in SHOW]
        self.exports = [i for i, n in enumerate(nodes) if n["k"] in FILES]
        if plan["subject"] == "run":
            self.state.continue_run()
            self.check_initial()
            self.state = self.state.to_workflow_run(name="run")

    def before(self, block, values):
        node = wfsim.node_of(block)
        if node is not None:
            self.touched.append(node)

    def after(self, block, values, result):
        if wfsim.node_of(block) is not None:
            self.done.add(wfsim.node_of(block))

    def check_initial(self):
        """ Before any edition: the values the displays read are those of the reference. """
        ref = wfgen.reference(self.spec, {k: wfgen.to_ref(v) for k, v in self.plan["inputs"].items()})
        for node in self.spec["order"]:
            for port, source in enumerate(self.spec["nodes"][node]["ins"]):
                if node not in self.main and source[0] == "pipe" and source[1] in self.main:
                    if self.pipe(node, port) not in self.state.values:
                        continue
                    value = self.state.values[self.pipe(node, port)]
                    self.ctx.check(wfgen.canon(value) == wfgen.canon(ref["outs"][source[1]][source[2]]), "wrong-value",
                                   lambda: f"n{node}.{port} holds {wfgen.canon(value)}")

    def pipe(self, node, port):
        target = self.names.block(node).inputs[port]
        return next(p for p in self.workflow.pipes if p.output_variable is target)

    def given(self, key):
        index = self.names.index(key)
        if index in self.state.input_values:
            return self.state.input_values[index]
        default = self.names.defaults[key]
        if default is None:
            raise Unreachable(key)
        return default[0]

    def args(self, node, memo=None):
        """ What a secondary node is evaluated on now (reference values). """
        memo = {} if memo is None else memo
        args = []
        for port, source in enumerate(self.spec["nodes"][node]["ins"]):
            if source[0] != "pipe":
                key = f"n{node}.{port}" if source[0] == "free" else f"v{source[1]}"
                args.append(real_to_ref(self.given(key)))
            elif source[1] in self.main:
                if source[1] not in self.done:
                    raise Unreachable(f"n{source[1]}")
                pipe = self.pipe(node, port)
                self.ctx.check(pipe in self.state.values, "value-not-kept", lambda: f"n{node}.{port}, read by a display")
                args.append(real_to_ref(self.state.values[pipe]))
            else:
                if source[1] not in memo:
                    memo[source[1]] = wfgen.ref_node(self.spec["nodes"][source[1]], self.args(source[1], memo))
                args.append(memo[source[1]][source[2]])
        return args

    def expected(self, node):
        """ ("data", what is shown) or ("fails", reason). """
        kind = self.spec["nodes"][node]["k"]
        try:
            args = self.args(node)
            if kind == "archive":
                inner = [s[1] for s in self.spec["nodes"][node]["ins"][:-1]]
                return "data", [[self.file_name(n), to_export(self.spec["nodes"][n]["k"], self.args(n))] for n in inner]
            return "data", to_export(kind, args) if kind in FILES else to_show(kind, args[0], node)
        except Unreachable as exc:
            return "fails", str(exc)

    def file_name(self, node):
        extension = {"exptxt": "txt", "expbin": "bin", "expjson": "json", "archive": "zip"}[self.spec["nodes"][node]["k"]]
        return f"{self.args(node)[-1]}.{extension}"

    def index(self, node):
        return self.workflow.blocks.index(self.names.block(node))

    def selector(self, node):
        kind = self.spec["nodes"][node]["k"]
        return SELECTORS.get(kind) or {"mplot": "Multi ", "mobj": "Objects "}[kind] + f"n{node}"

    def essentials(self):
        state = self.state
        return [state.progress, wfgen.canon(state.output_value),
                sorted([i, wfgen.canon(v)] for i, v in state.input_values.items()),
                sorted(n for n in self.main if n in self.recorded())]

    def recorded(self):
        return {wfsim.node_of(self.workflow.blocks[i]) for i in self.state.to_dict()["evaluated_blocks_indices"]}

    def parts(self):
        """ Parts held by the state that displays read. """
        found = []
        for node in self.spec["order"]:
            if node in self.main:
                continue
            for port, source in enumerate(self.spec["nodes"][node]["ins"]):
                try:
                    if source[0] == "pipe" and source[1] in self.main and source[1] in self.done:
                        collect(self.state.values.get(self.pipe(node, port)), found)
                    elif source[0] != "pipe":
                        collect(self.given(f"n{node}.{port}" if source[0] == "free" else f"v{source[1]}"), found)
                except Unreachable:
                    pass
        return found


def collect(value, found):
    if isinstance(value, models.Part):
        if not any(p is value for p in found):
            found.append(value)
    elif isinstance(value, (list, tuple)):
        for v in value:
            collect(v, found)


def guarded(user, op, action):
    """ Call under the faults of the op; returns (answer, exception, fired). """
    user.fired = []
    user.faults = {user.count + n: name for n, name in op["faults"]}
    user.armed = True
    if op["spoil"] is not None and op["op"] in ("display", "displays"):
        models.SPOIL = nonsense(op["spoil"])
        user.ctx.fault("nonsense-display")
    try:
        return action(), None, list(user.fired)
    except Exception as exc:  # noqa
        from simkit.engine import Violation
        if isinstance(exc, Violation):
            raise
        return None, exc, list(user.fired)
    except (faults.Cancelled, KeyboardInterrupt) as exc:
        return None, exc, list(user.fired)
    finally:
        user.armed, user.faults, models.SPOIL = False, {}, {}


def check_display(ctx, label, kind, display, expected, fired, spoilt):
    """ One display dict against what it must show. Returns whether it failed. """
    if display["traceback"]:
        ctx.check(display["data"] is None, "data-of-failure", lambda: f"{label}: data together with a traceback")
        ctx.check(expected[0] == "fails" or fired or spoilt, "display-failed",
                  lambda: f"{label}: {display['traceback'][-400:]}")
        return True
    if spoilt:
        return False
    ctx.check(expected[0] == "data", "unreachable-display", lambda: f"{label} shows {str(display['data'])[:200]} although "
                                                                    f"{expected[1]} is not computed")
    got = shown(kind, display["data"])
    ctx.check(got == expected[1], "wrong-display", lambda: f"{label} shows {got} instead of {expected[1]}")
    return False


def spoils(op, kind, chain=()):
    """ Whether the display of a kind is (through its chain) made of the nonsense of the op. """
    if op["spoil"] is None:
        return False
    return {"md": "sheet", "plot": "plot_view", "cad": "cad"}.get(kind) in nonsense(op["spoil"])


def run(plan, ctx):
    user = faults.UserCode(ctx).install()
    user.armed = False
    ctx.cleanups.append(lambda: setattr(models, "SPOIL", {}))
    if plan["subject"] == "object":
        return run_object(plan, ctx, user)
    subject = Subject(plan, ctx, user)
    serial = 0
    for op in plan["ops"]:
        serial += 1
        subject.touched = []
        state, name = subject.state, op["op"]
        if name in ("eval", "continue"):
            if plan["subject"] == "state":
                if name == "continue":
                    state.continue_run()
                else:
                    node = op["pick"] % len(plan["spec"]["nodes"])
                    if node in subject.main:
                        state.block_evaluation(subject.index(node))
            continue
        if name == "edit":
            parts = subject.parts()
            if parts:
                part = parts[op["pick"] % len(parts)]
                part.a += 1000 * serial
                ctx.ev("edit", part.a)
            continue
        if name == "supply":
            free = [k for k in subject.names.keys if not k.startswith("v") and int(k[1:].split(".")[0]) not in subject.main
                    and subject.names.types[k] in ("i", "P") and plan["subject"] == "state"]
            if free:
                key = free[op["pick"] % len(free)]
                value = 7000 + serial if subject.names.types[key] == "i" else models.Part(7000 + serial, 1, name="supplied")
                state.add_input_value(subject.names.index(key), value)
            continue
        before = subject.essentials()
        if name in ("display", "displays"):
            targets = subject.displays
            if name == "display":
                targets = targets[op["pick"] % len(targets):][:1] if targets else []
                if not targets:
                    continue
            expected = {n: subject.expected(n) for n in targets}
            if name == "display":
                node = targets[0]
                answer, exc, fired = guarded(user, op, lambda: [state._display_from_selector(subject.selector(node)).to_dict()])
            else:
                answer, exc, fired = guarded(user, op, state._displays)
            if exc is not None:
                ctx.check(not isinstance(exc, Exception) and fired, "displays-failed", lambda: f"{name}: {exc!r}")
            else:
                settings = state.display_settings()
                if name == "displays":
                    ctx.check(len(answer) == len(settings), "missing-display", lambda: f"{len(answer)} of {len(settings)}")
                failed = 0
                for node in targets:
                    kind = plan["spec"]["nodes"][node]["k"]
                    at = [s.selector for s in settings].index(subject.selector(node)) if name == "displays" else 0
                    bad = check_display(ctx, f"n{node} ({kind})", kind, answer[at], expected[node], fired, spoils(op, kind))
                    failed += bad and expected[node][0] == "data" and not spoils(op, kind)
                if plan["subject"] == "run" and name == "displays":
                    documentation = answer[0]
                    ctx.check(not documentation["traceback"], "display-failed", lambda: documentation["traceback"][-400:])
                ctx.check(failed <= len(fired), "failure-spread", lambda: f"{failed} displays failed after {fired}")
        elif name in ("block", "export"):
            targets = subject.displays if name == "block" else subject.exports
            if not targets:
                continue
            node = targets[op["pick"] % len(targets)]
            kind = plan["spec"]["nodes"][node]["k"]
            expected = subject.expected(node)
            if name == "block":
                answer, exc, fired = guarded(user, op, lambda: state.block_display(subject.index(node), "#/somewhere"))
            else:
                from dessia_common.files import BinaryFile, StringFile
                stream = BinaryFile() if kind in ("expbin", "archive") else StringFile()
                answer, exc, fired = guarded(user, op, lambda: state.export(stream, subject.index(node)))
            if exc is not None:
                ctx.check(fired or expected[0] == "fails", "display-failed", lambda: f"{name} of n{node} ({kind}): {exc!r}")
            else:
                ctx.check(expected[0] == "data", "unreachable-display", lambda: f"{name} of n{node}: {expected[1]} not computed")
                if name == "export":
                    content = stream.getvalue()
                    if kind == "archive":
                        got = archive_content(plan, subject, node, content)
                    else:
                        got = exported(kind, content)
                else:
                    got = shown_object(kind, answer)
                ctx.check(got == expected[1], "wrong-display", lambda: f"{name} of n{node} ({kind}): {got} instead of {expected[1]}")
        elif name == "zip":
            nodes = [n for n in plan["spec"]["order"] if plan["spec"]["nodes"][n]["k"] in wfgen.EXPORT_KINDS]
            if plan["subject"] != "run" or len({subject.file_name(n) for n in nodes}) != len(nodes):
                continue
            from dessia_common.files import BinaryFile
            archive = BinaryFile()
            expected = [[subject.file_name(n), subject.expected(n)[1]] for n in nodes]
            answer, exc, fired = guarded(user, op, lambda: state.to_zip_stream(archive))
            if exc is not None:
                ctx.check(fired, "display-failed", lambda: f"zip: {exc!r}")
            else:
                got = unzip(archive.getvalue(), [plan["spec"]["nodes"][n]["k"] for n in nodes])
                ctx.check(got == expected, "wrong-display", lambda: f"zip: {got} instead of {expected}")
        again = [n for n in subject.touched if n in subject.main]
        ctx.check(not again, "main-block-evaluated", lambda: f"{name} evaluated {again}")
        after = subject.essentials()
        ctx.check(before == after, "state-changed", lambda: f"{name}: {before} became {after}")
        ctx.state(plan["subject"], tuple(n["k"] for n in plan["spec"]["nodes"]), name, tuple(sorted(subject.done)), len(op["faults"]))
    # Causes are gone: everything that can be shown is
    subject.touched = []
    calm = {"op": "displays", "faults": [], "spoil": None}
    if subject.displays:
        for node in subject.displays:
            kind = plan["spec"]["nodes"][node]["k"]
            expected = subject.expected(node)
            display, exc, _ = guarded(user, calm, lambda: subject.state._display_from_selector(subject.selector(node)).to_dict())
            if exc is not None:
                raise exc
            check_display(ctx, f"finally, n{node} ({kind})", kind, display, expected, [], False)
        check_references(subject)
    ctx.check(not [n for n in subject.touched if n in subject.main], "main-block-evaluated", "final displays")


def check_references(subject):
    """ The reference of a display leads to the data it shows, in the saved state. """
    ctx, nodes = subject.ctx, subject.spec["nodes"]
    saved = None
    settings = {s.selector: s for s in subject.state.display_settings()}
    for node in subject.displays:
        source = nodes[node]["ins"][0]
        if source[0] == "pipe" and source[1] not in subject.main or source[0] == "nbv":
            continue  # what a secondary branch computes is not kept
        try:
            value = subject.args(node)[0]
        except Unreachable:
            continue
        reference = settings[subject.selector(node)].reference_path
        saved = saved or subject.state.to_dict(use_pointers=False)
        found = saved
        for part in reference.split("/")[1:]:
            found = found.get(part) if isinstance(found, dict) else None
        want = [[v.a, v.b] for v in (value if isinstance(value, list) else [value])]
        got = [[f.get("a"), f.get("b")] if isinstance(f, dict) else f for f in (found if isinstance(found, list) else [found])]
        ctx.count("references")
        ctx.check(got == want, "wrong-reference", lambda: f"n{node} refers to {reference}: {got} instead of {want}")
        if type(subject.state).__name__ == "WorkflowRun":
            found = subject.state._get_from_path(reference)
            got = [[v.a, v.b] for v in (found if isinstance(found, list) else [found])]
            ctx.check(got == want, "wrong-reference", lambda: f"n{node}: object at {reference}: {got} instead of {want}")


def shown_object(kind, answer):
    """ What block_display returns: the display itself, not serialized. """
    if kind == "md":
        return answer
    if kind == "cad":
        return answer["meshes"]
    data = answer if isinstance(answer, dict) else answer.to_dict()
    if kind == "plot":
        return [[p["cx"], p["cy"]] for p in data["primitives"]]
    return objects_shown(kind, data)


def unzip(data, kinds):
    with zipfile.ZipFile(io.BytesIO(data)) as archive:
        out = []
        for info, kind in zip(archive.infolist(), kinds):
            content = archive.read(info)
            out.append([info.filename, exported(kind, content if kind == "expbin" else content.decode("utf-8"))])
        return out if len(archive.infolist()) == len(kinds) else [i.filename for i in archive.infolist()]


def archive_content(plan, subject, node, data):
    inner = [s[1] for s in plan["spec"]["nodes"][node]["ins"][:-1]]
    return unzip(data, [plan["spec"]["nodes"][n]["k"] for n in inner])


def run_object(plan, ctx, user):
    part = models.Part(*plan["part"], name="displayed")
    kinds = {"Sheet": "md", "Plot": "plot", "CAD": "cad"}
    serial = 0
    for op in plan["ops"]:
        serial += 1
        if op["op"] == "edit":
            part.a += serial
            continue
        form = wfgen.canon(part)
        if op["op"] in ("display", "block"):
            selector = sorted(kinds)[op["pick"] % 3]
            op = {**op, "op": "display"}
            answer, exc, fired = guarded(user, op, lambda: [part._display_from_selector(selector).to_dict()])
            chosen = [selector]
        else:
            op = {**op, "op": "displays"}
            answer, exc, fired = guarded(user, op, part._displays)
            chosen = list(kinds)
        if exc is not None:
            ctx.check(not isinstance(exc, Exception) and fired, "displays-failed", lambda: f"{op['op']}: {exc!r}")
        else:
            settings = [s.selector for s in part.display_settings()]
            failed = 0
            for selector in chosen:
                display = answer[settings.index(selector)] if op["op"] == "displays" else answer[0]
                spoilt = spoils(op, kinds[selector])
                bad = check_display(ctx, selector, kinds[selector], display, ("data", to_show(kinds[selector], part)), fired, spoilt)
                failed += bad and not spoilt
            ctx.check(failed <= len(fired), "failure-spread", lambda: f"{failed} displays failed after {fired}")
        ctx.check(wfgen.canon(part) == form, "state-changed", "the displayed object changed")
        ctx.state("object", op["op"], tuple(tuple(f) for f in op["faults"]), op["spoil"])
