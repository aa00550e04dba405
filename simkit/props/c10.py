"""
C10: progress reports are monotonic, bounded and end at completion.

Histories of evaluations of one state (whole runs, block by block, partial inputs, failures and cancellations, restarts)
with user code reporting its own progress at any granularity, watched through the progress callback.
"""
import json

from simkit import faults, models, seams, wfgen, wfsim

EPS = 1e-9
REPORTS = [[], [1.0], [0.0, 1.0], [0.25, 0.5, 0.75, 1.0], [0.5], [0.0], [i / 30 for i in range(31)], [0.1, 0.1, 0.9], [0.999],
           [0, 1]]


def gen(rng, tier):
    tracked = rng.random() < 0.7
    kinds = None
    if tracked:
        kinds = [k for k in wfgen.KINDS if wfgen.KINDS[k]["weight"]] + ["tracked"] * 8
    spec = wfgen.gen_spec(rng, kinds=kinds, size=rng.choice([1, 2, 3, 4, 6, 9]))
    inputs = wfgen.gen_inputs(rng, spec)
    nodes = len(spec["nodes"])
    late = [k for k in inputs if rng.random() < rng.choice([0, 0.3])]
    ops = []
    for _ in range(rng.randint(1, 8 if tier == "quick" else 20)):
        op = rng.choices(["eval", "next", "continue", "run", "supply", "restart", "again"], [4, 3, 2, 0.6, 2, 0.6, 0.4])[0]
        ops.append([op, rng.randrange(nodes)] if op == "eval" else [op])
    return {"spec": spec, "inputs": inputs, "late": late, "ops": ops, "seam": seams.gen_seam(rng),
            "reports": [rng.choice(REPORTS) for _ in range(rng.randint(1, 4))],
            "user": [[rng.randint(1, 4 * nodes), rng.choice(faults.EXCEPTIONS)] for _ in range(rng.choice([0, 0, 1, 2]))],
            "callback": [[rng.randint(1, 20), rng.choice(faults.EXCEPTIONS)] for _ in range(rng.choice([0, 0, 1, 2]))],
            "shrink": ["ops", "user", "callback", "late"]}


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]], "ops": plan["ops"], "user": plan["user"],
            "callback": plan["callback"], "reports": [len(r) for r in plan["reports"]]}


class Watch:
    """ The progress callback of one call. """

    def __init__(self, ctx, world, progress):
        self.ctx, self.world, self.progress = ctx, world, progress
        self.reports = []

    def __call__(self, value):
        ctx = self.ctx
        ctx.check(isinstance(value, (int, float)) and not isinstance(value, bool), "not-a-number", lambda: repr(value))
        ctx.check(-EPS <= value <= 1 + EPS, "out-of-bounds", lambda: f"progress {value} reported ({self.reports})")
        if self.reports:
            ctx.check(value >= self.reports[-1] - EPS, "decreasing", lambda: f"{value} reported after {self.reports}")
        self.reports.append(value)
        self.world["count"] += 1
        name = self.world["callback"].pop(self.world["count"], None)
        if name:
            ctx.fault(f"callback:{name}")
            raise faults.make(name, "simulated cancellation")


def run(plan, ctx):
    spec, inputs = plan["spec"], plan["inputs"]
    world = {"count": 0, "callback": {int(n): name for n, name in plan["callback"]}}
    user = faults.UserCode(ctx, plan["user"])
    calls = {"n": 0}

    def observer(what, args):
        if what == "Part.tracked":
            models.REPORTS = plan["reports"][calls["n"] % len(plan["reports"])]
            calls["n"] += 1
    saved = models.REPORTS
    ctx.cleanups.append(lambda: setattr(models, "REPORTS", saved))
    user.observer = observer
    user.install()
    user.armed = False
    workflow = wfgen.build(spec)
    names = wfgen.Names(spec, workflow)
    model = wfsim.Model(spec)
    probe = wfsim.Probe().install()
    ctx.cleanups.append(probe.remove)
    here = {"model": model}

    def evaluated(block, values, result):
        node = wfsim.node_of(block)
        if node is not None and here["model"] is not None:
            here["model"].outs[node] = True
    probe.after = evaluated
    now = {k: v for k, v in inputs.items() if k not in plan["late"]}
    state = workflow.start_run({names.index(k): wfgen.to_real(v) for k, v in now.items()})
    waiting = [k for k in inputs if k in plan["late"]]

    def attempt(action, progress, label):
        """ One call with a watched callback. Returns (reports, exception). """
        watch = Watch(ctx, world, progress)
        before = progress()
        user.armed = True
        exc = None
        try:
            action(watch)
        except Exception as error:  # noqa
            from simkit.engine import Violation
            if isinstance(error, Violation):
                raise
            exc = error
        except (faults.Cancelled, KeyboardInterrupt) as error:
            exc = error
        finally:
            user.armed = False
        if exc is not None and not str(exc).count("simulated"):
            raise exc
        after = progress()
        ctx.check(0 <= after <= 1 and after >= before - EPS, "progress", lambda: f"{label}: from {before} to {after}")
        if watch.reports:
            ctx.check(watch.reports[0] >= before - EPS, "decreasing",
                      lambda: f"{label}: {watch.reports[0]} reported while the progress was {before}")
            if exc is None:
                ctx.check(abs(watch.reports[-1] - after) < EPS, "last-report",
                          lambda: f"{label}: reports {watch.reports[-3:]}, progress {after}")
        if exc is None and after > before + EPS:
            ctx.check(watch.reports, "not-reported", lambda: f"{label}: from {before} to {after} without any report")
        ctx.ev(label, len(watch.reports), type(exc).__name__)
        ctx.count("reports", len(watch.reports))
        return watch.reports, exc

    def whole(action, label):
        """ A complete run on its own. """
        here["model"] = None
        done = {"p": 0.0}

        def go(watch):
            action(watch)
            done["p"] = 1.0
        reports, exc = attempt(go, lambda: done["p"], label)
        if exc is None:
            ctx.check(reports and abs(reports[-1] - 1) < EPS, "not-complete", lambda: f"{label}: reports {reports[-4:]}")
        here["model"] = model

    def check_state():
        main = model.main
        expected = len([n for n in main if n in recorded()]) / len(main)
        ctx.check(abs(state.progress - expected) < EPS, "progress", lambda: f"{state.progress} instead of {expected}")

    def recorded():
        return {wfsim.node_of(state.workflow.blocks[i]) for i in state.to_dict()["evaluated_blocks_indices"]}

    for op in plan["ops"]:
        if op[0] == "eval":
            position = [wfsim.node_of(b) for b in state.workflow.blocks].index(op[1])
            attempt(lambda cb: state.block_evaluation(position, progress_callback=cb), lambda: state.progress, "eval")
        elif op[0] == "next":
            attempt(lambda cb: state.evaluate_next_block(progress_callback=cb), lambda: state.progress, "next")
        elif op[0] == "continue":
            attempt(lambda cb: state.continue_run(progress_callback=cb), lambda: state.progress, "continue")
        elif op[0] in ("run", "again"):
            values = {names.index(k): wfgen.to_real(v) for k, v in inputs.items()}
            whole(lambda cb: workflow.run(values, progress_callback=cb), "run")
            if op[0] == "again" and not plan["user"] and not plan["callback"]:
                first = workflow.run(values)
                whole(lambda cb: first.run_again(values, progress_callback=cb), "again")
        elif op[0] == "supply" and waiting:
            key = waiting.pop(0)
            state.add_input_value(names.index(key), wfgen.to_real(inputs[key]))
        elif op[0] == "restart" and not any(n["k"] in ("archive", *wfgen.EXPORT_KINDS) for n in spec["nodes"]):
            before = state.progress
            document = json.loads(json.dumps(state.to_dict()))
            from dessia_common.workflow.core import WorkflowState
            state = WorkflowState.dict_to_object(document)
            ctx.fault("restored-state")
            ctx.check(abs(state.progress - before) < EPS, "progress", lambda: f"{state.progress} once restored, was {before}")
        check_state()
        ctx.state(tuple(n["k"] for n in spec["nodes"]), tuple(sorted(recorded())), op[0])
    user.faults.clear()
    world["callback"].clear()
    for key in waiting:
        state.add_input_value(names.index(key), wfgen.to_real(inputs[key]))
    reports, exc = attempt(lambda cb: state.continue_run(progress_callback=cb), lambda: state.progress, "drain")
    ctx.check(abs(state.progress - 1) < EPS, "not-complete", lambda: f"progress {state.progress} once everything is evaluated")
    whole(lambda cb: workflow.run({names.index(k): wfgen.to_real(v) for k, v in inputs.items()}, progress_callback=cb), "run")
