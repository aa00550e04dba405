"""
C02: failing evaluations leave the state consistent and resumable.
"""
import os

from simkit import faults, seams, wfgen, wfsim

CALLABLE = {"inst": "Part.__init__", "build": "Part.build", "unit": "Part.unit", "combine": "Part.combine", "total": "Part.total",
            "scaled": "Part.scaled", "tracked": "Part.tracked", "bump": "Part.bump", "fan": "Part.fan"}
DISPLAY_CODE = ("Part.sheet", "Part.plot_view", "Part.cad")


def gen(rng, tier):
    family = rng.choice(["user", "user", "callback", "memory", "interrupt", "all"])
    after_user_code = family in ("memory", "interrupt", "all")
    kinds = [k for k in wfgen.KINDS if k not in wfsim.MUTATORS] if after_user_code else None
    spec = wfgen.gen_spec(rng, kinds=kinds)
    inputs = wfgen.gen_inputs(rng, spec)
    nodes = len(spec["nodes"])
    ops = []
    for _ in range(rng.randint(2, 10 if tier == "quick" else 24)):
        op = rng.choices(["eval", "next", "continue", "oneshot"], [3, 3, 2, 0.7])[0]
        ops.append([op, rng.randrange(nodes)] if op == "eval" else [op])
    plan = {"spec": spec, "inputs": inputs, "ops": ops, "seam": seams.gen_seam(rng), "drain": rng.choice(["next", "continue"]),
            "user": [], "callback": [], "interrupt": [], "tails": [], "interrupt_exc": rng.choice(["KeyboardInterrupt", "Cancelled"]),
            "shrink": ["ops", "user", "callback", "interrupt", "tails", "seam.psutil_fail"]}
    if family in ("user", "all"):
        plan["user"] = [[n, rng.choice(faults.EXCEPTIONS)] for n in
                        sorted(rng.sample(range(1, 3 * nodes + 6), rng.randint(1, 3)))]
    if family in ("callback", "all"):
        plan["callback"] = [[n, rng.choice(faults.EXCEPTIONS)] for n in sorted(rng.sample(range(1, 24), rng.randint(1, 3)))]
    if family in ("memory", "all"):
        plan["seam"]["psutil_fail"] = sorted(rng.sample(range(1, 26), rng.randint(1, 3)))
    if family in ("interrupt", "all"):
        plan["interrupt"] = sorted(rng.sample(range(1, rng.choice([40, 150, 600])), rng.randint(1, 3)))
        if rng.random() < 0.6:  # interruptions once the block has given its outputs
            plan["tails"] = [[rng.randint(1, nodes + 2), rng.choice([rng.randint(1, 12), rng.randint(1, 60)])] for _ in range(rng.randint(1, 4))]
    return plan


def describe(plan):
    return {"kinds": [n["k"] for n in plan["spec"]["nodes"]], "ops": plan["ops"], "user": plan["user"],
            "callback": plan["callback"], "interrupt": plan["interrupt"], "tails": plan["tails"], "memory": plan["seam"].get("psutil_fail")}


class World:
    """ Real state, model and the faults of the current attempt. """

    def __init__(self, plan, ctx):
        from simkit.engine import REPO
        self.plan, self.ctx = plan, ctx
        self.spec, self.inputs = plan["spec"], plan["inputs"]
        self.probe = wfsim.Probe().install()
        ctx.cleanups.append(self.probe.remove)
        self.workflow = wfgen.build(self.spec)
        self.names = wfgen.Names(self.spec, self.workflow)
        self.client = None
        self.succeeded, self.raised = [], []
        self.current = None
        self.user = faults.UserCode(ctx, plan["user"], observer=self.user_call)
        self.probe.before, self.probe.after, self.probe.failed = self.before, self.after, self.failed
        self.callback_faults = {int(n): name for n, name in plan["callback"]}
        self.callback_count = 0
        self.fired = []
        self.line = faults.LineInterrupt(
            ctx, plan["interrupt"], lambda: self.current is not None,
            [os.path.join(REPO, "dessia_common"), os.path.join(os.path.dirname(os.path.dirname(__file__)), "models.py")],
            name=plan["interrupt_exc"])
        self.line.tails = {tuple(t) for t in plan["tails"]}
        self.probing = self.probed = None
        self.user.armed = False
        self.user.install()

    def user_call(self, what, args):
        if self.current is not None:
            self.current["calls"][what] = self.current["calls"].get(what, 0) + 1
        if what in DISPLAY_CODE:
            # display methods called with unknown arguments are documented to be called again without them
            nxt = self.user.count + 1
            if self.user.faults.get(nxt) in ("TypeError",):
                self.user.faults[nxt] = "ValueError"

    def before(self, block, values):
        node = wfsim.node_of(block)
        if node is not None:
            self.current = {"node": node, "calls": {}}
            self.line.tail = None

    def one_call(self, node):
        name = CALLABLE.get(self.spec["nodes"][node]["k"])
        calls = self.current["calls"] if self.current else {}
        if name:
            self.ctx.check(calls.get(name, 0) <= 1, "user-code-run-twice",
                           f"n{node}: {name} ran {calls.get(name)} times in one evaluation")

    def after(self, block, values, result):
        node = wfsim.node_of(block)
        if node is None:
            return
        self.one_call(node)
        self.current = None
        self.client.evaluated(block, values, result)
        self.succeeded.append(node)
        self.probing = node  # until the progress is reported, the evaluation of this block is not over
        self.ctx.ev("evaluated", node)
        self.line.end()

    def failed(self, block, values, exc):
        node = wfsim.node_of(block)
        if node is None:
            return
        self.one_call(node)
        self.current = None
        self.raised.append(node)
        self.ctx.ev("failed", node, type(exc).__name__)

    def callback(self, value):
        self.callback_count += 1
        self.probing, self.line.tail = None, None
        name = self.callback_faults.pop(self.callback_count, None)
        if name:
            self.ctx.fault(f"callback:{name}")
            exc = faults.make(name, "simulated cancellation")
            self.fired.append(exc)
            raise exc

    def injected(self):
        return self.user.fired + self.fired + self.line.fired

    def attempt(self, action):
        """ Run action() under faults; returns (answer, exception). """
        from simkit import seams as seam_module
        self.succeeded, self.raised, self.current = [], [], None
        self.probing, self.line.tail = None, None
        seen = {id(e) for e in self.injected()}
        probe_faults = self.ctx.faults.get("memory-probe-fails", 0)
        answer = exc = None
        self.user.armed = True
        try:
            if self.plan["interrupt"] or self.plan["tails"]:
                with self.line:
                    answer = action()
            else:
                answer = action()
        except Exception as error:  # noqa
            from simkit.engine import Violation
            if isinstance(error, Violation):
                raise
            exc = error
        except (faults.Cancelled, KeyboardInterrupt) as error:
            exc = error
        finally:
            self.user.armed = False
        self.current = None
        self.probed = self.probing if exc is not None else None
        new = [e for e in self.injected() if id(e) not in seen]
        memory = self.ctx.faults.get("memory-probe-fails", 0) > probe_faults
        if exc is None:
            self.ctx.check(not new and not memory, "swallowed-failure",
                           lambda: f"{new or 'memory probe failure'} did not reach the caller")
        elif not new and not memory:
            raise exc  # nothing was injected: the code under test failed on its own
        elif new:
            self.ctx.check(any(faults.in_chain(exc, e) for e in new), "wrong-failure",
                           lambda: f"injected {new}, caller saw {exc!r}")
        return answer, exc


def run(plan, ctx):
    world = World(plan, ctx)
    spec, inputs, names, workflow = world.spec, world.inputs, world.names, world.workflow
    values = {names.index(k): wfgen.to_real(v) for k, v in inputs.items()}
    client = world.client = wfsim.Harness(spec, ctx)
    for key, value in inputs.items():
        client.model.supply(key, value)
    state = workflow.start_run(dict(values))
    shape = tuple(n["k"] for n in spec["nodes"])
    cb = {"progress_callback": world.callback}

    def evaluated():
        positions = state.to_dict()["evaluated_blocks_indices"]
        return {wfsim.node_of(workflow.blocks[i]) for i in positions}

    def step(action):
        model = client.model
        before = evaluated()
        answer, exc = world.attempt(action)
        now = evaluated()
        new = now - before
        ctx.check(before <= now, "lost-block", f"blocks {sorted(before - now)} are no longer evaluated after {exc!r}")
        bad = new - set(world.succeeded)
        ctx.check(not bad, "failed-block-done", f"blocks {sorted(bad)} are marked evaluated, their evaluation gave {exc!r}")
        if world.probed is not None and world.plan["seam"].get("psutil_fail") and not world.plan["interrupt"]:
            ctx.check(world.probed not in new, "failed-block-done", f"n{world.probed} is marked evaluated although its evaluation ended with {exc!r}")
        if exc is None:
            missing = set(world.succeeded) - now
            ctx.check(not missing, "evaluated-block-lost", f"{sorted(missing)} evaluated without failure but not recorded")
        else:
            dropped = [n for n in world.succeeded if n not in now]
            ctx.check(len(dropped) <= 1 and (not dropped or dropped[0] == world.succeeded[-1]), "lost-block",
                      f"evaluations of {dropped} were lost by the failure of another block")
            for node in dropped:
                model.ghosts[node] = model.outs.pop(node)
                model.evaluations.pop(node)
        ctx.check(now == set(model.outs), "evaluated-set", f"recorded {sorted(now)}, evaluated {sorted(model.outs)}")
        ctx.check(abs(state.progress - model.progress()) < 1e-9, "progress",
                  lambda: f"progress {state.progress} instead of {model.progress()} after {exc!r}")
        ctx.state(shape, tuple(sorted(model.outs)), type(exc).__name__, tuple(world.raised))
        return answer, exc

    def oneshot():
        """ A separate full run of the same workflow, itself subject to the faults. """
        world.client = wfsim.Harness(spec, ctx, tag="one-shot: ")
        for key, value in inputs.items():
            world.client.model.supply(key, value)
        fresh = {names.index(k): wfgen.to_real(v) for k, v in inputs.items()}
        answer, exc = world.attempt(lambda: workflow.run(fresh, **cb))
        if exc is None:
            ctx.check(world.client.matches(wfgen.out_type(spec), answer.output_value, world.client.model.output()),
                      "wrong-result", "one-shot run after failures gives another result")
        world.client = client

    for op in plan["ops"]:
        if op[0] == "eval":
            if op[1] not in client.model.main and op[1] in client.model.outs \
                    and spec["nodes"][op[1]]["k"] in wfsim.MUTATORS:
                continue
            step(lambda: state.block_evaluation(workflow.blocks.index(names.block(op[1])), **cb))
        elif op[0] == "next":
            step(lambda: state.evaluate_next_block(**cb))
        elif op[0] == "continue":
            step(lambda: state.continue_run(**cb))
        else:
            oneshot()
    # faults stop: the same state must complete
    world.user.faults.clear()
    world.callback_faults.clear()
    world.line.points.clear()
    world.line.tails.clear()
    seams._STATE["psutil_fail"] = set()
    tries = 0
    while not client.model.complete():
        tries += 1
        ctx.check(tries <= 3 * len(spec["nodes"]) + 3, "no-progress", "state does not complete once faults have stopped")
        _, exc = step((lambda: state.evaluate_next_block(**cb)) if plan["drain"] == "next"
                      else (lambda: state.continue_run(**cb)))
        ctx.check(exc is None, "unexpected-exception", f"{exc!r}")
    for node in client.model.main:
        ctx.check(client.model.evaluations.get(node) == 1, "exactly-once",
                  f"n{node} succeeded {client.model.evaluations.get(node)} times")
    wfrun = state.to_workflow_run(name="done")
    ctx.check(client.matches(wfgen.out_type(spec), wfrun.output_value, client.model.output()), "wrong-result",
              lambda: f"{wfgen.canon(wfrun.output_value)} instead of {wfgen.canon(client.model.output())}")
    undisturbed = wfgen.reference(spec, {k: wfgen.to_ref(v) for k, v in inputs.items()})["output"]
    ctx.check(client.matches(wfgen.out_type(spec), wfrun.output_value, undisturbed), "wrong-result",
              "resumed run differs from an undisturbed one")
    oneshot()
