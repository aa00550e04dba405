"""
C04: runs started from one workflow, copies of runs and runs in concurrent threads do not interfere.
"""
import json
import threading

from simkit import engine, sched, seams, wfgen, wfsim

LOCAL = threading.local()


def gen_ops(rng, spec, inputs, count):
    nodes, keys, ops = len(spec["nodes"]), list(inputs), []
    for _ in range(count):
        op = rng.choices(["add", "eval", "next", "continue", "copy", "poll"], [3, 4, 3, 1, 0.7, 0.7])[0]
        if op == "add" and keys:
            ops.append(["add", rng.choice(keys)])
        elif op == "eval":
            ops.append(["eval", rng.randrange(nodes)])
        elif op == "poll":
            ops.append(["poll", rng.choice(["dict", "markdown", "hash", "eq", "displays", "graph"])])
        elif op in ("next", "continue", "copy"):
            ops.append([op])
    return ops


def gen(rng, tier):
    mode = rng.choice(["threads", "threads", "history"])
    spec = wfgen.gen_spec(rng, size=rng.choice([2, 3, 4, 5, 6] if mode == "threads" else [2, 3, 4, 6, 8]))
    n = rng.choice([2, 2, 3] if tier == "quick" else [2, 3, 4])
    shared = wfgen.gen_inputs(rng, spec)
    clients = []
    for _ in range(n):
        inputs = dict(shared) if rng.random() < 0.2 else wfgen.gen_inputs(rng, spec)
        clients.append({"inputs": inputs, "initial": [k for k in inputs if rng.random() < 0.4],
                        "how": rng.choice(["steps", "steps", "steps", "run"]),
                        "source": rng.choice(["shared", "shared", "shared", "copy"]),
                        "shown": [rng.randrange(20) for _ in range(rng.randint(0, 4))],
                        "later": [rng.randrange(20) for _ in range(rng.randint(0, 4))],
                        "ops": gen_ops(rng, spec, inputs, rng.randint(0, 5 if mode == "threads" else 9))})
    plan = {"mode": mode, "spec": spec, "clients": clients, "seam": seams.gen_seam(rng),
            "share_objects": rng.random() < 0.3,
            "turns": [rng.randrange(n) for _ in range(60)], "schedule": [], "shrink": ["turns", "schedule"]}
    if mode == "threads":
        plan["schedule"] = sched.gen_rendezvous(rng, n) if rng.random() < 0.4 else sched.gen_schedule(rng, n, tier)
        for c in clients:
            c["ops"] = [o for o in c["ops"] if o[0] != "poll" or o[1] != "markdown"]
    return plan


def describe(plan):
    return {"mode": plan["mode"], "kinds": [n["k"] for n in plan["spec"]["nodes"]],
            "clients": [[c["how"], c["source"], c["ops"]] for c in plan["clients"]], "schedule": plan["schedule"][:6]}


def simplify(plan):
    for i, client in enumerate(plan["clients"]):
        if len(plan["clients"]) > 2:
            candidate = json.loads(json.dumps(plan))
            del candidate["clients"][i]
            yield candidate
        for what in ("ops", "shown", "later"):
            for j in range(len(client[what])):
                candidate = json.loads(json.dumps(plan))
                del candidate["clients"][i][what][j]
                yield candidate


class Client(wfsim.Harness):
    """ One user with one run. """

    def __init__(self, spec, ctx, workflow, plan, tag, shared=None):
        super().__init__(spec, ctx, tag=tag)
        self.plan, self.workflow, self.inputs = plan, workflow, plan["inputs"]
        self.names = wfgen.Names(spec, workflow)
        self.pending = list(plan["ops"])
        self.state = None
        self.finished = False
        self.copies = []
        shared = shared if shared is not None else {}
        self.values = {k: shared.get((k, json.dumps(v))) or shared.setdefault((k, json.dumps(v)), wfgen.to_real(v))
                       for k, v in self.inputs.items()}
        self.given = None
        self.given_view = None

    # -------------------------------------------------------------------------------------------- what it sees
    def view(self):
        if self.state is None:
            return None
        return (self.state.progress, wfgen.canon(self.state.output_value),
                tuple(sorted((i, wfgen.canon(v)) for i, v in self.state.input_values.items())),
                tuple(sorted((self.workflow.pipes.index(p), wfgen.canon(v)) for p, v in self.state.values.items())),
                tuple(self.state.activated_items[i] for i in self.workflow.blocks + self.workflow.pipes
                      + self.workflow.variables))

    def settle(self):
        ctx = self.ctx
        if self.state is not None:
            ctx.check(abs(self.state.progress - self.model.progress()) < 1e-9, "progress",
                      lambda: f"{self.tag}progress {self.state.progress} instead of {self.model.progress()}")
        if self.given is not None:
            ctx.check({k: wfgen.canon(v) for k, v in self.given.items()} == self.given_view, "caller-mapping-changed",
                      f"{self.tag}the mapping of values given by the caller was changed")

    # -------------------------------------------------------------------------------------------- what it does
    def start(self):
        if self.plan["how"] == "run":
            for key in self.inputs:
                self.model.supply(key, self.inputs[key])
            self.given = {self.names.index(k): self.values[k] for k in self.inputs}
            self.given_view = {k: wfgen.canon(v) for k, v in self.given.items()}
            run = self.workflow.run(self.given)
            self.finished = True
            self.pending = []
            self.finish(run)
            return
        self.given = {self.names.index(k): self.values[k] for k in self.plan["initial"]}
        self.given_view = {k: wfgen.canon(v) for k, v in self.given.items()}
        self.state = self.workflow.start_run(self.given)
        for key in self.plan["initial"]:
            self.model.supply(key, self.inputs[key])
        self.settle()

    def add(self, key):
        if any(n in self.model.outs for n in wfgen.consumers(self.spec, key)):
            return
        self.state.add_input_value(self.names.index(key), self.values[key])
        self.model.supply(key, self.inputs[key])

    def stale(self, node):
        """ Whether evaluating the node would use a default where the plan has another value in store. """
        for port, source in enumerate(self.spec["nodes"][node]["ins"]):
            key = {"free": f"n{node}.{port}", "nbv": f"v{source[1]}" if source[0] == "nbv" else None}.get(source[0])
            if key in self.inputs and key in self.model.keys \
                    and wfgen.canon(self.model.keys[key]) != wfgen.canon(wfgen.to_ref(self.inputs[key])):
                return True
        return False

    def step(self):
        """ Perform the next operation. Returns False when there is nothing left. """
        if self.state is None and not self.finished:
            self.start()
            return True
        if self.finished:
            return False
        if not self.pending:
            for key in sorted(self.inputs):
                self.add(key)
            done = set(self.model.outs) & self.model.main
            blocks = self.state.continue_run()
            self.ctx.check({wfsim.node_of(b) for b in blocks} == self.model.main - done, "continue-run",
                           lambda: f"{self.tag}evaluated {[b.name for b in blocks]}, {sorted(done)} being done")
            self.settle()
            run = self.state.to_workflow_run()
            self.finish(run)
            self.finished = True
            self.afterlife(run)
            return True
        op = self.pending.pop(0)
        model, spec = self.model, self.spec
        if op[0] == "add" and op[1] in self.inputs:
            self.add(op[1])
        elif op[0] == "eval":
            node = op[1]
            if not self.stale(node):
                expected = model.activable(node)
                before = len(self.log)
                answer = self.state.block_evaluation(self.workflow.blocks.index(self.names.block(node)))
                self.ctx.check(bool(answer) == expected and self.log[before:] == ([node] if expected else []),
                               "block-evaluation", lambda: f"{self.tag}n{node}: answer {answer}, {self.log[before:]}")
        elif op[0] == "next":
            ready = [n for n in range(len(spec["nodes"])) if n not in model.outs and model.ready(n)]
            if not any(self.stale(n) for n in ready):
                before = len(self.log)
                self.state.evaluate_next_block()
                done = self.log[before:]
                self.ctx.check(len(done) == bool(ready) and all(n in ready for n in done), "next-block",
                               lambda: f"{self.tag}evaluable {ready}, evaluated {done}")
        elif op[0] == "continue":
            goal = model.reachable()
            if not any(self.stale(n) for n in goal if n not in model.outs):
                self.state.continue_run()
                got = {n for n in model.main if n in model.outs}
                self.ctx.check(got == goal, "continue-run", lambda: f"{self.tag}{sorted(got)} instead of {sorted(goal)}")
        elif op[0] == "copy":
            self.copy()
        elif op[0] == "poll":
            self.poll(op[1])
        self.settle()
        return True

    def copy(self):
        before = self.view()
        state = self.state.copy()
        self.ctx.check(self.view() == before, "copy-changes-original", f"{self.tag}copying changed the state")
        plan = dict(self.plan, ops=[o for o in self.plan["ops"][:4] if o[0] != "copy"])
        twin = Client(self.spec, self.ctx, state.workflow, plan, self.tag.replace(": ", "'s copy: "))
        twin.state = state
        twin.model = self.model.clone()
        self.ctx.check(twin.view() == before, "copy-differs", lambda: f"{self.tag}{twin.view()} copied from {before}")
        twin.settle()
        self.copies.append(twin)
        return twin

    def poll(self, what):
        state = self.state
        if what == "dict":
            state.to_dict()
        elif what == "markdown":
            state.to_markdown()
        elif what == "hash":
            hash(state)
        elif what == "eq":
            self.ctx.check(state == state, "eq", f"{self.tag}state differs from itself")
        elif what == "displays":
            _ = [d.selector for d in state.workflow.blocks_display_settings]
        else:
            _ = state.workflow.runtime_blocks

    def finish(self, run):
        expected = self.model.output()
        self.ctx.check(self.model.complete(), "incomplete", f"{self.tag}{sorted(self.model.outs)} evaluated only")
        self.ctx.check(self.matches(wfgen.out_type(self.spec), run.output_value, expected), "wrong-result",
                       lambda: f"{self.tag}{wfgen.canon(run.output_value)} instead of {wfgen.canon(expected)}")
        for key, value in self.inputs.items():
            got = run.input_values.get(self.names.index(key))
            self.ctx.check(self.matches(self.names.types[key], got, wfgen.to_ref(value)), "wrong-recorded-input",
                           lambda: f"{self.tag}{key} recorded as {wfgen.canon(got)}")
        self.settle()

    def afterlife(self, run):
        """ A finished state and the run it was turned into are used separately. """
        main, nodes = self.model.main, self.spec["nodes"]
        if any(n["k"] in wfsim.MUTATORS for i, n in enumerate(nodes) if i not in main):
            return
        reader = Client(self.spec, self.ctx, self.workflow, self.plan, self.tag.replace(": ", "'s finished run: "))
        reader.state, reader.model, reader.finished = run, self.model.clone(), True
        mine, its = self.view(), reader.view()
        LOCAL.client = reader
        kinds = [n["k"] for n in nodes]
        for node in self.plan.get("shown", []):
            node %= len(nodes)
            index = self.workflow.blocks.index(self.names.block(node))
            if kinds[node] in wfgen.DISPLAY_KINDS and kinds.count(kinds[node]) == 1 and self.model.grows(node):
                run.block_display(index)
            elif kinds[node] in ("exptxt", "expjson") and self.model.grows(node):
                from dessia_common.files import StringFile
                run.export(StringFile(), index)
            else:
                continue
            self.ctx.count("reads-of-finished-runs")
            self.ctx.check(self.view() == mine, "interference", lambda: f"{self.tag}displaying n{node} of the finished "
                           f"run changed what the state sees: {mine} became {self.view()}")
        its = reader.view()
        LOCAL.client = self
        for node in self.plan.get("later", []):
            node %= len(nodes)
            expected, before = self.model.activable(node), len(self.log)
            answer = self.state.block_evaluation(self.workflow.blocks.index(self.names.block(node)))
            self.ctx.check(bool(answer) == expected and self.log[before:] == ([node] if expected else []),
                           "block-evaluation", lambda: f"{self.tag}n{node} after the run: {answer}, {self.log[before:]}")
            self.ctx.check(reader.view() == its, "interference",
                           lambda: f"{self.tag}evaluating n{node} changed the finished run: {its} became {reader.view()}")

    def live(self):
        """ The whole life of the client, as a thread body. """
        LOCAL.client = self
        while self.step():
            pass
        for twin in self.copies:
            LOCAL.client = twin
            while twin.step():
                pass


def run(plan, ctx):
    spec = plan["spec"]
    probe = wfsim.Probe().install()
    ctx.cleanups.append(probe.remove)
    workflow = wfgen.build(spec, description="shared workflow")

    def after(block, args, result):
        if wfsim.node_of(block) is not None:
            LOCAL.client.evaluated(block, args, result)
            ctx.ev("evaluated", LOCAL.client.tag, block.name)
    probe.after = after
    shared = {} if plan["share_objects"] else None
    clients = []
    before = json.dumps(workflow.to_dict(), sort_keys=True)
    for i, sub in enumerate(plan["clients"]):
        own = workflow if sub["source"] == "shared" else workflow.copy()
        clients.append(Client(spec, ctx, own, sub, f"run {i}: ", shared))
    shape = (plan["mode"],) + tuple(n["k"] for n in spec["nodes"])
    if plan["mode"] == "threads":
        ctx.count("thread-runs")
        prefixes = [engine.REPO + "/", engine.VERIF + "/simkit/models.py"]
        sched.Scheduler(ctx, plan["schedule"], prefixes).run([c.live for c in clients])
        ctx.state(shape, tuple(tuple(c.log) for c in clients))
    else:
        everyone = list(clients)
        for turn in plan["turns"]:
            waiting = [c for c in everyone if not c.finished]
            if not waiting:
                break
            client = waiting[turn % len(waiting)]
            others = [(c, c.view()) for c in everyone if c is not client]
            LOCAL.client = client
            client.step()
            for twin in client.copies:
                everyone.append(twin)
            client.copies = []
            for other, view in others:
                ctx.check(other.view() == view, "interference",
                          lambda: f"{client.tag}changed what {other.tag}sees: {view} became {other.view()}")
            ctx.state(shape, tuple((tuple(sorted(c.model.outs)), len(c.model.keys)) for c in everyone))
        for client in everyone:
            while not client.finished:
                LOCAL.client = client
                client.step()
    ctx.check(json.dumps(workflow.to_dict(), sort_keys=True) == before, "workflow-changed",
              "the workflow was changed by its runs")
