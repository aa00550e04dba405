"""
Executable reference model of a workflow state, and the probe that watches the real engine evaluate blocks.
"""
import threading

from simkit import wfgen

MUTATORS = ("bump", "setattr")


class Model:
    """ Small executable specification of a partially evaluated workflow.

    A node is evaluated on the values its inputs hold when it is evaluated, which happens at most once for a node the
    output depends on.  Nothing else changes the state.
    """

    def __init__(self, spec):
        self.spec = spec
        self.main = wfgen.main_nodes(spec)
        self.keys = {}
        for key, _, default in wfgen.input_keys(spec):
            if default is not None:
                self.keys[key] = default[0]
        self.outs = {}
        self.evaluations = {}
        self.ghosts = {}  # outputs of blocks interrupted after they gave them: downstream blocks may have received them

    def clone(self):
        twin = Model(self.spec)
        twin.keys, twin.outs, twin.evaluations = dict(self.keys), dict(self.outs), dict(self.evaluations)
        twin.ghosts = dict(self.ghosts)
        return twin

    def supply(self, key, value):
        self.keys[key] = wfgen.to_ref(value)

    def ins(self, node):
        """ Current input values of a node, None when one is missing. """
        args = []
        for port, source in enumerate(self.spec["nodes"][node]["ins"]):
            if source[0] == "pipe":
                outs = self.outs.get(source[1], self.ghosts.get(source[1]))
                if outs is None:
                    return None
                args.append(outs[source[2]])
            else:
                key = f"n{node}.{port}" if source[0] == "free" else f"v{source[1]}"
                if key not in self.keys:
                    return None
                args.append(self.keys[key])
        return args

    def ready(self, node):
        return self.ins(node) is not None

    def activable(self, node):
        return self.ready(node) and (node not in self.outs or node not in self.main)

    def evaluate(self, node):
        args = self.ins(node)
        self.outs[node] = wfgen.ref_node(self.spec["nodes"][node], args)
        self.evaluations[node] = self.evaluations.get(node, 0) + 1
        return args, self.outs[node]

    def progress(self):
        return len([n for n in self.main if n in self.outs]) / len(self.main)

    def reachable(self):
        """ Main nodes that become evaluated when everything that can be evaluated is. """
        twin = self.clone()
        again = True
        while again:
            again = False
            for node in twin.main:
                if node not in twin.outs and twin.ready(node):
                    twin.evaluate(node)
                    again = True
        return {n for n in twin.main if n in twin.outs}

    def grows(self, node):
        """ Whether what a node depends on beyond the main nodes can be evaluated. """
        twin = self.clone()

        def reach(n):
            for source in self.spec["nodes"][n]["ins"]:
                if source[0] == "pipe" and source[1] not in self.main and not reach(source[1]):
                    return False
            if not twin.ready(n):
                return False
            twin.evaluate(n)
            return True
        return reach(node)

    def complete(self):
        return all(n in self.outs for n in self.main)

    def output(self):
        node, port = self.spec["out"]
        return self.outs[node][port] if node in self.outs else None

    def missing(self):
        return [k for k, _, _ in wfgen.input_keys(self.spec) if k not in self.keys]


class Probe:
    """ Watches every block evaluation of the real engine (class-level wrap of the public `evaluate` methods). """

    def __init__(self):
        self.before = None
        self.after = None
        self.failed = None
        self.local = threading.local()
        self.undo = []

    def install(self):
        from dessia_common.workflow.core import Block

        def subclasses(cls):
            for sub in cls.__subclasses__():
                yield sub
                yield from subclasses(sub)

        for cls in {c for c in [Block, *subclasses(Block)]}:
            if "evaluate" in cls.__dict__:
                original = cls.__dict__["evaluate"]
                self.undo.append((cls, original))
                setattr(cls, "evaluate", self.wrap(original))
        return self

    def remove(self):
        for cls, original in self.undo:
            setattr(cls, "evaluate", original)
        self.undo = []

    def wrap(self, original):
        probe = self

        def evaluate(block, values, *args, **kwargs):
            stack = probe.local.__dict__.setdefault("stack", [])
            if any(b is block for b in stack):
                return original(block, values, *args, **kwargs)
            stack.append(block)
            try:
                token = [values.get(v) for v in block.inputs]
                if probe.before:
                    probe.before(block, token)
                try:
                    result = original(block, values, *args, **kwargs)
                except BaseException as exc:
                    if probe.failed:
                        probe.failed(block, token, exc)
                    raise
                if probe.after:
                    probe.after(block, token, result)
                return result
            finally:
                stack.pop()
        return evaluate


def node_of(block, prefix="n"):
    """ Node index of a top-level block, None for blocks of nested workflows. """
    name = getattr(block, "name", "")
    if name.startswith(prefix) and name[len(prefix):].isdigit():
        return int(name[len(prefix):])
    return None


def comparable(spec, node):
    """ Whether the reference defines the outputs of a node. """
    return spec["nodes"][node]["k"] not in wfgen.EXPORT_KINDS and \
        spec["nodes"][node]["k"] not in ("plot", "cad", "mplot", "mobj", "archive")


def value_ok(type_, real, ref, lax=False):
    if type_ in ("D", "F", "X") and ref is None:
        return True
    real, ref = wfgen.canon(real), wfgen.canon(ref)
    if lax:
        real, ref = wfgen.loose(real), wfgen.loose(ref)
    return real == ref


class Harness:
    """ One simulated client holding one state: real state and model in lock step. """

    def __init__(self, spec, ctx, lax=False, tag=""):
        self.spec, self.ctx, self.lax, self.tag = spec, ctx, lax, tag
        self.model = Model(spec)
        self.log = []

    def matches(self, type_, real, ref):
        return value_ok(type_, real, ref, self.lax)

    def evaluated(self, block, got, result):
        """ A top-level block has just been evaluated by the engine. """
        node = node_of(block)
        ctx, model = self.ctx, self.model
        ctx.check(model.activable(node), "evaluated-out-of-turn",
                  f"{self.tag}block n{node} evaluated although "
                  f"{'already evaluated' if node in model.outs else 'an input is missing'}")
        args, outs = model.evaluate(node)
        in_types, out_types = wfgen.node_ports(self.spec, node)
        mutator = self.spec["nodes"][node]["k"] in MUTATORS
        for port, (real, ref) in enumerate(zip(got, args)):
            if mutator and port == 0:
                continue  # modified in place by the evaluation itself
            ctx.check(self.matches(in_types[port], real, ref), "wrong-input-value",
                      lambda: f"{self.tag}n{node}.{port} evaluated on {wfgen.canon(real)}, expected {wfgen.canon(ref)}")
        if comparable(self.spec, node):
            for port, ref in enumerate(outs):
                ctx.check(self.matches(out_types[port], result[port], ref), "wrong-output-value",
                          lambda: f"{self.tag}n{node} output {port} is {wfgen.canon(result[port])}, "
                                  f"expected {wfgen.canon(ref)}")
        self.log.append(node)
