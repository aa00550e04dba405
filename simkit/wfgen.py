"""
Random workflows as JSON specs, their construction through the public API, and an independent reference interpreter.

spec = {"nodes": [{"k": kind, "ins": [source...], "p": {...}}], "out": [node, port], "nbvs": [type...],
        "order": [...node order in the block list...], "pipe_order": seed}
source = ["free"] | ["nbv", k] | ["pipe", node, port]
Port types: i int, P part, Li list of ints, LP list of parts, LL list of lists of ints, Lt list of tuples, s string,
N int or None, LN list of them,
F exported stream, D display.
"""
import itertools
import random
from typing import List

KINDS = {}


def kind(name, ins, outs, weight=1.0, defaults=None):
    """ Register a fixed-arity node kind. `defaults` maps port -> default value (JSON form). """
    KINDS[name] = {"ins": ins, "outs": outs, "weight": weight, "defaults": defaults or {}}


kind("inst", ["i", "i", "s"], ["P"], 3, {1: 1, 2: ""})
kind("build", ["i", "i"], ["P"], 1.5, {1: 3})
kind("unit", [], ["P"], 0.5)
kind("combine", ["i", "i"], ["i"], 2)
kind("total", ["P", "i"], ["i", "P"], 2)
kind("scaled", ["P", "i", "i"], ["P", "P"], 1.5, {2: 2})
kind("tracked", ["P", "i"], ["i", "P"], 1.5)
kind("fan", ["P", "i"], ["LP", "P"], 0.8)
kind("bump", ["P!", "i"], ["i", "P!"], 1)
kind("setattr", ["P!", "i"], ["P!"], 1)
kind("getattr", ["P"], ["i"], 1)
kind("mattr", ["P"], ["i"], 0.7)
kind("seqi", None, ["Li"], 1.5)
kind("seqp", None, ["LP"], 1)
kind("seql", None, ["LL"], 0.6)
kind("concat", None, ["Li"], 1)
kind("flatten", ["LL"], ["Li"], 0.8)
kind("product", None, ["Lt"], 0.5)
kind("unpacki", ["Li"], None, 1)
kind("unpackp", ["LP"], None, 0.8)
kind("filter", ["LP"], ["LP"], 0.8)
kind("sub", ["i", "i"], ["i"], 1)
kind("maybe", ["P", "i"], ["N", "P"], 0.8)
kind("deal", ["P", "N"], ["i", "P"], 0.6)
kind("seqn", None, ["LN"], 0.4)
kind("sum", None, ["i"], 0.8)
kind("cats", None, ["s"], 0.6)
kind("wfb", None, None, 0.8)
kind("foreach", None, None, 0.8)
DISPLAY_KINDS = {"md": ["P"], "plot": ["P"], "cad": ["P"], "mplot": ["LP"], "mobj": ["LP"]}
EXPORT_KINDS = {"exptxt": ["P", "s"], "expbin": ["P", "s"], "expjson": ["P", "s"]}
for _name, _ins in DISPLAY_KINDS.items():
    kind(_name, _ins, ["D"], 0)
for _name, _ins in EXPORT_KINDS.items():
    kind(_name, _ins, ["F"], 0, {1: "export"})
kind("archive", None, ["F"], 0)

CHAIN = ("inst", "combine", "total", "scaled", "getattr", "sub", "tracked", "sum", "build")
SUB_SPECS = {
    # name: (spec builder, input types, output type)
}


class Gen:
    """ Spec generator. """

    def __init__(self, rng, size, secondary=True, linear=True, sub_depth=1, kinds=None, p_free=0.35, script=()):
        self.rng, self.size, self.secondary, self.linear, self.sub_depth = rng, size, secondary, linear, sub_depth
        self.nodes, self.nbvs, self.ports = [], [], []
        # ports: list of dict(node, port, type, len, linear, used)
        self.kinds = kinds
        self.p_free = p_free
        self.script = list(script)  # kinds to add first, in order
        self.deep = False

    def candidates(self, type_, lin):
        found = []
        for port in self.ports:
            if lin:
                if port["type"] == "P" and port["linear"] and not port["used"]:
                    found.append(port)
            elif port["type"] == type_ and (not port["linear"] or not port["used"]):
                found.append(port)
        return found

    def source(self, type_, minlen=None):
        """ Choose where an input comes from. Returns (source, port or None) or None when impossible. """
        lin = type_.endswith("!")
        base = type_.rstrip("!")
        options = self.candidates(base, lin)
        if minlen is not None:
            options = [p for p in options if p["len"] is not None and p["len"] >= minlen]
        if options and (base not in ("i", "s") or self.rng.random() > self.p_free):
            # prefer recent ports: deeper graphs
            port = options[-1] if self.rng.random() < (0.95 if self.deep else 0.5) else self.rng.choice(options)
            if port["linear"]:
                port["used"] = True
            return ["pipe", port["node"], port["port"]], port
        if lin:
            return None
        if base in ("D", "F"):
            return None
        if self.nbvs and self.rng.random() < 0.25:
            same = [k for k, t in enumerate(self.nbvs) if t == base]
            if same:
                return ["nbv", self.rng.choice(same)], {"len": None, "linear": False}
        if base in ("i", "P", "Li") and self.rng.random() < 0.2:
            self.nbvs.append(base)
            return ["nbv", len(self.nbvs) - 1], {"len": 3 if base == "Li" else None, "linear": False}
        if base in ("i", "s", "P", "Li", "LP", "LL", "N"):
            return ["free"], {"len": 3 if base in ("Li", "LP", "LL") else None, "linear": False}
        return None

    def add(self, name):
        rng = self.rng
        spec = KINDS[name]
        p = {}
        ins = spec["ins"]
        if name in ("seqi", "seqp", "seql", "seqn", "concat", "product", "sum"):
            n = rng.randint(1 if name == "concat" else 2, 3)
            ins = [{"seqi": "i", "seqp": "P", "seql": "Li", "seqn": "N", "concat": "Li", "product": "Li", "sum": "i"}[name]] * n
        elif name == "cats":
            ins = ["s"] * rng.randint(2, 3)
            p["sep"] = rng.choice(["", "-", ", "])
        elif name == "archive":
            n = rng.randint(1, 2)
            ins = ["F"] * n + ["s"]
        elif name in ("wfb", "foreach"):
            if self.sub_depth <= 0:
                return False
            sub = gen_sub(rng, self.sub_depth - 1)
            p["sub"] = sub
            keys = input_keys(sub)
            types = [t for _, t, _ in keys]
            ins = list(types)
            if name == "foreach":
                locks = locked_keys(sub)
                iterable = [i for i, t in enumerate(types) if t in ("i", "P") and keys[i][0] not in locks]
                if not iterable:
                    return False
                idx = rng.choice(iterable)
                p["iter"] = idx
                ins[idx] = {"i": "Li", "P": "LP"}[types[idx]]
        snapshot = [dict(port) for port in self.ports]
        nbv_count = len(self.nbvs)
        sources, ports = [], []
        minlen = 1 if name in ("unpacki", "unpackp") else None
        defaults = spec["defaults"]
        if name == "archive":
            defaults = {len(ins) - 1: "archive"}
        elif name == "cats":
            defaults = {i: "" for i in range(len(ins))}
        for i, type_ in enumerate(ins):
            if i in defaults and rng.random() < 0.6:
                sources.append(["free"])
                ports.append({"len": None, "linear": False})
                continue
            found = self.source(type_, minlen)
            if found is None:
                self.ports[:] = snapshot
                del self.nbvs[nbv_count:]
                return False
            sources.append(found[0])
            ports.append(found[1])
        if name in ("unpacki", "unpackp"):
            n = ports[0]["len"]
            if sources[0][0] != "pipe":
                n = 3
            p["idx"] = [rng.randrange(n) for _ in range(rng.randint(1, 2))]
        elif name == "filter":
            p["filters"] = [[rng.choice(["a", "b"]), rng.choice(["gt", "lt", "ge", "le", "eq", "ne"]), rng.randint(0, 6)]
                            for _ in range(rng.randint(1, 2))]
            p["op"] = rng.choice(["and", "or"])
        elif name in ("md", "plot", "cad"):
            pass
        elif name in EXPORT_KINDS or name == "archive":
            p["filename"] = f"f{len(self.nodes)}"
        node_index = len(self.nodes)
        self.nodes.append({"k": name, "ins": sources, "p": p})
        outs = spec["outs"]
        if name in ("unpacki", "unpackp"):
            outs = [{"unpacki": "i", "unpackp": "P"}[name]] * len(p["idx"])
        elif name == "wfb":
            outs = [out_type(p["sub"])]
        elif name == "foreach":
            outs = [{"i": "Li", "P": "LP", "Li": "LL"}.get(out_type(p["sub"]), "X")]
        length = None
        if name in ("seqi", "seqp", "seql", "seqn"):
            length = len(ins)
        elif name == "fan":
            length = 3
        elif name == "concat" and all(q["len"] is not None for q in ports):
            length = sum(q["len"] for q in ports)
        elif name == "foreach":
            length = ports[p["iter"]]["len"]
        make_linear = name in ("inst", "build", "unit") and self.linear and rng.random() < 0.35
        for o, type_ in enumerate(outs):
            lin = type_.endswith("!") or make_linear
            if name in ("total", "scaled", "tracked", "fan", "maybe", "deal") and o == 1:
                lin = ports[0]["linear"]  # same object handed on
            self.ports.append({"node": node_index, "port": o, "type": type_.rstrip("!"), "len": length,
                               "linear": lin, "used": False})
        return True

    def build(self):
        rng = self.rng
        names = list(KINDS if self.kinds is None else self.kinds)
        weights = [KINDS[n]["weight"] for n in names]
        swarm = [w if rng.random() < 0.75 else 0.0 for w in weights]  # swarm testing: random feature subsets
        for n in ("inst", "combine", "total"):
            if n in names:
                swarm[names.index(n)] = weights[names.index(n)]
        # Half of the workflows feature one kind of block, whatever its weight
        star = rng.choice([n for n in names if KINDS[n]["weight"]]) if rng.random() < 0.5 else None
        entrance = rng.randrange(self.size)
        if self.size > 3 and rng.random() < 0.15:  # a chain: each block uses the last results
            self.deep, self.p_free, star = True, 0.05, None
            swarm = [w if n in CHAIN else 0. for n, w in zip(names, weights)]
            swarm[names.index("combine") if "combine" in names else 0] += 1
        for name in self.script:
            self.add(name)
        guard = 0
        starred = set()
        while len(self.nodes) < self.size and guard < 200:
            guard += 1
            if star is not None and len(self.nodes) >= entrance and not starred:
                if self.add(star):
                    starred.add(len(self.nodes) - 1)
                    continue
            self.add(rng.choices(names, swarm)[0])
        if not any(source[0] != "pipe" for node in self.nodes for source in node["ins"]):
            self.add("inst")  # a workflow has inputs
        main = [p for p in self.ports if p["type"] not in ("D", "F") and not (p["linear"] and p["used"])]
        output = main[-1] if self.deep or rng.random() < 0.6 else rng.choice(main)
        if starred and rng.random() < 0.5:
            output = ([p for p in main if p["node"] in starred] or [output])[0]
        if output["linear"]:
            output["used"] = True
        if self.secondary:
            for _ in range(rng.randint(0, 3)):
                pool = list(DISPLAY_KINDS) + list(EXPORT_KINDS) + ["archive"]
                self.add(rng.choice(pool))
        order = list(range(len(self.nodes)))
        if rng.random() < 0.7:
            rng.shuffle(order)
        return {"nodes": self.nodes, "out": [output["node"], output["port"]], "nbvs": self.nbvs, "order": order,
                "pipe_seed": rng.getrandbits(16)}


def gen_sub(rng, depth):
    """ Small sub-workflow: no mutation, no secondary branches, all blocks lead somewhere. """
    sub = Gen(rng, rng.randint(1, 3), secondary=False, linear=False, sub_depth=depth,
              kinds=["inst", "build", "combine", "total", "scaled", "getattr", "seqi", "sub", "mattr"]).build()
    # The author of a nested workflow may have locked some of its inputs, or given them another default value
    for key, type_, _ in input_keys(sub):
        if type_ in ("i", "s", "Li") and rng.random() < 0.12:
            sub.setdefault(rng.choice(["locks", "presets"]), {})[key] = gen_value(rng, type_)
    return sub


def gen_spec(rng, size=None, **kwargs):
    if size is None:
        size = rng.choice([2, 3, 4, 5, 6, 8, 10])
        if rng.random() < 0.03:
            size = rng.choice([14, 18])
    return Gen(rng, size, **kwargs).build()


# ---------------------------------------------------------------------------------------------------- static facts
def node_ports(spec, index):
    """ (input types without marks, output types) of a node. """
    node = spec["nodes"][index]
    name, p = node["k"], node["p"]
    n = len(node["ins"])
    fixed = KINDS[name]["ins"]
    if name in ("seqi", "seqp", "seql", "seqn", "concat", "product", "sum"):
        ins = [{"seqi": "i", "seqp": "P", "seql": "Li", "seqn": "N", "concat": "Li", "product": "Li", "sum": "i"}[name]] * n
    elif name == "cats":
        ins = ["s"] * n
    elif name == "archive":
        ins = ["F"] * (n - 1) + ["s"]
    elif name in ("wfb", "foreach"):
        ins = [t for _, t, _ in input_keys(p["sub"])]
        if name == "foreach":
            ins[p["iter"]] = {"i": "Li", "P": "LP"}[ins[p["iter"]]]
    else:
        ins = [t.rstrip("!") for t in fixed]
    outs = KINDS[name]["outs"]
    if name in ("unpacki", "unpackp"):
        outs = [{"unpacki": "i", "unpackp": "P"}[name]] * len(p["idx"])
    elif name == "wfb":
        outs = [out_type(p["sub"])]
    elif name == "foreach":
        outs = [{"i": "Li", "P": "LP", "Li": "LL"}.get(out_type(p["sub"]), "X")]
    return ins, [t.rstrip("!") for t in outs]


def out_type(spec):
    return node_ports(spec, spec["out"][0])[1][spec["out"][1]]


def port_default(spec, index, port):
    """ (has default, value) of an unconnected block input. """
    node = spec["nodes"][index]
    name = node["k"]
    if name in ("wfb", "foreach"):
        if name == "foreach" and port == node["p"]["iter"]:
            return False, None
        key, _, default = input_keys(node["p"]["sub"])[port]
        return (default is not None), (default[0] if default else None)
    if name == "cats":
        return True, ""
    if name == "archive" and port == len(node["ins"]) - 1:
        return True, node["p"]["filename"]
    if name in EXPORT_KINDS and port == 1:
        return True, node["p"]["filename"]
    defaults = KINDS[name]["defaults"]
    return (port in defaults), defaults.get(port)


def input_keys(spec):
    """ Workflow inputs in the order the library documents: block inputs in block order, then non-block variables
    in order of first use by a pipe. Each entry: (key, type, [default] or None). """
    keys = []
    for index in spec["order"]:
        types, _ = node_ports(spec, index)
        for port, source in enumerate(spec["nodes"][index]["ins"]):
            if source[0] == "free":
                has, value = port_default(spec, index, port)
                keys.append((f"n{index}.{port}", types[port], [value] if has else None))
    for k in nbv_order(spec):
        keys.append((f"v{k}", spec["nbvs"][k], None))
    given = {**spec.get("presets", {}), **spec.get("locks", {})}
    return [(key, type_, [given[key]] if key in given else default) for key, type_, default in keys]


def views(index):
    """ Views of the objects a node displays. """
    return [["sab", "pab"], ["sab", "pb"], ["saa", "pba"], ["paa", "sbb", "sba"]][index % 4]


def locked_keys(spec):
    """ Keys of the inputs that are locked when the workflow is built. """
    found = set(spec.get("locks", ()))
    for index, node in enumerate(spec["nodes"]):
        if node["k"] in ("wfb", "foreach"):
            sub = node["p"]["sub"]
            locks = locked_keys(sub)
            for port, (key, _, _) in enumerate(input_keys(sub)):
                if node["ins"][port][0] == "free" and key in locks:
                    found.add(f"n{index}.{port}")
    return found


def pipe_list(spec):
    pipes = []
    for index, node in enumerate(spec["nodes"]):
        for port, source in enumerate(node["ins"]):
            if source[0] != "free":
                pipes.append((source, index, port))
    random.Random(spec["pipe_seed"]).shuffle(pipes)
    return pipes


def nbv_order(spec):
    seen = []
    for source, _, _ in pipe_list(spec):
        if source[0] == "nbv" and source[1] not in seen:
            seen.append(source[1])
    return seen


def upstream_closure(spec, index):
    seen, stack = set(), [index]
    while stack:
        cur = stack.pop()
        if cur in seen:
            continue
        seen.add(cur)
        for source in spec["nodes"][cur]["ins"]:
            if source[0] == "pipe":
                stack.append(source[1])
    return seen


def main_nodes(spec):
    """ Nodes the output depends on. """
    return upstream_closure(spec, spec["out"][0])


def needed_keys(spec, index):
    """ Input keys a node transitively needs. """
    keys = set()
    for node in upstream_closure(spec, index):
        for port, source in enumerate(spec["nodes"][node]["ins"]):
            if source[0] == "free":
                keys.add(f"n{node}.{port}")
            elif source[0] == "nbv":
                keys.add(f"v{source[1]}")
    return keys


def consumers(spec, key):
    """ Nodes reading an input key directly. """
    if key.startswith("v"):
        return [i for i, n in enumerate(spec["nodes"]) if ["nbv", int(key[1:])] in n["ins"]]
    return [int(key[1:].split(".")[0])]


# ---------------------------------------------------------------------------------------------------- values
def gen_value(rng, type_):
    """ JSON form of a value of a port type. """
    if type_ == "i":
        return rng.choice([0, 1, 2, 3, 5, 7, -4, 11, 100])
    if type_ == "N":
        return rng.choice([None, None, 0, 6])
    if type_ == "s":
        return rng.choice(["", "x", "alpha", "é-ü", "long name with spaces"])
    if type_ == "P":
        return {"P": [rng.randint(0, 50), rng.randint(0, 9), rng.choice(["", "p", "q"])]}
    if type_ == "Li":
        return [rng.randint(0, 9) for _ in range(3)]
    if type_ == "LP":
        return [{"P": [10 * i + rng.randint(0, 9), rng.randint(0, 9), f"e{i}"]} for i in range(3)]
    if type_ == "LL":
        return [[rng.randint(0, 9) for _ in range(2)] for _ in range(3)]
    raise ValueError(type_)


def gen_inputs(rng, spec, p_default=0.5):
    """ Values for every key that needs one, and for some keys that have a default. """
    values = {}
    locks = locked_keys(spec)
    for key, type_, default in input_keys(spec):
        if key not in locks and (default is None or rng.random() > p_default):
            values[key] = gen_value(rng, type_)
    return values


def to_real(value):
    """ JSON form -> real python value. """
    from simkit.models import Part
    if isinstance(value, dict) and "P" in value:
        a, b, name = value["P"]
        return Part(a=a, b=b, name=name)
    if isinstance(value, list):
        return [to_real(v) for v in value]
    return value


def canon(value):
    """ Real value or reference value -> comparable plain form (independent of the library's own equality). """
    if isinstance(value, Ref):
        return ("P", canon(value.a), canon(value.b), value.name)
    if isinstance(value, bool) or value is None or isinstance(value, (int, float, str)):
        return value
    if isinstance(value, list):
        return ("L",) + tuple(canon(v) for v in value)
    if isinstance(value, tuple):
        return ("T",) + tuple(canon(v) for v in value)
    if isinstance(value, dict):
        return ("D",) + tuple(sorted((str(k), canon(v)) for k, v in value.items()))
    cls = type(value).__name__
    if cls == "Part":
        return ("P", canon(value.a), canon(value.b), value.name)
    if hasattr(value, "getvalue"):
        content = value.getvalue()
        if isinstance(content, bytes):
            content = "bytes:" + content.decode("latin-1")
        return ("F", getattr(value, "filename", None), content)
    return ("?", cls)


def loose(form):
    """ Tuples and lists are the same thing after a JSON round trip. """
    if isinstance(form, tuple):
        if form and form[0] == "T":
            form = ("L",) + form[1:]
        return tuple(loose(f) for f in form)
    return form


# ---------------------------------------------------------------------------------------------------- reference
class Ref:
    """ Reference value of a part. """

    def __init__(self, a, b, name):
        self.a, self.b, self.name = a, b, name


def to_ref(value):
    if isinstance(value, dict) and "P" in value:
        return Ref(*value["P"])
    if isinstance(value, list):
        return [to_ref(v) for v in value]
    return value


OPS = {"gt": lambda x, y: x > y, "lt": lambda x, y: x < y, "ge": lambda x, y: x >= y, "le": lambda x, y: x <= y,
       "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}


def ref_node(node, ins):
    """ Reference semantics of one node on reference values. """
    name, p = node["k"], node["p"]
    if name == "inst":
        return [Ref(*ins)]
    if name == "build":
        return [Ref(ins[0] + 1, ins[1], "built")]
    if name == "unit":
        return [Ref(2, 5, "unit")]
    if name == "combine":
        return [3 * ins[0] + ins[1]]
    if name == "total":
        return [ins[0].a * 2 + ins[0].b + ins[1], ins[0]]
    if name == "scaled":
        return [Ref(ins[0].a * ins[2] + ins[1], ins[0].b + ins[1], ins[0].name), ins[0]]
    if name == "tracked":
        return [ins[0].a - ins[1], ins[0]]
    if name == "maybe":
        return [None if (ins[0].a + ins[1]) % 2 else ins[1], ins[0]]
    if name == "deal":
        return [-1 if ins[1] is None else ins[1] + ins[0].b, ins[0]]
    if name == "fan":
        return [[Ref(ins[0].a + i, ins[1], f"fan{i}") for i in range(3)], ins[0]]
    if name == "bump":
        new = Ref(ins[0].a + ins[1], ins[0].b, ins[0].name)
        return [new.a, new]
    if name == "setattr":
        return [Ref(ins[1], ins[0].b, ins[0].name)]
    if name == "getattr":
        return [ins[0].a]
    if name == "mattr":
        return [ins[0].b]
    if name in ("seqi", "seqp", "seql", "seqn"):
        return [list(ins)]
    if name == "concat":
        return [[x for part in ins for x in part]]
    if name == "flatten":
        return [[x for part in ins[0] for x in part]]
    if name == "product":
        return [[tuple(t) for t in itertools.product(*ins)]]
    if name in ("unpacki", "unpackp"):
        return [ins[0][i] for i in p["idx"]]
    if name == "filter":
        def keep(part):
            tests = [OPS[op](getattr(part, attr), bound) for attr, op, bound in p["filters"]]
            return all(tests) if p["op"] == "and" else any(tests)
        return [[part for part in ins[0] if keep(part)]]
    if name == "sub":
        return [ins[0] - ins[1]]
    if name == "sum":
        return [sum(ins)]
    if name == "cats":
        return [p["sep"].join(ins)]
    if name == "wfb":
        keys = [k for k, _, _ in input_keys(p["sub"])]
        return [reference(p["sub"], dict(zip(keys, ins)))["output"]]
    if name == "foreach":
        keys = [k for k, _, _ in input_keys(p["sub"])]
        outputs = []
        for element in ins[p["iter"]]:
            args = list(ins)
            args[p["iter"]] = element
            outputs.append(reference(p["sub"], dict(zip(keys, args)))["output"])
        return [outputs]
    if name == "md":
        return [f"# Part {ins[0].a}\n\nb = {ins[0].b}"]
    if name in EXPORT_KINDS or name in DISPLAY_KINDS or name == "archive":
        return [None]
    raise ValueError(name)


def full_inputs(spec, values):
    """ Supplied reference values plus documented defaults. """
    full = {}
    locks = locked_keys(spec)
    for key, _, default in input_keys(spec):
        if key in values and key not in locks:
            full[key] = values[key]
        elif default is not None:
            full[key] = default[0]
    return full


def reference(spec, values, nodes=None):
    """ Evaluate the dataflow graph: {"ins": {node: [...]}, "outs": {node: [...]}, "output": value}. """
    values = full_inputs(spec, values)
    ins, outs = {}, {}

    def eval_node(index):
        if index in outs:
            return outs[index]
        node = spec["nodes"][index]
        args = []
        for port, source in enumerate(node["ins"]):
            if source[0] == "free":
                args.append(values[f"n{index}.{port}"])
            elif source[0] == "nbv":
                args.append(values[f"v{source[1]}"])
            else:
                args.append(eval_node(source[1])[source[2]])
        ins[index] = args
        outs[index] = ref_node(node, args)
        return outs[index]

    for index in (main_nodes(spec) if nodes is None else nodes):
        eval_node(index)
    out_node, out_port = spec["out"]
    return {"ins": ins, "outs": outs, "output": outs[out_node][out_port] if out_node in outs else None}


# ---------------------------------------------------------------------------------------------------- construction
def build(spec, name="wf", prefix="", description="", documentation=""):
    """ Build the real Workflow through the public API. Block names identify nodes: '<prefix>n<index>'. """
    from dessia_common.core import DessiaFilter
    from dessia_common.typings import AttributeType, CadViewType, ClassMethodType, MarkdownType, MethodType, PlotDataType
    from dessia_common.workflow import blocks as B
    from dessia_common.workflow.core import Pipe, Variable, Workflow
    from simkit.models import Part
    made = []
    for index, node in enumerate(spec["nodes"]):
        k, p, bn = node["k"], node["p"], f"{prefix}n{index}"
        n = len(node["ins"])
        pos = (index, index % 3)
        if k == "inst":
            block = B.InstantiateModel(model_class=Part, name=bn, position=pos)
        elif k in ("build", "combine", "unit"):
            block = B.ClassMethod(method_type=ClassMethodType(Part, k), name=bn, position=pos)
        elif k in ("total", "scaled", "tracked", "bump", "fan", "maybe", "deal"):
            block = B.ModelMethod(method_type=MethodType(Part, k), name=bn, position=pos)
        elif k == "setattr":
            block = B.SetModelAttribute(attribute_type=AttributeType(Part, "a"), name=bn, position=pos)
        elif k == "getattr":
            block = B.GetModelAttribute(attribute_type=AttributeType(Part, "a"), name=bn, position=pos)
        elif k == "mattr":
            block = B.ModelAttribute(attribute_name="b", name=bn, position=pos)
        elif k in ("seqi", "seqp", "seql", "seqn"):
            block = B.Sequence(number_arguments=n, name=bn, position=pos)
        elif k == "concat":
            block = B.Concatenate(number_arguments=n, name=bn, position=pos)
        elif k == "flatten":
            block = B.Flatten(name=bn, position=pos)
        elif k == "product":
            block = B.Product(number_list=n, name=bn, position=pos)
        elif k in ("unpacki", "unpackp"):
            block = B.Unpacker(indices=list(p["idx"]), name=bn, position=pos)
        elif k == "filter":
            block = B.Filter(filters=[DessiaFilter(attribute=a, comparison_operator=o, bound=x)
                                      for a, o, x in p["filters"]], logical_operator=p["op"], name=bn, position=pos)
        elif k == "sub":
            block = B.Substraction(name=bn, position=pos)
        elif k == "sum":
            block = B.Sum(number_elements=n, name=bn, position=pos)
        elif k == "cats":
            block = B.ConcatenateStrings(number_elements=n, separator=p["sep"], name=bn, position=pos)
        elif k == "wfb":
            block = B.WorkflowBlock(workflow=build(p["sub"], name=f"{bn}-sub", prefix=f"{bn}/"), name=bn, position=pos)
        elif k == "foreach":
            inner = B.WorkflowBlock(workflow=build(p["sub"], name=f"{bn}-sub", prefix=f"{bn}/"), name=f"{bn}/wb")
            block = B.ForEach(workflow_block=inner, iter_input_index=p["iter"], name=bn, position=pos)
        elif k == "md":
            block = B.Markdown(selector=MarkdownType(class_=Part, name="Sheet"), name=bn, position=pos)
        elif k == "plot":
            block = B.PlotData(selector=PlotDataType(class_=Part, name="Plot"), name=bn, position=pos)
        elif k == "cad":
            block = B.CadView(selector=CadViewType(class_=Part, name="CAD"), name=bn, position=pos)
        elif k == "mplot":
            block = B.MultiPlot(selector_name=f"Multi {bn}", attributes=["a", "b"], name=bn, position=pos)
        elif k == "mobj":
            block = B.MultiObject(selector_name=f"Objects {bn}", name=bn, position=pos,
                                  configurations=[B.ScatterView(attributes=tuple(view[1:]), name="s") if view[0] == "s" else
                                                  B.ParallelView(attributes=list(view[1:]), name="p")
                                                  for view in views(index)])
        elif k == "exptxt":
            block = B.Export(method_type=MethodType(Part, "export_text"), text=True, extension="txt",
                             filename=p["filename"], name=bn, position=pos)
        elif k == "expbin":
            block = B.Export(method_type=MethodType(Part, "export_binary"), text=False, extension="bin",
                             filename=p["filename"], name=bn, position=pos)
        elif k == "expjson":
            block = B.Export(method_type=MethodType(Part, "save_to_stream"), text=True, extension="json",
                             filename=p["filename"], name=bn, position=pos)
        elif k == "archive":
            block = B.Archive(number_exports=n - 1, filename=p["filename"], name=bn, position=pos)
        else:
            raise ValueError(k)
        made.append(block)
    py_types = {"i": int, "P": Part, "Li": List[int], "s": str}
    nbvs = [Variable(type_=py_types.get(t, int), name=f"{prefix}v{k}") for k, t in enumerate(spec["nbvs"])]
    pipes = []
    for source, index, port in pipe_list(spec):
        upstream = nbvs[source[1]] if source[0] == "nbv" else made[source[1]].outputs[source[2]]
        pipes.append(Pipe(upstream, made[index].inputs[port]))
    output = made[spec["out"][0]].outputs[spec["out"][1]]
    workflow = Workflow([made[i] for i in spec["order"]], pipes, output=output, name=name, description=description,
                        documentation=documentation)
    keys = [key for key, _, _ in input_keys(spec)]
    for key, value in spec.get("presets", {}).items():
        workflow.set_input_default(keys.index(key), to_real(value))
    for key, value in spec.get("locks", {}).items():
        workflow.lock_input(keys.index(key), to_real(value))
    return workflow


class Names:
    """ Maps spec names to a live workflow's objects, by position (works on copies and restored workflows too). """

    def __init__(self, spec, workflow):
        self.spec, self.workflow = spec, workflow
        self.block_index = {node: position for position, node in enumerate(spec["order"])}
        self.node_of_name = {f"n{i}": i for i in range(len(spec["nodes"]))}
        self.keys = [k for k, _, _ in input_keys(spec)]
        self.types = {k: t for k, t, _ in input_keys(spec)}
        self.defaults = {k: d for k, _, d in input_keys(spec)}

    def block(self, node):
        return self.workflow.blocks[self.block_index[node]]

    def index(self, key):
        """ Index of an input key among workflow.inputs. """
        if key.startswith("v"):
            order = nbv_order(self.spec)
            variable = self.workflow.nonblock_variables[order.index(int(key[1:]))]
        else:
            node, port = key[1:].split(".")
            variable = self.block(int(node)).inputs[int(port)]
        for i, candidate in enumerate(self.workflow.inputs):
            if candidate is variable:
                return i
        raise KeyError(key)
