"""
Everything a user can observe about objects, datasets, workflows and runs without modifying them.

A universe is a JSON document; `build` makes its subjects, `observe` performs one operation on one subject and returns a
JSON document describing the result (an exception is a result too).
"""
import io
import json
import re

from simkit import objgen, wfgen
from simkit.props import c08

OBJECT = ["dict", "dict", "stream", "load", "copy", "shallow", "eq", "diff", "hash", "schema", "raw_schema", "method_schemas",
          "settings", "displays", "markdown", "xlsx", "docx", "zip", "formats", "valid", "method_dict", "vector",
          "breakdown", "path", "size", "jsonable", "checks"]
DATASET = ["dict", "str", "markdown", "matrix", "common", "displays", "mean", "covariance", "distances", "filter", "singular",
           "pareto", "sheets", "column", "pick", "xlsx", "copy", "eq", "hash", "multi", "sort", "extend", "group", "group"]
WORKFLOW = ["dict", "dict", "copy", "load", "eq", "hash", "method_schemas", "method_schemas", "settings", "formats", "script",
            "layout", "markdown", "runtime", "upstream", "matches", "packages", "valid", "docx", "method_dict", "schema",
            "run", "displays", "inputs", "graph", "branches", "jointjs"]
RUN = ["dict"] * 4 + ["displays"] * 4 + ["zip"] * 3 + ["copy"] * 3 + ["load", "markdown", "script", "hash", "formats", "settings",
       "method_schemas", "progress", "path", "docx"]
STATE = ["dict", "load", "markdown", "eq", "hash", "copy", "formats", "settings", "progress", "resume"]
CLASSES = ["Part", "Crate", "Node", "Root", "Parameter", "Filter", "Bounded", "Het", "Assembly", "Assembly", "Assembly", "Keyed", "Other"]
ASSEMBLY = ["dict", "method_schemas", "method_schemas", "method_dict", "schema", "arguments", "markdown", "copy", "eq", "settings",
            "valid", "xlsx", "diff", "hash", "displays"]
CLASS = ["schema", "raw_schema", "settings", "decorated", "features", "doc"]
OPERATIONS = {"object": OBJECT, "dataset": DATASET, "clusters": DATASET, "workflow": WORKFLOW, "run": RUN, "state": STATE,
              "class": CLASS, "assembly": ASSEMBLY}
FIGURES = re.compile(r"\|[^\n]*\d ?(?:Bytes?|kB|MB|GB)[^\n]*\n?")  # memory figures of the execution tables
ADDRESS = re.compile(r"0x[0-9a-fA-F]{6,}")
WF_KINDS = [k for k in wfgen.KINDS if k not in ("bump", "setattr")]


def gen_universe(rng, size=None, blocks=(2, 3, 4, 6)):
    universe = {"objects": objgen.gen_spec(rng, size=size or rng.choice([2, 3, 4, 6, 9])),
                "parts": [[rng.randrange(20), rng.randrange(8)] for _ in range(rng.choice([2, 3, 6, 12]))]}
    if rng.random() < 0.7:
        spec = wfgen.gen_spec(rng, size=rng.choice(blocks), kinds=WF_KINDS)
        universe["workflow"] = spec
        universe["inputs"] = wfgen.gen_inputs(rng, spec)
        universe["given"] = [k for k in universe["inputs"] if rng.random() < 0.5]
        if rng.random() < 0.4:  # An early output leaves long secondary branches to the displays and exports
            outs = [[i, p] for i in range(len(spec["nodes"])) for p, t in enumerate(wfgen.node_ports(spec, i)[1])
                    if t not in ("D", "F")]
            spec["out"] = outs[rng.randrange((len(outs) + 1) // 2)]
            universe["inputs"] = wfgen.gen_inputs(rng, spec)
            universe["given"] = [k for k in universe["inputs"] if rng.random() < 0.5]
    return universe


def gen_operation(rng, universe, focus=None):
    """ [subject kind, subject number, operation]. """
    kinds = ["object", "object", "object", "dataset", "clusters", "class", "assembly"]
    if "workflow" in universe:
        kinds += ["workflow", "workflow", "workflow", "run", "state"]
    kind = focus if focus in kinds else rng.choice(kinds)
    number = rng.randrange(len(universe["objects"]["nodes"])) if kind == "object" else rng.randrange(len(CLASSES)) \
        if kind == "class" else 0
    if kind == "object" and rng.random() < 0.6:
        number = len(universe["objects"]["nodes"]) - 1
    return [kind, number, rng.choice(OPERATIONS[kind])]


def class_of(name):
    from simkit import models
    return models.Assembly if name == "Assembly" else objgen.classes()[name]


class Universe:
    """ Real subjects of a universe. """

    def __init__(self, doc, parts=("objects", "datasets", "workflow")):
        from simkit import models
        self.doc = doc
        self.objects = objgen.build(doc["objects"])
        self.twins = objgen.build(doc["objects"])
        self.documents = {}
        from dessia_common.datatools.dataset import Dataset
        from dessia_common.datatools.cluster import ClusteredDataset
        rows = [models.Part(a=a, b=b, name=f"row {i}") for i, (a, b) in enumerate(doc["parts"])]
        self.dataset = Dataset(rows, name="dataset")
        self.twin_dataset = Dataset(list(rows), name="dataset")
        self.clusters = ClusteredDataset(rows, labels=[i % 3 - 1 for i in range(len(rows))], name="clusters")
        self.twin_clusters = ClusteredDataset(list(rows), labels=[i % 3 - 1 for i in range(len(rows))], name="clusters")
        self.assembly, self.twin_assembly = (models.Assembly(rows[0], rows[1:3] + rows[:1], size=(1.5, 3), table={"x": 1.5, "a": 2.5},
                                             kind=models.Part, matrix=[[1, 2], [3]], name="The assembly") for _ in range(2))
        self.workflow = self.run = self.state = None
        if "workflow" in doc:
            spec = doc["workflow"]
            self.workflow = wfgen.build(spec, documentation="Doc of *it*", description="described", name="The workflow")
            self.names = wfgen.Names(spec, self.workflow)
            self.values = {self.names.index(k): wfgen.to_real(v) for k, v in doc["inputs"].items()}
            self.run = self.workflow.run(dict(self.values), name="The run")
            given = {self.names.index(k): self.values[self.names.index(k)] for k in doc["given"]}
            self.state = self.workflow.start_run(given)
            self.state.evaluate_next_block()
            self.twin_workflow = wfgen.build(spec, documentation="Doc of *it*", description="described", name="The workflow")

    def prepare(self, operations):
        """ Documents to be loaded, saved beforehand. """
        for kind, number, operation in operations:
            if operation == "load":
                self.documents[(kind, number)] = json.dumps(self.subject(kind, number).to_dict())

    def subject(self, kind, number):
        return {"object": lambda: self.objects[number], "dataset": lambda: self.dataset, "clusters": lambda: self.clusters,
                "assembly": lambda: self.assembly, "workflow": lambda: self.workflow, "run": lambda: self.run, "state": lambda: self.state,
                "class": lambda: class_of(CLASSES[number])}[kind]()

    def twin(self, kind, number):
        return {"object": lambda: self.twins[number], "dataset": lambda: self.twin_dataset,
                "clusters": lambda: self.twin_clusters, "assembly": lambda: self.twin_assembly, "workflow": lambda: self.twin_workflow, "run": lambda: self.run,
                "state": lambda: self.state}[kind]()

    def view(self):
        """ Data of every subject: no observation changes it. """
        doc = {"objects": [objgen.canon(o) for o in self.objects], "rows": [[p.a, p.b, p.name] for p in self.dataset.dessia_objects],
               "assembly": [[p.name for p in self.assembly.parts], self.assembly.table, self.assembly.size, self.assembly.matrix],
               "labels": list(self.clusters.labels), "clusters": [[p.a, p.b, p.name] for p in self.clusters.dessia_objects]}
        if self.workflow is not None:
            doc["layout"] = [[wfgen.canon(v) for v in (self.run.output_value, self.run.progress, self.state.progress)],
                             [[v.name, v.label, str(v.locked)] for v in self.workflow.inputs],
                             sorted([i, wfgen.canon(v)] for i, v in self.run.input_values.items()),
                             sorted([i, wfgen.canon(v)] for i, v in self.state.input_values.items()),
                             sorted([self.state.workflow.pipes.index(p), str(wfgen.canon(v))] for p, v in self.state.values.items()
                                    if "File" not in type(v).__name__)]
        return doc


def plain(value, depth=0):
    """ JSON description of any result. """
    from dessia_common.core import DessiaObject
    import numpy
    if depth > 30:
        return "..."
    if isinstance(value, DessiaObject) and objgen.kind_of(value) in objgen.FIELDS:
        return objgen.canon(value)
    if isinstance(value, dict):
        return {"items": [[plain(k, depth + 1), plain(v, depth + 1)] for k, v in value.items()
                          if k != "execution_info"]}
    if isinstance(value, (list, tuple)):
        return [plain(v, depth + 1) for v in value]
    if isinstance(value, (set, frozenset)):
        return {"set": sorted(json.dumps(plain(v, depth + 1)) for v in value)}
    if isinstance(value, numpy.ndarray):
        return plain(value.tolist(), depth + 1)
    if isinstance(value, (float, numpy.floating)):
        return repr(round(float(value), 9))
    if isinstance(value, (bool, numpy.bool_)):
        return bool(value)
    if isinstance(value, (int, numpy.integer)):
        return int(value)
    if value is None or isinstance(value, str):
        return FIGURES.sub("", ADDRESS.sub("0x", value)) if value else value
    if isinstance(value, type):
        return f"{value.__module__}.{value.__qualname__}"
    if hasattr(value, "to_dict"):
        return [type(value).__name__, plain(value.to_dict(), depth + 1)]
    return ADDRESS.sub("0x", repr(value))


def binary(call, extension):
    from dessia_common.files import BinaryFile
    stream = BinaryFile()
    call(stream)
    return c08.decode(stream.getvalue(), extension)


def description(value):
    """ What a restored or copied subject contains. """
    name = objgen.kind_of(value)
    if name in objgen.FIELDS and name != "Dataset":
        return objgen.canon(value, sharing="standalone")
    return value.to_dict()


LAZY = ("values", "evaluated_blocks_indices", "evaluated_pipes_indices", "evaluated_variables_indices", "_references")


def observe(world, kind, number, operation):
    """ Result of one operation on one subject, as a JSON document. """
    subject = world.subject(kind, number)
    try:
        result = perform(world, subject, kind, number, operation)
        if kind == "run" and isinstance(result, dict):
            # Displays and exports of a run evaluate the secondary blocks they need, which are saved with it
            result = {k: v for k, v in result.items() if k not in LAZY}
        result = plain(result)
    except Exception as exc:  # noqa a refusal is a result
        result = ["raises", type(exc).__name__, ADDRESS.sub("0x", str(exc))[:300]]
    return json.loads(c08.renumber(json.dumps(result)))


def perform(world, subject, kind, number, operation):
    from dessia_common.core import DessiaObject
    from dessia_common.serialization import serialize
    if operation == "dict":
        return subject.to_dict()
    if operation == "stream":
        stream = io.StringIO()
        subject.save_to_stream(stream)
        return json.loads(stream.getvalue())
    if operation == "load":
        return description(DessiaObject.dict_to_object(json.loads(world.documents[(kind, number)])))
    if operation == "copy":
        return description(subject.copy())
    if operation == "shallow":
        return description(subject.copy(deep=False))
    if operation == "eq":
        return [subject == world.twin(kind, number), world.twin(kind, number) == subject]
    if operation == "diff":
        return str(subject._data_diff(world.twin(kind, number)))
    if operation == "hash":
        return hash(subject) if kind != "run" else isinstance(hash(subject), int)
    if operation == "schema":
        return subject.schema()
    if operation == "raw_schema":
        return subject.raw_schema().to_dict()
    if operation == "method_schemas":
        return subject.method_schemas
    if operation == "settings":
        settings = subject.blocks_display_settings if kind == "workflow" else subject.display_settings()
        return [s.to_dict() for s in settings]
    if operation == "decorated":
        return [s.to_dict() for s in subject._display_settings_from_decorators()], \
            [f.to_dict() for f in subject._export_formats_from_decorators()]
    if operation == "features":
        return subject.vector_features()
    if operation == "doc":
        from dessia_common.schemas.core import ClassSchema
        schema = ClassSchema(subject)
        return [schema.default_dict(), schema.to_dict(), plain(schema.check_list().to_dict())]
    if operation == "displays":
        return subject._displays()
    if operation == "markdown":
        return subject.to_markdown()
    if operation == "xlsx":
        return binary(subject.to_xlsx_stream, "xlsx")
    if operation == "docx":
        document = binary(subject.to_docx_stream, "docx")
        return document[:2] if kind in ("run", "state") else document
    if operation == "zip":
        return binary(subject.to_zip_stream, "zip")
    if operation == "formats":
        return [f.to_dict() for f in subject._export_formats()]
    if operation == "valid":
        return subject.is_valid()
    if operation == "method_dict":
        return [[name, subject.method_dict(name)] for name in sorted(subject._allowed_methods)]
    if operation == "vector":
        return [subject.vector_features(), subject.to_vector()]
    if operation == "breakdown":
        from dessia_common.breakdown import object_breakdown
        return object_breakdown(subject)
    if operation == "path":
        if kind == "run":
            return [plain(subject._get_from_path("#/output_value")), plain(subject._get_from_path("#/workflow/blocks/0").name)]
        from dessia_common.serialization import is_sequence  # noqa
        return [[f, plain(subject._get_from_path(f"#/{f}"))] for f in objgen.FIELDS[objgen.kind_of(subject)]]
    if operation == "size":
        from dessia_common.breakdown import breakdown
        return {k: len(v) for k, v in breakdown(subject).items()}
    if operation == "jsonable":
        return serialize(subject)
    if operation == "arguments":
        from simkit import models
        documents = {"mass": {"0": 2.5, "2": [world.dataset.dessia_objects[0].to_dict()]},
                     "merge": {"0": world.dataset.dessia_objects[1].to_dict(), "1": {"a": 1}}}
        part, crate = world.dataset.dessia_objects[0], models.Crate(1.5, world.dataset.dessia_objects[:2], name="crate")
        documents["mixed"] = {"0": crate.to_dict(), "1": [part.to_dict(), 3], "2": "low", "3": part.to_dict(),
                              "4": [[1, 2.0], [3, 4.5]], "5": 1.5, "6": [[part.to_dict()], []], "9": [part.to_dict()],
                              "10": crate.to_dict(), "11": [1]}
        return [[name, subject.dict_to_arguments(doc, name)] for name, doc in documents.items()]
    if operation == "checks":
        return [[type(c).__name__, c.message] for c in subject.check_list(check_platform=False).checks]
    if kind in ("dataset", "clusters"):
        return dataset(subject, operation)
    return workflow(world, subject, operation)


def dataset(subject, operation):
    from dessia_common.core import DessiaFilter, FiltersList
    if operation == "str":
        return str(subject)
    if operation == "matrix":
        return subject.matrix
    if operation == "common":
        return subject.common_attributes
    if operation == "mean":
        return [subject.mean(), subject.standard_deviation(), subject.variances()]
    if operation == "covariance":
        return subject.covariance_matrix()
    if operation == "distances":
        return subject.distance_matrix("euclidean")
    if operation == "filter":
        filters = FiltersList([DessiaFilter("a", "gt", 3), DessiaFilter("b", "le", 6)], "and")
        return [[p.a, p.b] for p in subject.filtering(filters).dessia_objects]
    if operation == "singular":
        values, reduced = subject.singular_values()
        return [[round(v, 6) for v in values], reduced]
    if operation == "pareto":
        return [[p.a, p.b] for p in subject.pareto_points(["a", "b"]).dessia_objects]
    if operation == "sheets":
        sheets, rest = subject.pareto_sheets(["a", "b"], nb_sheets=2)
        return [[[p.a, p.b] for p in s.dessia_objects] for s in [*sheets, rest]]
    if operation == "column":
        return [subject.attribute_values("a"), subject.column_values(0), subject.sub_matrix(["b"])]
    if operation == "pick":
        return [[[p.a, p.b] for p in part.dessia_objects] for part in (subject[:2], subject[[0, 1]])]
    if operation == "sort":
        other = subject[:]
        other.sort("b", ascend=False)
        again = subject[:]
        again.sort(0)
        return [[[p.a, p.b] for p in part.dessia_objects] for part in (other, again)]
    if operation == "extend":
        other = subject[:2]
        other.extend(subject[1:])
        return [[[p.a, p.b] for p in part.dessia_objects] for part in (other, subject + subject)]
    if operation == "group":
        from dessia_common.datatools.cluster import ClusteredDataset
        from dessia_common.datatools.dataset import Dataset
        rows = Dataset(list(subject.dessia_objects), name="rows")
        groups = [ClusteredDataset.from_agglomerative_clustering(rows, n_clusters=2, name="near"),
                  ClusteredDataset.from_dbscan(rows, eps=4.0, min_samples=2, name="dense")]
        return [[[int(label) for label in g.labels], g.n_clusters, str(g),
                 [[d.name, [[p.a, p.b] for p in d.dessia_objects]] for d in g.clustered_sublists().dessia_objects]] for g in groups]
    if operation == "multi":
        from dessia_common.datatools.dataset import Dataset  # noqa
        return [f.to_dict() if hasattr(f, "to_dict") else str(f) for f in
                (subject.plot_scatter_matrix(), subject.plot_parallel_plot(), subject.plot_histogram())]
    raise ValueError(operation)


def workflow(world, subject, operation):
    if operation == "script":
        script = subject.to_script()
        return script if isinstance(script, str) else [script.imports_to_str(), script.declaration]
    if operation == "layout":
        return subject.layout()
    if operation == "runtime":
        return [b.name for b in subject.runtime_blocks]
    if operation == "upstream":
        return [[b.name, [u.name for u in subject.upstream_blocks(b)], [u.name for u in subject.upstream_branch(b)],
                 [[i.name for i in subject.upstream_inputs(v)] for v in b.outputs]] for b in subject.blocks]
    if operation == "branches":
        return [[b.name, [u.name for u in subject.secondary_branch_blocks(b)]] for b in subject.blocks]
    if operation == "matches":
        return subject.match_variables(True)
    if operation == "packages":
        return subject.package_mix()
    if operation == "inputs":
        return [[v.name, v.label, plain(subject.input_schema(v))] for v in subject.inputs]
    if operation == "graph":
        places = {id(item): i for i, item in enumerate([*subject.variables, *subject.blocks])}
        return [subject.nodes.index(n) for n in subject.layout_graph.nodes], [places.get(id(n)) for n in subject.graph.nodes], \
            [subject.variable_indices(v) for v in subject.variables]
    if operation == "jointjs":
        return [len(subject.output_disconnected_elements()), [[subject.block_selector(b)] for b in subject.blocks]]
    if operation == "run":
        return wfgen.canon(subject.run(dict(world.values)).output_value)
    if operation == "progress":
        return [subject.progress, plain(subject.output_value)]
    if operation == "resume":
        state = subject.copy()
        done = [b.name for b in state.continue_run()]
        return [done, state.progress]
    raise ValueError(operation)
