"""
Generator of object graphs: a spec is a JSON document, `build` makes the real objects, `canon` reads them back.

Every object carries its own number in its data, so that two distinct objects are never equal in the sense of the
library (equal objects are merged when saved, see DESIGN.md).
"""
import numpy

from simkit import models, models2

WORDS = ["", "a", "Épaisseur", "x y", "line1\nline2", "tab\t", "\"quoted\"", "3.14 mm", "Hello. World", "日本", "\\back", "{}",
         "[1]", "#", "None", "null", "0", "😀", "a'b", "very long " * 12]
KEYS = ["k", "key two", "é", "0", "name", "Z", "value", "long_key_name", "#", "~1", "m/s", "a~b"]
MEASURES = ["Distance", "Angle", "Time", "Speed", "Mass"]
CLASSES = ["Part", "Node", "Node", "Root", "Crate", "Parameter", "Filter", "Bounded", "Het", "Keyed", "Other"]


def gen_scalar(rng):
    kind = rng.choice(["int", "int", "float", "str", "str", "bool", "none", "measure", "class", "numpy"])
    if kind == "int":
        return rng.choice([0, 1, -1, 7, 12345, -10 ** 9, 2 ** 53 - 1])
    if kind == "float":
        return rng.choice([0.0, 0.5, -1.25, 1e-7, 3.0, 1e300, 123456.789, 0.123456789])
    if kind == "str":
        return rng.choice(WORDS)
    if kind == "bool":
        return rng.choice([True, False])
    if kind == "measure":
        return {"m": [rng.choice(MEASURES), rng.choice([1.0, 2.0, 0.25])]}
    if kind == "numpy":
        return {"np": rng.choice([["float64", 2.0], ["float64", -0.75], ["int64", 41], ["int64", -3]])}
    if kind == "class":
        return {"c": rng.choice(["Part", "Node"])}
    return None


def gen_value(rng, below, depth=0):
    """ Free-form value; below: number of objects that can be referenced. """
    kind = rng.choices(["scalar", "list", "dict", "ref"], [4, 1.5 if depth < 3 else 0, 1.5 if depth < 3 else 0,
                                                           3 if below else 0])[0]
    if kind == "list":
        return [gen_value(rng, below, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if kind == "dict":
        return {"d": {k: gen_value(rng, below, depth + 1) for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))}}
    if kind == "ref":
        return {"$": rng.randrange(below)}
    return gen_scalar(rng)


def gen_spec(rng, size=None, classes=CLASSES):
    """ A directed acyclic graph of objects; the last one is the root. """
    size = size or rng.choice([1, 2, 3, 4, 6, 9])
    nodes = []
    for i in range(size):
        cls = rng.choice(classes)
        if i == size - 1:
            cls = rng.choice([c for c in classes if c in ("Root", "Node", "Crate")] or classes)
        if cls == "Het" and any(n["c"] == "Het" for n in nodes):
            cls = "Part"
        node = {"c": cls, "name": rng.choice(["", f"name {i}", "Même nom", "n"])}
        if cls == "Part":
            node.update(a=1000 * i + rng.randrange(900), b=rng.choice([1, 2, -5]))
        elif cls == "Node":
            node.update(value=gen_value(rng, i), children=refs(rng, i) if rng.random() < 0.8 else None,
                        props={k: gen_value(rng, i) for k in rng.sample(KEYS, rng.choice([0, 1, 2]))}
                        if rng.random() < 0.7 else None)
        elif cls == "Root":
            node.update(items=refs(rng, i), table={k: gen_value(rng, i) for k in rng.sample(KEYS, rng.choice([0, 1, 3]))},
                        pair=[i, rng.choice([0.5, 2.0])] if rng.random() < 0.7 else None,
                        label=rng.choice(WORDS), main={"$": rng.randrange(i)} if i and rng.random() < 0.6 else None)
        elif cls == "Crate":
            node.update(content=gen_value(rng, i), parts=[{"$": r} for r, n in enumerate(nodes) if n["c"] == "Part"
                                                          and rng.random() < 0.7])
        elif cls == "Parameter":
            node.update(lower_bound=float(i), upper_bound=i + rng.choice([0.5, 2.0, 10.0]),
                        periodicity=rng.choice([None, 1.0]))
        elif cls == "Filter":
            node.update(attribute=f"attribute {i}", comparison_operator=rng.choice(["gt", "lt", "eq", "ge"]),
                        bound=rng.choice([0.5, 2.0]))
        elif cls == "Bounded":
            node.update(attribute_name=f"bounded {i}", min_value=-i - rng.choice([0.0, 0.123456789]), max_value=i + rng.choice([0.5, 2.0, 3.1415926]))
        elif cls == "Keyed":
            node.update(code=i, grade=rng.choice([3, 4, -1]), tags=gen_value(rng, i))
        elif cls == "Other":
            node.update(reference=1000 * i + rng.randrange(900), b=rng.choice([2, 5]), supplier=rng.choice(WORDS))
        elif cls == "Het":
            node.update(dessia_objects=[{"$": r} for r, n in enumerate(nodes) if n["c"] == "Part" and rng.random() < 0.7])
        nodes.append(node)
    return {"nodes": nodes}


def refs(rng, below):
    return [{"$": rng.randrange(below)} for _ in range(rng.choice([0, 1, 2, 4]))] if below else []


def classes():
    from dessia_common.core import Parameter, DessiaFilter
    from dessia_common.optimization import BoundedAttributeValue
    from dessia_common.datatools.dataset import Dataset
    return {"Part": models.Part, "Node": models.Node, "Root": models.Root, "Crate": models.Crate,
            "Parameter": Parameter, "Filter": DessiaFilter, "Bounded": BoundedAttributeValue, "Het": Dataset,
            "Keyed": models2.Keyed, "Other": models2.Part}


def real(value, objects):
    if isinstance(value, list):
        return [real(v, objects) for v in value]
    if isinstance(value, dict):
        if "$" in value:
            return objects[value["$"]]
        if "m" in value:
            import dessia_common.measures as measures
            return getattr(measures, value["m"][0])(value["m"][1])
        if "np" in value:
            return getattr(numpy, value["np"][0])(value["np"][1])
        if "c" in value:
            return getattr(models, value["c"])
        return {k: real(v, objects) for k, v in value["d"].items()}
    return value


def build(spec):
    """ Real objects of a spec, in order; the last one is the root. """
    table, objects = classes(), []
    for i, node in enumerate(spec["nodes"]):
        args = {k: v for k, v in node.items() if k != "c"}
        if node["c"] == "Root":
            args["table"] = {k: real(v, objects) for k, v in args["table"].items()}
            args["pair"] = None if args["pair"] is None else tuple(args["pair"])
            args["items"], args["main"] = real(args["items"], objects), real(args["main"], objects)
            args["label"] = f"{args['label']}({i})"
        elif node["c"] == "Node":
            args["value"] = [i, real(args["value"], objects)]
            args["children"] = real(args["children"], objects)
            if args["props"] is not None:
                args["props"] = {k: real(v, objects) for k, v in args["props"].items()}
        elif node["c"] == "Crate":
            args["content"] = [i, real(args["content"], objects)]
            args["parts"] = real(args["parts"], objects)
        elif node["c"] == "Keyed":
            args["tags"] = real(args["tags"], objects)
        elif node["c"] == "Het":
            args["dessia_objects"] = real(args["dessia_objects"], objects)
            args["name"] = f"set {i}"
        objects.append(table[node["c"]](**args))
    return objects


FIELDS = {"Part": ["a", "b"], "Node": ["value", "children", "props"], "Crate": ["content", "parts"],
          "Root": ["items", "table", "pair", "label", "main"], "Parameter": ["lower_bound", "upper_bound", "periodicity"],
          "DessiaFilter": ["attribute", "comparison_operator", "bound"],
          "BoundedAttributeValue": ["attribute_name", "min_value", "max_value"], "Dataset": ["dessia_objects"],
          "Keyed": ["code", "grade", "tags"], "models2.Part": ["reference", "b", "supplier"]}


def kind_of(obj):
    """ Key of an object in FIELDS. """
    return "models2.Part" if type(obj) is models2.Part else type(obj).__name__


def canon(value, seen=None, sharing="all"):
    """
    Structure of a value: data and, through object numbers, which parts are the same object.

    sharing: "all", or "standalone" to number the objects that are saved on their own only.
    """
    from dessia_common.core import DessiaObject
    from dessia_common.measures import Measure
    if seen is None:
        seen = {}
    if isinstance(value, DessiaObject):
        if id(value) in seen:
            return ["same", seen[id(value)][0]]
        if sharing == "all" or value._standalone_in_db:
            seen[id(value)] = [len(seen), value]
        name = kind_of(value)
        return ["object", name, value.name] + [[f, canon(getattr(value, f), seen, sharing)] for f in FIELDS[name]]
    if isinstance(value, dict):
        return ["dict"] + [[repr(k), canon(value[k], seen, sharing)] for k in sorted(value, key=repr)]
    if isinstance(value, (list, tuple)):
        return ["list"] + [canon(v, seen, sharing) for v in value]
    if isinstance(value, type):
        return ["class", value.__name__]
    if isinstance(value, (numpy.int64, numpy.float64)):
        value = value.item()  # saved as plain numbers
    if isinstance(value, Measure):
        return ["measure", type(value).__name__, float(value)]
    return [type(value).__name__, repr(value)]


def difference(left, right, path="root"):
    """ First place where two canonical forms differ. """
    if type(left) is dict and type(right) is dict and list(left) == list(right):
        for key in left:
            if left[key] != right[key]:
                return difference(left[key], right[key], f"{path}.{key}")
    if type(left) is list and type(right) is list and len(left) == len(right):
        for i, (a, b) in enumerate(zip(left, right)):
            if a != b:
                label = a[0] if isinstance(a, list) and a and isinstance(a[0], str) and a[0] not in ("list", "dict") else i
                return difference(a, b, f"{path}/{label}")
    return f"{path}: {str(left)[:200]} != {str(right)[:200]}"
