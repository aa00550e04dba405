"""
C07: saved objects survive crashes and restarts unchanged.

A history of saves of successive versions of an object graph into a few files, each lifetime in a fresh process on a
simulated disk; the process may die, or the disk fail, at any byte or operation of a save.
"""
import io
import json
import os

from simkit import disk, faults, objgen, seams, zygote

HOW = ["save_to_file", "save_to_file", "save_to_stream", "indent"]
LOAD = ["from_json", "from_json", "load_from_file", "stream", "dict"]


class Unsaveable:
    """ Something that cannot be serialized. """


def gen(rng, tier):
    specs = [objgen.gen_spec(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    lives = []
    for _ in range(rng.choice([1, 2, 2, 3] if tier == "quick" else [2, 3, 4, 6])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            kind = rng.choices(["save", "resave", "edit", "spoil", "userfail"], [5, 2, 2, 1, 0.7])[0]
            op = {"op": kind, "file": rng.randrange(2), "version": rng.randrange(len(specs)), "how": rng.choice(HOW),
                  "chunk": rng.choice([None, None, 1, 7, 64, 1000]), "faults": [], "load": rng.choice(LOAD),
                  "pick": rng.randrange(100)}
            if kind in ("save", "resave", "edit") and rng.random() < 0.55:
                op["faults"] = disk.gen_faults(rng, crash=True)
            ops.append(op)
        lives.append({"ops": ops, "seam": seams.gen_seam(rng)})
    return {"specs": specs, "lives": lives, "seam": lives[0]["seam"], "shrink": ["lives"]}


def describe(plan):
    return {"objects": [[n["c"] for n in s["nodes"]] for s in plan["specs"]],
            "ops": [[[o["op"], o["file"], o["how"], [[*f["at"], f["kind"]] for f in o["faults"]]] for o in life["ops"]]
                    for life in plan["lives"]]}


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        for j, op in enumerate(life["ops"]):
            candidate = json.loads(json.dumps(plan))
            del candidate["lives"][i]["ops"][j]
            yield candidate
            for k in range(len(op["faults"])):
                candidate = json.loads(json.dumps(plan))
                del candidate["lives"][i]["ops"][j]["faults"][k]
                yield candidate
            if op["chunk"]:
                candidate = json.loads(json.dumps(plan))
                candidate["lives"][i]["ops"][j]["chunk"] = None
                yield candidate
    for i, spec in enumerate(plan["specs"]):
        for j, node in enumerate(spec["nodes"]):
            for key, value in node.items():
                if key != "c" and value not in (None, "", [], {}) and not isinstance(value, (int, float)):
                    for smaller in smaller_values(value):
                        candidate = json.loads(json.dumps(plan))
                        candidate["specs"][i]["nodes"][j][key] = smaller
                        yield candidate


def smaller_values(value):
    if isinstance(value, str):
        yield ""
    elif isinstance(value, list):
        for i in range(len(value)):
            yield value[:i] + value[i + 1:]
    elif isinstance(value, dict) and not {"$", "m", "c", "np"} & set(value):
        for key in value:
            yield {k: v for k, v in value.items() if k != key}


def content(path):
    if not os.path.exists(path):
        return None
    with disk.REAL["open"](path, "rb") as file:
        return file.read()


def load(path, how):
    from dessia_common.core import DessiaObject
    if how == "load_from_file":
        return DessiaObject.load_from_file(path)
    if how == "stream":
        with open(path, "rb") as stream:
            return DessiaObject.from_json_stream(stream)
    if how == "dict":
        with open(path, "r", encoding="utf-8") as stream:
            return DessiaObject.dict_to_object(json.load(stream))
    return DessiaObject.from_json(path)


def save(obj, path, how):
    if how == "save_to_stream":
        buffer = io.StringIO()
        obj.save_to_stream(buffer)
        with open(path, "w", encoding="utf-8") as stream:
            stream.write(buffer.getvalue())
    elif how == "indent":
        obj.save_to_file(path, indent=0)
    else:
        obj.save_to_file(path)


def life(payload, ctx):
    plan, number = payload["plan"], payload["number"]
    root = payload["root"]
    ops = plan["lives"][number]["ops"] if number < len(plan["lives"]) else []
    # What each file may hold: list of canonical forms (None: no loadable object)
    allowed = payload["allowed"]
    user = faults.UserCode(ctx).install()
    user.armed = False
    sim = disk.Disk(ctx, root)
    sim.install()

    def path_of(op):
        return os.path.join(root, f"file{op['file']}.json")

    def verify(name, how, kind):
        path = os.path.join(root, name)
        choices = allowed[name]
        try:
            obj = load(path, how)
        except Exception as exc:  # noqa any refusal is a refusal
            ctx.check(None in choices, kind, lambda: f"{name} cannot be loaded ({how}): {exc!r}")
            ctx.ev("refused", name)
            return None
        form = objgen.canon(obj, sharing="standalone")
        matching = [c for c in choices if c == form]
        ctx.check(matching, kind, lambda: f"{name} loaded ({how}) as something that was never saved: "
                  + objgen.difference([c for c in choices if c][-1] if any(choices) else ["nothing"], form))
        ctx.ev("loaded", name)
        return obj

    # After the restart: whatever is on the disk is one of the allowed versions
    for name in sorted(allowed):
        verify(name, "from_json", "restart")
    for index, op in enumerate(ops):
        path, name = path_of(op), f"file{op['file']}.json"
        previous = allowed.setdefault(name, [None])
        if op["op"] == "save" or not os.path.exists(path):
            objects = objgen.build(plan["specs"][op["version"]])
            obj = objects[-1]
        else:
            obj = verify(name, op["load"], "load")
            if obj is None:
                continue
            objects = [obj]
        if op["op"] == "edit":
            edit(obj, op["pick"], 100 * number + index)
        form = objgen.canon(obj, sharing="standalone")
        if op["op"] in ("spoil", "userfail"):
            before = content(path)
            spoilt = Spoiler(obj, op["pick"]) if op["op"] == "spoil" else None
            try:
                if spoilt is None:
                    obj.to_dict = failing(ctx)
                save(obj, path, "save_to_file")
            except Exception as exc:  # noqa
                ctx.ev("save refused", type(exc).__name__)
            else:
                ctx.fail("unserializable-saved", f"{name}")
            finally:
                if spoilt is None:
                    del obj.__dict__["to_dict"]
                else:
                    spoilt.undo()
            ctx.check(content(path) == before, "previous-file-changed", f"{name} after a save that could not serialize")
            ctx.check(objgen.canon(obj, sharing="standalone") == form, "saving-changed-the-object", name)
            continue
        buffer = io.StringIO()
        obj.save_to_stream(buffer)
        size = len(buffer.getvalue())
        before = content(path)

        def crash():
            # The process dies here: nothing after this point happens
            outcome = {k: v for k, v in allowed.items()}
            outcome[name] = previous + [form, None]
            zygote.die({"export": ctx.export(), "violation": None, "result": {"allowed": outcome, "crashed": True}})

        sim.crash = crash
        sim.arm(disk.resolve(op["faults"], size), op["chunk"])
        try:
            save(obj, path, op["how"])
        except Exception as exc:  # noqa
            ctx.check(any(faults.in_chain(exc, e) for e in sim.fired), "save-failed",
                      lambda: f"{name}: {exc!r} without any fault")
            ctx.ev("save failed")
            allowed[name] = previous + [form, None]
        else:
            # Whatever the disk did, a save that ends normally has saved the object
            allowed[name] = [form]
        finally:
            sim.disarm()
            sim.crash = None
        ctx.check(objgen.canon(obj, sharing="standalone") == form, "saving-changed-the-object", name)
        again = verify(name, op["load"], "load-after-save")
        if again is not None and allowed[name] == [form]:
            ctx.check(again == obj and obj == again, "not-equal", f"{name}: loaded object differs from the saved one")
            ctx.check(hash(again) == hash(obj), "not-equal", f"{name}: hash of the loaded object")
            buffer2 = io.StringIO()
            again.save_to_stream(buffer2)
            ctx.check(document(buffer2.getvalue()) == document(buffer.getvalue()), "unstable-document",
                      lambda: f"{name}: {document(buffer.getvalue())} then {document(buffer2.getvalue())}")
        for other in allowed:
            if other != name:
                verify(other, "from_json", "other-file-changed")
        ctx.state(json.dumps([len(allowed[name]), size, op["how"], len(sim.log)]))
    return {"allowed": allowed, "crashed": False}


def document(text):
    """ Saved document with its references replaced by what they stand for (identifiers are arbitrary). """
    doc = json.loads(text)
    refs = doc.pop("_references", {})

    def expand(value, depth=0):
        if isinstance(value, dict):
            if "$ref" in value:
                key = value["$ref"].rsplit("/", 1)[-1]
                return expand(refs[key], depth + 1) if depth < 40 else "deep"
            return {k: expand(v, depth + 1) for k, v in value.items()}
        if isinstance(value, list):
            return [expand(v, depth + 1) for v in value]
        return value
    return expand(doc)


def failing(ctx):
    def to_dict(*args, **kwargs):
        ctx.fault("user-code:to_dict")
        raise RuntimeError("simulated failure of a user-defined to_dict")
    return to_dict


class Spoiler:
    """ Puts something that cannot be serialized somewhere in an object, and takes it back. """

    def __init__(self, obj, pick):
        self.obj = obj
        target = "items" if hasattr(obj, "items") else "content" if hasattr(obj, "content") else "value"
        self.target, self.saved = target, getattr(obj, target)
        bad = [Unsaveable(), {1, 2}, 1 + 2j, object(), lambda: 0, {(1, 2): 3}, {b"x": 1}][pick % 7]
        setattr(obj, target, list(self.saved or []) + [bad] if pick % 2 else [bad])

    def undo(self):
        setattr(self.obj, self.target, self.saved)


def edit(obj, pick, serial):
    """ User modification of a loaded object. """
    from simkit import models
    if hasattr(obj, "label"):
        obj.label = f"edited {pick}"
        obj.items = list(obj.items or []) + [models.Part(10 ** 6 + serial, 3, name="added")]
    elif hasattr(obj, "content"):
        obj.content = [obj.content, pick]
    elif hasattr(obj, "value"):
        obj.value = [obj.value, {"edited": pick}]
    else:
        obj.name = f"edited {pick}"


def run(plan, ctx):
    root = ctx.tmp("disk")
    os.makedirs(root, exist_ok=True)
    allowed = {}
    for number in range(len(plan["lives"]) + 1):
        seam = plan["lives"][min(number, len(plan["lives"]) - 1)]["seam"] if plan["lives"] else plan["seam"]
        outcome = ctx.restart("simkit.props.c07", "life",
                              {"plan": plan, "number": number, "root": root, "allowed": allowed}, seam)
        allowed = outcome["allowed"]
        ctx.fault("process-crash" if outcome["crashed"] else "process-restart")
