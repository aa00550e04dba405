"""
C09: reading a file returns its full content or fails.

Files of known content are put on a simulated disk; the readers of the library are called while the disk delivers short
reads, fails at chosen operations or bytes, or holds a truncated or damaged file (what a crashed writer leaves).
"""
import json
import os
import random

from simkit import disk, objgen, seams, wfgen

TEXT = ["StringFile", "TextFile", "CSVFile", "MarkdownFile", "JsonFile"]
BINARY = ["BinaryFile", "XLSXFile", "XLSFile", "XLSMFile", "DocxFile", "DocFile"]
HOWS = {"text": ["file", "file", "stream"], "binary": ["file"],
        "json": ["from_json", "from_json", "load_from_file", "from_json_stream", "load_from_stream", "file_then_stream"],
        "workflow": ["from_json", "from_json_stream"],
        "xlsx": ["from_xlsx", "from_xlsx", "from_xlsx_stream", "reader"], "catalog": ["read_catalog"]}
LETTERS = ["a", "b", " ", "\n", "é", "€", "😀", "0", ",", "\"", "\x00", "\u2028", "\x0b", "\x85", "\x1a", "\ufeff", "日"]


def gen(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["text", "text", "binary", "json", "json", "workflow", "xlsx", "xlsx", "catalog"])
        file = {"kind": kind, "seed": rng.randrange(10 ** 6)}
        if kind in ("text", "binary"):
            file["size"] = rng.choice([0, 1, 2, 5, 100, 4095, 8191, 8192, 8193, 16384, 20000, 65535, 65537, 131073]
                                      + ([300001, 1200000] if tier == "thorough" or rng.random() < 0.2 else []))
            if rng.random() < 0.08:
                file["size"] = rng.choice([70000, (1 << 20) + 1, 1200000])
            file["class"] = rng.choice(TEXT if kind == "text" else BINARY)
        elif kind == "json":
            file["spec"] = objgen.gen_spec(rng, size=rng.choice([1, 2, 4, 9, 30]))
        elif kind == "workflow":
            file["spec"] = wfgen.gen_spec(rng, size=rng.choice([1, 2, 4]))
        else:
            file["rows"] = rng.choice([0, 1, 2, 3, 10, 60]) if kind == "xlsx" else rng.choice([1, 2, 3, 10])
            file["shape"] = rng.choice(["part", "crate", "items", "main", "table", "several", "several",
                                        "nested", "nested", "nested", "shared"])
        files.append(file)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4] if tier == "quick" else [2, 4, 6])):
        i = rng.randrange(len(files))
        damage = rng.choice([None, None, None, ["cut", rng.choice([0, 0.01, 0.3, 0.5, 0.9, 0.99, 0.9999, rng.random()])],
                             ["bad", rng.random(), rng.choice([0xff, 0xc0, 0x80, 0xe2])], ["missing"],
                             ["more", rng.choice(["x", "{}", "]", "\n{\"name\": 1}"])]])
        ops.append({"file": i, "how": rng.choice(HOWS[files[i]["kind"]]), "buffering": rng.choice([-1, -1, 0]) if files[i]["kind"] in ("text", "json", "workflow") else -1,
                    "chunk": rng.choice([None, None, 1 if files[i].get("size", 9999) < 10000 else 700, 3, 1000, 8191]),
                    "faults": disk.gen_faults(rng, ways=("read",)), "damage": damage})
        if ops[-1]["chunk"] == 3 and files[i].get("size", 0) > 20000:
            ops[-1]["chunk"] = 333
    return {"files": files, "ops": ops, "seam": seams.gen_seam(rng), "shrink": ["ops"]}


def describe(plan):
    return {"files": [[f["kind"], f.get("size", f.get("rows"))] for f in plan["files"]],
            "ops": [[o["file"], o["how"], o["chunk"], [[*f["at"], f["kind"]] for f in o["faults"]], o["damage"]]
                    for o in plan["ops"]]}


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for key, value in (("chunk", None), ("damage", None), ("faults", []), ("buffering", -1)):
            if op[key] != value:
                candidate = json.loads(json.dumps(plan))
                candidate["ops"][i][key] = value
                yield candidate


# --------------------------------------------------------------------------------------------------- content of files
def text_of(file):
    rng = random.Random(file["seed"])
    letters = rng.choice([LETTERS, LETTERS, ["a", "\n"], ["日", "😀"]])
    unit = "".join(rng.choice(letters) for _ in range(min(file["size"], 997)))
    return (unit * (file["size"] // max(len(unit), 1) + 1))[:file["size"]]


def bytes_of(file):
    rng = random.Random(file["seed"])
    unit = bytes(rng.randrange(256) for _ in range(min(file["size"], 1009)))
    return (unit * (file["size"] // max(len(unit), 1) + 1))[:file["size"]]


def parts_of(file):
    from simkit import models
    rng = random.Random(file["seed"])
    return [models.Part(1000 * i + rng.choice([0, rng.randrange(900)]), rng.choice([1, 2, -5]), name=rng.choice(["x", "Épaisseur", "some name", "", " padded "]))
            for i in range(file["rows"])]


def write_sheets(path, sheets):
    """ Spreadsheets are written with openpyxl itself, not with the writer of the library. """
    import openpyxl
    book = openpyxl.Workbook()
    book.remove(book.active)
    for title, rows in sheets:
        sheet = book.create_sheet(title)
        for i, row in enumerate(rows):
            for j, value in enumerate(row):
                cell = sheet.cell(i + 1, j + 1)
                if isinstance(value, tuple):
                    cell.value, cell.hyperlink = value
                    cell.hyperlink.location = value[1]
                else:
                    cell.value = value
    book.save(path)


def tree_of(file):
    """ Objects that hold objects that hold objects, some of them found at two places. """
    from simkit import models
    rng = random.Random(file["seed"])
    count, singles = [0], []

    def name():
        count[0] += 1
        return f"{rng.choice(['part', 'Crate', 'List', 'Dict of', 'Épaisseur'])} {count[0]}"

    def part():
        return models.Part(1000 * count[0] + rng.randrange(900), rng.choice([1, 2, -5]), name=name())

    def crate():
        return models.Crate(rng.choice([12.5, "content", None, 3]),
                            [part() for _ in range(rng.randrange(4))] if rng.random() < 0.8 else None, name=name())

    def node(depth):
        below = [part, crate, lambda: node(depth - 1)] if depth else [part, crate]
        kind = rng.choice(below)
        items = [kind() for _ in range(rng.choice([0, 1, 2, 3]))]
        kind = rng.choice(below)
        table = {f"{rng.choice(['key', '0', '1', 'k 2'])}{i}": kind() for i in range(rng.choice([1, 2]))} \
            if rng.random() < 0.6 else None
        main = rng.choice([None, rng.choice(below)])
        if rng.random() < 0.4 and singles:
            main = rng.choice(singles)  # Already in the tree
        elif main is not None:
            main = main()
            singles.append(main)
        return models.Root(items, table, None, rng.choice(["some label", "List of 2 items", "#Part!A2"]), main, name=name())
    return node(rng.choice([0, 1, 2, 2]))


def sheets_of(top, rng):
    """ Sheets of the layout of the library: one row per object, that tells its path; cells that link to rows. """
    rows, seen = {}, {}

    def attributes(obj):
        return sorted(k for k in vars(obj) if k != "name" and not k.startswith("_"))

    def walk(obj, path):
        if id(obj) in seen:
            return
        if obj is not top:
            sheet = rows.setdefault(type(obj).__name__, [])
            sheet.append(obj)
            seen[id(obj)] = (path, type(obj).__name__, len(sheet) + 3)
        for key in attributes(obj):
            value, below = getattr(obj, key), f"{path}.{key}" if path else key
            elements = value.items() if isinstance(value, dict) else enumerate(value) if isinstance(value, list) else ()
            for k, element in elements:
                walk(element, f"{below}.{k}")
            if hasattr(value, "to_dict"):
                walk(value, below)

    def cell(value):
        if isinstance(value, (dict, list)):
            values = list(value.values()) if isinstance(value, dict) else value
            if not values:
                return "[]" if isinstance(value, list) else "Dict of 0 items"
            return f"{'Dict' if isinstance(value, dict) else 'List'} of {len(values)} items", \
                f"#{type(values[0]).__name__}!A2"
        if id(value) in seen:
            path, title, row = seen[id(value)]
            return path, f"#{title}!A{row}"
        return value if isinstance(value, float) else str(value)

    def line(obj):
        path = seen[id(obj)][0] if obj is not top else None
        return [path, obj.name] + [cell(getattr(obj, key)) for key in attributes(obj)]
    walk(top, "")
    head = ["Module", "Class"]
    sheets = [[title, [head, [type(objs[0]).__module__, title], ["Path", "name"] + attributes(objs[0])]
               + [line(o) for o in objs]] for title, objs in rows.items()]
    rng.shuffle(sheets)
    return [[f"Object {type(top).__name__}", [head + ["name"], [type(top).__module__, type(top).__name__, top.name],
                                              ["Path", "name"] + attributes(top), line(top)]]] + sheets


def prepare(file, path):
    """ Put a file on the disk; returns its meaning (comparable). """
    from simkit import models
    kind = file["kind"]
    if kind in ("text", "binary"):
        data = text_of(file).encode("utf-8") if kind == "text" else bytes_of(file)
        with disk.REAL["open"](path, "wb") as stream:
            stream.write(data)
        return text_of(file) if kind == "text" else data
    if kind == "json":
        obj = objgen.build(file["spec"])[-1]
        document = obj.to_dict(use_pointers=True)
        with disk.REAL["open"](path, "w", encoding="utf-8") as stream:
            json.dump(document, stream, ensure_ascii=file["seed"] % 2 == 0)
        return objgen.canon(obj, sharing="standalone")
    if kind == "workflow":
        obj = wfgen.build(file["spec"])
        document = obj.to_dict(use_pointers=True)
        with disk.REAL["open"](path, "w", encoding="utf-8") as stream:
            json.dump(document, stream)
        return shape_of(obj)
    parts = parts_of(file)
    line = lambda path, p: [path, p.name, str(p.a), str(p.b)]  # noqa
    rows = [line(f"parts.{i}", p) for i, p in enumerate(parts)]
    head = [["Module", "Class"], ["simkit.models", "Part"], ["Path", "name", "a", "b"]]
    if kind == "catalog":
        sheets = [["Parts", [["simkit.models", "Part"], ["name", "a", "b"]] + [[p.name, p.a, p.b] for p in parts]],
                  ["Others", [["simkit.models", "Part"], ["a", "name"]] + [[-p.a, "other"] for p in parts]]]
        empty = {}
        if file["seed"] % 3 == 0:
            sheets.insert(file["seed"] % 2 + 1, ["Empty", [["simkit.models", "Part"], ["a", "name"]]])
            empty = {"Empty": []}
        write_sheets(path, sheets)
        return {**empty, "Parts": [["Part", p.name, p.a, p.b] for p in parts], "Others": [["Part", "other", -p.a, 1] for p in parts]}
    shape = file["shape"]
    if shape == "nested" or shape == "shared" and parts:
        expected = tree_of(file) if shape == "nested" else \
            models.Root(parts, None, None, "some label", models.Crate(1.5, list(parts), name="the same parts"), name="root")
        write_sheets(path, sheets_of(expected, random.Random(file["seed"])))
        return objgen.canon(expected)
    top = [["Module", "Class", "name"]]
    if shape == "part" or not parts:
        top += [["simkit.models", "Part", "top"], ["Path", "name", "a", "b"], [None, "top", "7", "8"]]
        write_sheets(path, [["Object Part", top]])
        return objgen.canon(models.Part(7, 8, name="top"))
    if shape == "crate":
        top += [["simkit.models", "Crate", "crate"], ["Path", "name", "content", "parts"],
                [None, "crate", "12.5", (f"List of {len(parts)} items", "#Part!A2")]]
        expected = models.Crate(12.5, parts, name="crate")
    elif shape == "items":
        top += [["simkit.models", "Root", "root"], ["Path", "name", "items", "label", "main", "pair", "table"],
                [None, "root", (f"List of {len(parts)} items", "#Part!A2"), "some label", "None", "None", "None"]]
        expected = models.Root(parts, None, None, "some label", None, name="root")
        rows = [line(f"items.{i}", p) for i, p in enumerate(parts)]
    elif shape == "table":
        top += [["simkit.models", "Root", "root"], ["Path", "name", "items", "label", "main", "pair", "table"],
                [None, "root", "None", "some label", "None", "None", (f"Dict of {len(parts)} items", "#Part!A2")]]
        expected = models.Root(None, {f"key {i}": p for i, p in enumerate(parts)}, None, "some label", None, name="root")
        rows = [line(f"table.key {i}", p) for i, p in enumerate(parts)]
    elif shape == "several":  # Attributes that share the sheet of a class
        place = file["seed"] % (len(parts) + 1)
        main = models.Part(-77, 3, name="main part")
        others = parts[:len(parts) // 2], parts[len(parts) // 2:]
        rows = [line(f"items.{i}", p) for i, p in enumerate(others[0])] + \
            [line(f"table.k{i}", p) for i, p in enumerate(others[1])]
        rows.insert(place, line("main", main))
        items = (f"List of {len(others[0])} items", "#Part!A2") if others[0] else "[]"
        top += [["simkit.models", "Root", "root"], ["Path", "name", "items", "label", "main", "pair", "table"],
                [None, "root", items, "some label", ("main", f"#Part!A{4 + place}"), "None",
                 (f"Dict of {len(others[1])} items", "#Part!A2")]]
        expected = models.Root(others[0], {f"k{i}": p for i, p in enumerate(others[1])}, None, "some label", main,
                               name="root")
    else:
        top += [["simkit.models", "Root", "root"], ["Path", "name", "items", "label", "main", "pair", "table"],
                [None, "root", "None", "some label", ("parts.0", "#Part!A4"), "None", "None"]]
        rows, expected = rows[:1], models.Root(None, None, None, "some label", parts[0], name="root")
    write_sheets(path, [[f"Object {type(expected).__name__}", top], ["Part", head + rows]])
    return objgen.canon(expected)


def shape_of(workflow):
    """ Blocks, wiring and output of a workflow. """
    blocks = workflow.blocks
    variables = {}
    for i, block in enumerate(blocks):
        for way, ports in (("in", block.inputs), ("out", block.outputs)):
            for j, port in enumerate(ports):
                variables[id(port)] = [way, i, j, port.name]
    for i, variable in enumerate(workflow.nonblock_variables):
        variables[id(variable)] = ["nbv", i, variable.name]
    return [workflow.name, [[type(b).__name__, b.name, len(b.inputs), len(b.outputs)] for b in blocks],
            sorted([variables[id(p.input_variable)], variables[id(p.output_variable)]] for p in workflow.pipes),
            variables[id(workflow.output)] if workflow.output is not None else None]


def read(file, op, path):
    """ Call a reader of the library; returns the comparable meaning of what it returned. """
    from dessia_common import files
    from dessia_common.core import DessiaObject
    from dessia_common.excel_reader import ExcelReader
    how, kind = op["how"], file["kind"]
    if kind in ("text", "binary"):
        cls = getattr(files, file["class"])
        if how == "file":
            back = cls.from_file(path)
            if type(back) is not cls or back.filename != path:
                return ["not the file", type(back).__name__, back.filename]
        else:
            with open(path, "rb", op["buffering"]) as stream:
                back = cls.from_stream(stream)
        # Consumers read the returned file from where it stands
        content = back.read()
        return content if content == back.getvalue() else ["only read", len(content), len(back.getvalue())]
    if how in ("from_json_stream", "load_from_stream"):
        with open(path, "rb", op["buffering"]) as stream:
            obj = getattr(DessiaObject, how)(stream)
    elif how == "file_then_stream":
        obj = DessiaObject.from_json_stream(files.BinaryFile.from_file(path))
    elif how in ("from_json", "load_from_file"):
        obj = getattr(DessiaObject, how)(path)
    elif how == "from_xlsx":
        obj = DessiaObject.from_xlsx(path)
    elif how == "from_xlsx_stream":
        with open(path, "rb", op["buffering"]) as stream:
            obj = DessiaObject.from_xlsx_stream(stream)
    elif how == "reader":
        with open(path, "rb") as stream:
            obj = ExcelReader(stream).read_workbook()
    else:
        with open(path, "rb", op["buffering"]) as stream:
            catalog = ExcelReader(stream).read_catalog()
        return {k: [[type(p).__name__, p.name, p.a, p.b] for p in v] for k, v in catalog.items()}
    if kind == "workflow":
        return shape_of(obj)
    return objgen.canon(obj, sharing="standalone") if kind == "json" else objgen.canon(obj)


def meaning_of_damaged(file, data, damage):
    """ Whether damaged bytes still are a valid file: returns [meaning] then, else None. """
    if file["kind"] == "binary":
        return [data]
    if file["kind"] == "text":
        try:
            return [data.decode("utf-8")]
        except UnicodeDecodeError:
            return None
    return None


def run(plan, ctx):
    root = ctx.tmp("disk")
    os.makedirs(root)
    meanings, contents = [], []
    paths = [os.path.join(root, f"file{i}.{f['kind']}") for i, f in enumerate(plan["files"])]
    for file, path in zip(plan["files"], paths):
        meanings.append(prepare(file, path))
        with disk.REAL["open"](path, "rb") as stream:
            contents.append(stream.read())
    sim = disk.Disk(ctx, root).install()

    def attempt(op, when, expected, allowed):
        """ expected: [meaning] or None when the read must fail. """
        file, path = plan["files"][op["file"]], paths[op["file"]]
        try:
            got = read(file, op, path)
        except Exception as exc:  # noqa any refusal is a refusal
            ctx.check(allowed(exc), "read-failed", lambda: f"{op['how']} of {file['kind']} {when}: {exc!r}")
            ctx.count("reported-failures")
            return
        ctx.check(expected is not None, "bad-file-read",
                  lambda: f"{op['how']} of {file['kind']} {when} returned {str(got)[:200]}")
        ctx.check(got == expected[0], "wrong-content",
                  lambda: f"{op['how']} of {file['kind']} {when}: {compare(expected[0], got)}")

    def intact(when):
        for i, path in enumerate(paths):
            with disk.REAL["open"](path, "rb") as stream:
                ctx.check(stream.read() == contents[i], "file-changed", lambda: f"{plan['files'][i]['kind']} {when}")

    for op in plan["ops"]:
        i = op["file"]
        file, path, data = plan["files"][i], paths[i], contents[i]
        full = [meanings[i]]
        # Delivered in chunks
        sim.arm([], op["chunk"])
        attempt(op, f"in chunks of {op['chunk']}", full, lambda exc: False)
        # Failing disk
        sim.arm(disk.resolve(op["faults"], len(data)), op["chunk"])
        attempt(op, "from a failing disk", full, lambda exc: bool(sim.fired))
        fired, log = len(sim.fired), len(sim.log)
        sim.disarm()
        intact("after a failing read")
        # Damaged file, then repaired
        if op["damage"]:
            kind = op["damage"][0]
            ctx.fault(f"file-{kind}")
            if kind == "missing":
                os.rename(path, path + ".away")
                attempt(op, "missing", None, lambda exc: isinstance(exc, OSError))
                os.rename(path + ".away", path)
            else:
                bad = damaged(file, data, op["damage"])
                with disk.REAL["open"](path, "wb") as stream:
                    stream.write(bad)
                if bad != data and not (file["kind"] in ("json", "workflow") and bad == data.rstrip()):
                    still = meaning_of_damaged(file, bad, op["damage"])
                    sim.arm([], op["chunk"])
                    attempt(op, f"damaged ({op['damage']})", still, lambda exc: still is None)
                    sim.disarm()
                with disk.REAL["open"](path, "wb") as stream:
                    stream.write(data)
        attempt(op, "afterwards", full, lambda exc: False)
        intact("after reading")
        ctx.state(file["kind"], op["how"], op["chunk"], fired, min(log, 50), len(data), str(op["damage"])[:12])
        ctx.ev("read", file["kind"], op["how"])


def damaged(file, data, damage):
    if damage[0] == "cut" or file["kind"] in ("xlsx", "catalog"):
        where = damage[1] if damage[0] != "more" else 0.6
        return data[:min(int(where * len(data)), max(len(data) - 1, 0))]
    if damage[0] == "more":
        return data + damage[1].encode("utf-8")
    where = min(int(damage[1] * len(data)), max(len(data) - 1, 0))
    # A byte that is not valid utf-8 there
    return data[:where] + bytes([damage[2]]) + bytes([0x20]) + data[where:]


def compare(expected, got):
    if isinstance(expected, (str, bytes)) and isinstance(got, type(expected)):
        common = len(os.path.commonprefix([expected, got]))
        return f"{len(got)} characters instead of {len(expected)}, different from {common}"
    if isinstance(expected, list):
        return objgen.difference(expected, got)
    return f"{str(got)[:150]} instead of {str(expected)[:150]}"
