"""
C08: an export lands completely or reports its failure.

Objects, workflows and workflow runs are exported with every exporter of the library to files and streams of a
simulated disk; the content found on the disk is compared with an independent description of what must be there.
"""
import io
import json
import os
import re
import zipfile

import numpy

from simkit import disk, faults, objgen, seams, wfgen

OBJECT_EXPORTS = ["to_json", "json_stream", "to_xlsx", "xlsx_stream", "xlsx_writer", "to_docx", "docx_stream", "to_zip", "to_zip", "to_zip",
                  "zip_stream", "format:json", "format:xlsx", "format:docx", "format:zip", "format:txt", "format:bin"]
WORKFLOW_EXPORTS = ["to_json", "format:json", "script", "script_stream", "format:py", "to_xlsx", "to_zip", "format:docx"]
RUN_EXPORTS = ["to_json", "block", "block", "block", "block_stream", "block_format", "to_zip", "format:zip", "script", "format:docx", "zip_stream",
               "format:py"]
OTHER_EXPORTS = ["template", "template", "markdown_file", "docx_file"]
DOCUMENTATION = """# Title of it

Some *documentation* of it
first --- second
first --- second

| Key | Value |
| --- | :---: |
| a --- b | c |
|  | empty |

Some *documentation* of it

## Other title
- last line"""
FILES = ["XLSXFile", "TextFile", "CSVFile", "MarkdownFile", "JsonFile", "StringFile", "BinaryFile"]


def gen(rng, tier):
    subject = rng.choice(["object", "object", "run", "run", "workflow", "other"])
    plan = {"subject": subject, "seam": seams.gen_seam(rng), "shrink": ["ops"]}
    if subject == "object":
        plan["spec"] = objgen.gen_spec(rng, size=rng.choice([1, 2, 3, 5]), classes=["Part", "Part", "Root", "Crate", "Node", "Keyed", "Keyed", "Bounded"])
        keyed = [i for i, n in enumerate(plan["spec"]["nodes"]) if n["c"] == "Keyed"]
        for i, node in enumerate(plan["spec"]["nodes"]):
            if node["c"] == "Root" and keyed and keyed[0] < i and rng.random() < 0.7:
                node["main"] = {"$": keyed[0]}
            if node["c"] == "Root" and rng.random() < 0.5:
                node["label"] = rng.choice(["a --- b", "---", "1 - 2", "x -- y", "-", "# title", "a*b_c"])
        if rng.random() < 0.4:
            plan["spec"]["nodes"] = [{"c": "Part", "name": "only", "a": rng.randrange(100), "b": 2}]
        pool = OBJECT_EXPORTS
        plan["private"] = rng.random() < 0.4
        if rng.random() < 0.15:  # Many rows, and objects that are found in tuples only
            plan["spec"] = {"nodes": [{"c": "Part", "name": f"n{i}", "a": 1000 * i, "b": 2}
                                      for i in range(rng.choice([2, 12, 16, 30]))]}
            if rng.random() < 0.5:  # Each one held by its own object
                plan["spec"]["nodes"] += [{"c": "Root", "name": f"holder {i}", "items": [], "label": "", "pair": None,
                                           "table": {}, "main": {"$": i}} for i in range(len(plan["spec"]["nodes"]))]
            count = len(plan["spec"]["nodes"])
            plan["spec"]["nodes"].append({"c": "Root", "name": "many", "label": "", "pair": None,
                                          "table": {f"k{i}": {"$": i} for i in range(count // 2)},
                                          "items": [{"$": i} for i in rng.sample(range(count), rng.choice([1, count]))],
                                          "main": {"$": rng.randrange(count)}})
            plan["tuple"] = [rng.randrange(count) for _ in range(rng.choice([1, 2, 3]))]
            pool = [how for how in OBJECT_EXPORTS if "xlsx" in how]  # Saved files do not tell tuples of objects
    elif subject in ("run", "workflow"):
        kinds = [k for k in wfgen.KINDS if k not in ("bump", "setattr") and wfgen.KINDS[k]["weight"]]
        spec = wfgen.gen_spec(rng, size=rng.choice([2, 3, 4, 5]), kinds=kinds)
        seen = set()
        for i, node in enumerate(spec["nodes"]):  # distinct names for the files of one archive
            if "filename" in node["p"]:
                node["p"]["filename"] = f"file{i}"
        plan.update(spec=spec, inputs=wfgen.gen_inputs(rng, spec))
        pool = RUN_EXPORTS if subject == "run" else WORKFLOW_EXPORTS
    else:
        pool = OTHER_EXPORTS
    ops = []
    for _ in range(rng.choice([1, 2, 3] if tier == "quick" else [2, 4, 6])):
        ops.append({"how": rng.choice(pool), "pick": rng.randrange(1000), "chunk": rng.choice([None, None, 3, 100, 4096]),
                    "faults": disk.gen_faults(rng), "user": rng.choice([None, None, None, rng.choice(faults.EXCEPTIONS[:12]), rng.choice(faults.SYSTEM_EXCEPTIONS)]),
                    "user_at": rng.choice([1, 1, 1, 2, 3]),
                    "stale": rng.random() < 0.4, "suffix": rng.random() < 0.5,
                    "tail": rng.choice(["", "", " ", ".x-"])})
        if ops[-1]["user"] and rng.random() < 0.8:
            ops[-1]["faults"] = []  # The only failure is that of the user code
    plan["ops"] = ops
    return plan


def describe(plan):
    return {"subject": plan["subject"], "ops": [[o["how"], [[*f["at"], f["kind"]] for f in o["faults"]], o["user"]]
                                                for o in plan["ops"]]}


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for key, value in (("chunk", None), ("user", None), ("stale", False), ("faults", [])):
            if op[key] != value:
                candidate = json.loads(json.dumps(plan))
                candidate["ops"][i][key] = value
                yield candidate


# ------------------------------------------------------------------------------------------------ reading back exports
IDENT = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


def renumber(text):
    """ Identifiers are arbitrary: number them by order of appearance. """
    seen = {}
    return IDENT.sub(lambda m: "id%d" % seen.setdefault(m.group(0), len(seen)), text)


def decode(data, extension):
    """ Content of an exported file; raises when it is not readable. """
    if extension == "json":
        return ["json", json.loads(renumber(data.decode("utf-8")))]
    if extension == "xlsx":
        import openpyxl
        book = openpyxl.load_workbook(io.BytesIO(data))
        return ["xlsx", [[sheet.title, [[[c.value, (c.hyperlink.location or c.hyperlink.target) if c.hyperlink else None] for c in row]
                                        for row in sheet.iter_rows()]] for sheet in book.worksheets]]
    if extension == "docx":
        import docx
        document = docx.Document(io.BytesIO(data))
        return ["docx", [p.text for p in document.paragraphs],
                [[[c.text for c in row.cells] for row in t.rows] for t in document.tables]]
    if extension == "zip":
        with zipfile.ZipFile(io.BytesIO(data)) as archive:
            bad = archive.testzip()
            if bad:
                raise ValueError(f"corrupted member {bad}")
            return ["zip", [[i.filename, decode(archive.read(i), i.filename.rsplit(".", 1)[-1])]
                            for i in archive.infolist()]]
    if extension in ("txt", "py", "md", "csv", ""):
        return ["text", renumber(data.decode("utf-8"))]
    return ["bytes", data.hex()]


class Subject:
    """ What is exported, and what the exports must contain. """

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.kind = plan["subject"]
        self.obj = None
        if self.kind == "object":
            self.objects = objgen.build(plan["spec"])
            self.obj = self.objects[-1]
            for i, obj in enumerate(self.objects if plan.get("private") else []):
                obj._scratch = [i]
            if plan.get("tuple"):
                self.obj.pair = tuple(self.objects[i] for i in plan["tuple"])
        elif self.kind in ("workflow", "run"):
            self.obj = wfgen.build(plan["spec"], documentation=DOCUMENTATION, name="The workflow")
            self.names = wfgen.Names(plan["spec"], self.obj)
            self.exports = [i for i, n in enumerate(plan["spec"]["nodes"])
                            if n["k"] in wfgen.EXPORT_KINDS or n["k"] == "archive"]
            if self.kind == "run":
                values = {self.names.index(k): wfgen.to_real(v) for k, v in plan["inputs"].items()}
                self.workflow, self.obj = self.obj, self.obj.run(values, name="The run")
                ref = {k: wfgen.to_ref(v) for k, v in plan["inputs"].items()}
                every = list(range(len(plan["spec"]["nodes"])))
                self.ref = wfgen.reference(plan["spec"], ref, nodes=every)

    def unchanged(self):
        if self.obj is None:
            return None
        if self.kind == "object":
            return objgen.canon(self.obj)
        if self.kind == "run":  # Exporting a branch evaluates the blocks it needs, nothing else
            return [wfgen.canon(self.obj.output_value), renumber(json.dumps(self.workflow.to_dict(), default=str)),
                    sorted([i, wfgen.canon(v)] for i, v in self.obj.input_values.items()), self.obj.name]
        return renumber(json.dumps(self.obj.to_dict(), default=str))

    # Export calls: (extension, function taking the path)
    def exporter(self, op):
        from dessia_common import files
        obj, how = self.obj, op["how"]
        stream_modes = {"json_stream": ("json", "w", lambda s: obj.save_to_stream(s)),
                        "xlsx_stream": ("xlsx", "wb", lambda s: obj.to_xlsx_stream(s)),
                        "docx_stream": ("docx", "wb", lambda s: obj.to_docx_stream(s)),
                        "zip_stream": ("zip", "wb", lambda s: obj.to_zip_stream(s)),
                        "script_stream": ("py", "w", lambda s: obj.save_script_to_stream(s))}
        if how in stream_modes:
            extension, mode, call = stream_modes[how]

            def export(path):
                with open(path, mode, encoding=None if "b" in mode else "utf-8") as stream:
                    call(stream)
                return path
            return extension, export
        if how.startswith("format:"):
            selector = how.split(":")[1]
            if selector in ("txt", "bin") and type(obj).__name__ != "Part":
                return None
            return selector, lambda path: obj.save_export_to_file(selector, path)
        if how == "to_json":
            return "json", lambda path: obj.save_to_file(path)
        if how == "to_xlsx":
            return "xlsx", lambda path: obj.to_xlsx(path)
        if how == "xlsx_writer":
            from dessia_common.exports import XLSXWriter
            return "xlsx", lambda path: XLSXWriter(obj).save_to_file(path)
        if how == "to_docx":
            return "docx", lambda path: obj.to_docx(path)
        if how == "to_zip":
            return "zip", lambda path: obj.to_zip(path)
        if how == "script":
            return "py", lambda path: obj.save_script_to_file(path)
        if how in ("block", "block_stream", "block_format"):
            if not self.exports:
                return None
            node = self.exports[op["pick"] % len(self.exports)]
            block = self.names.block(node)
            index = self.workflow.blocks.index(block)
            if how == "block":
                return block.extension, lambda path: obj.save_export_to_file(self.workflow.block_selector(block), path)

            def export(path):
                text = getattr(block, "text", False)
                if how == "block_format":  # what a platform does with the selector of an export
                    format_ = obj.export_format_from_selector(self.workflow.block_selector(block))
                    text = format_.text
                    target = files.StringFile() if text else files.BinaryFile()
                    getattr(obj, format_.method_name)(target, **format_.args)
                else:
                    target = files.StringFile() if text else files.BinaryFile()
                    obj.export(target, index)
                with open(path, "w" if text else "wb", encoding="utf-8" if text else None) as stream:
                    stream.write(target.getvalue())
                return path
            return block.extension, export
        if how == "template":
            cls = getattr(files, FILES[op["pick"] % len(FILES)])
            return cls.extension, lambda path: cls.save_template_to_file(path)
        if how == "markdown_file":
            from dessia_common.exports import MarkdownWriter
            return "md", lambda path: MarkdownWriter.write_to_file(path, self.text(op))
        if how == "docx_file":
            from dessia_common.document_generator import DocxWriter, Paragraph

            def export(path):
                writer = DocxWriter(paragraphs=[Paragraph(t) for t in self.paragraphs(op)], filename=path)
                writer.add_paragraphs()
                writer.save_file()
            return "docx", export
        raise ValueError(how)

    @staticmethod
    def text(op):
        return "# Title é\n" + "".join(f"line {i}\n" for i in range(op["pick"] * 3))

    @staticmethod
    def paragraphs(op):
        return [f"paragraph {i} é" for i in range(op["pick"] % 40)]

    def part_file(self, node):
        """ Content of the file of an export block, from the reference evaluation. """
        spec = self.plan["spec"]["nodes"][node]
        if spec["k"] == "archive":
            return self.archive_of([s[1] for s in spec["ins"][:-1]])
        part = self.ref["ins"][node][0]
        if spec["k"] == "exptxt":
            return ["text", f"part a={part.a} b={part.b} (±1 µm)\n"]
        if spec["k"] == "expbin":
            return ["bytes", f"part:{part.a}:{part.b}".encode().hex()]
        return ["json", {"object_class": "simkit.models.Part", "name": part.name, "a": part.a, "b": part.b,
                         "_references": {}}]

    def file_name(self, node):
        extension = {"exptxt": "txt", "expbin": "bin", "expjson": "json", "archive": "zip"}[self.plan["spec"]["nodes"][node]["k"]]
        return f"{self.ref['ins'][node][-1]}.{extension}"

    def archive_of(self, nodes):
        return ["zip", [[self.file_name(n), self.part_file(n)] for n in nodes]]

    def complete(self, op, content):
        """ Independent description of what the export must contain. Returns an explanation when it does not. """
        from dessia_common import files
        how = op["how"]
        if how in ("block", "block_stream", "block_format"):
            node = self.exports[op["pick"] % len(self.exports)]
            expected = self.part_file(node)
            return None if content == expected else f"{content} instead of {expected}"
        if how in ("to_zip", "format:zip", "zip_stream"):
            if self.kind == "run":
                nodes = [n for n in self.plan["spec"]["order"] if n in self.exports
                         and self.plan["spec"]["nodes"][n]["k"] != "archive"]
                expected = self.archive_of(nodes)
                return None if content == expected else f"{content} instead of {expected}"
            members = {name: inner for name, inner in content[1]}
            wanted = {"export.json", "export.xlsx", "export.docx"} | ({"export.py"} if self.kind == "workflow" else set()) \
                | ({"export.txt", "export.bin"} if type(self.obj).__name__ == "Part" else set())
            if set(members) != wanted:
                return f"members {sorted(members)} instead of {sorted(wanted)}"
            for name, inner in members.items():
                problem = self.complete({"how": f"format:{name.split('.')[1]}", "pick": 0}, inner)
                if problem:
                    return f"{name}: {problem}"
            return None
        if how in ("to_json", "json_stream", "format:json"):
            if self.kind == "object":
                from dessia_common.core import DessiaObject
                back = DessiaObject.dict_to_object(content[1])
                mine, other = (objgen.canon(o, sharing="standalone") for o in (self.obj, back))
                return None if mine == other else objgen.difference(mine, other)
            fresh = json.loads(renumber(json.dumps(self.obj.to_dict())))
            return None if content[1] == fresh else "not the serialized object"
        if how in ("to_xlsx", "xlsx_stream", "xlsx_writer", "format:xlsx"):
            return self.spreadsheet(content)
        if how in ("to_docx", "docx_stream", "format:docx"):
            return self.word(content)
        if how in ("script", "script_stream", "format:py"):
            script = self.obj.to_script()
            if not isinstance(script, str):
                script = script.imports_to_str() + "\n" + script.declaration + "\n"
            return None if content[1] == renumber(script) else "not the script"
        if how in ("format:txt", "format:bin"):
            part = self.obj
            expected = ["text", f"part a={part.a} b={part.b} (±1 µm)\n"] if how == "format:txt" else \
                ["bytes", f"part:{part.a}:{part.b}".encode().hex()]
            return None if content == expected else f"{content} instead of {expected}"
        if how == "template":
            cls = getattr(files, FILES[op["pick"] % len(FILES)])
            template = cls.stream_template().getvalue()
            expected = decode(template.encode("utf-8") if isinstance(template, str) else template,
                              "txt" if cls is files.JsonFile else cls.extension)
            return None if content == expected else f"{content} instead of {expected}"
        if how == "markdown_file":
            return None if content[1] == self.text(op) else "not the text"
        if how == "docx_file":
            return None if content[1] == self.paragraphs(op) else f"paragraphs {content[1]}"
        raise ValueError(how)

    def spreadsheet(self, content):
        sheets = {title: rows for title, rows in content[1]}
        main = sheets.get(f"Object {type(self.obj).__name__}")
        if main is None:
            return f"no main sheet in {sorted(sheets)}"
        if [c[0] for c in main[1][:3]] != [type(self.obj).__module__, type(self.obj).__name__, self.obj.name or None]:
            return f"main sheet describes {main[1][:3]}"
        if self.kind != "object":
            return None
        problem = self.sheet_rows("main sheet", main, [[None, self.obj]], sheets)
        by_class = {}
        for obj in reachable(self.obj):
            if obj is not self.obj:
                by_class.setdefault(type(obj).__name__, []).append(obj)
        for name, objects in by_class.items():
            if name not in sheets:
                return f"no sheet for {name} among {sorted(sheets)}"
            if [c[0] for c in sheets[name][1][:2]] != [type(objects[0]).__module__, name]:
                return f"sheet of {name} describes {sheets[name][1][:2]}"
            paths = [row[0][0] for row in sheets[name][3:]]
            found = [resolve(self.obj, path) for path in paths]
            if sorted(map(id, found)) != sorted(map(id, objects)):
                return f"rows of {name} are those of {paths}, {len(objects)} expected"
            problem = problem or self.sheet_rows(name, sheets[name], list(zip(paths, found)), sheets)
        return problem

    def sheet_rows(self, title, sheet, objects, sheets):
        """ Every attribute of the objects of a sheet: value, or path and link to the row of the value. """
        from dessia_common.core import DessiaObject
        fields = sorted(k for k in vars(objects[0][1]) if not k.startswith("_") and k != "name")
        head = [c[0] for c in sheet[2][:len(fields) + 2]]
        if head != ["Path", "name"] + fields:
            return f"{title}: header {head}"
        for row, (path, obj) in zip(sheet[3:], objects):
            if row[0][0] != path or (row[1][0] or "") != obj.name:
                return f"{title}: {row[:2]} instead of {path, obj.name}"
            for field, (text, link) in zip(fields, row[2:]):
                value = getattr(obj, field)
                if isinstance(value, DessiaObject):
                    if text is None or resolve(self.obj, text) is not value:
                        return f"{title}: {field} of {path} is {text}"
                    match = re.fullmatch(r"#(\w+)!A(\d+)", link or "")
                    target = sheets.get(match.group(1), []) if match else []
                    line = int(match.group(2)) if match else 0
                    if not 4 <= line <= len(target) or target[line - 1][0][0] != text:
                        return f"{title}: {field} of {path} is linked to {link}"
                    continue
                if isinstance(value, type):
                    continue
                plain = is_plain(value)
                if isinstance(value, float):
                    good = isinstance(text, (int, float)) and abs(text - value) <= 1e-6 * max(1.0, abs(value))
                else:
                    wanted = f"Dict of {len(value)} items" if isinstance(value, dict) else \
                        f"List of {len(value)} items" if isinstance(value, list) and not plain else str(value)
                    good = (text or "") == wanted
                if not good:
                    return f"{title}: {field} of {path} is {text!r} for {str(value)[:100]}"
                first = value[0] if isinstance(value, list) and value else None
                if isinstance(first, DessiaObject) and link != f"#{type(first).__name__}!A2":
                    return f"{title}: {field} of {path} is linked to {link}"
        return None

    def word(self, content):
        paragraphs = [p.strip() for p in content[1] if p.strip()]
        tables = [[[c.strip() for c in row] for row in t] for t in content[2]]
        if self.kind == "workflow":
            titles = ["Title of it", "Other title"]
            wanted = titles + ["Title of it", "Some *documentation* of it", "first --- second", "first --- second",
                               "Some *documentation* of it", "Other title", "- last line"]
            if paragraphs != wanted or tables != [[["Key", "Value"]], [["a --- b", "c"]], [["", "empty"]]]:
                return f"document of {paragraphs} and {tables}"
            return None
        if self.kind == "object":
            rows = [row for t in tables for row in t]
            # Values of several lines are found in the text, out of the tables
            fields = [k for k, v in vars(self.obj).items() if not (isinstance(v, str) and len(v.splitlines()) > 1)]
            if [row[0] for row in rows if row] != ["Attribute"] + fields:
                return f"rows of the document: {rows}"
            for field, row in zip(fields, rows[1:]):
                value = getattr(self.obj, field)
                wanted = shown(value)
                if wanted is not None and row[1:] != [type(value).__name__, wanted]:
                    return f"{field} described by {row}, {wanted!r} expected"
            if not any(type(self.obj).__name__ in p for p in paragraphs):
                return f"no class in {paragraphs}"
            return None
        text = "\n".join(paragraphs) + "\n".join(c for t in tables for r in t for c in r)
        return None if "The workflow" in text else f"no workflow in the document {text[:300]!r}"


def is_plain(value):
    return isinstance(value, list) and all(isinstance(v, (int, float, str)) for v in value)


def resolve(root, path):
    """ Value at a path of the spreadsheet. """
    for part in path.split("."):
        if isinstance(root, dict):
            root = next((v for k, v in root.items() if str(k) == part), None)
        elif isinstance(root, (list, tuple)):
            root = root[int(part)]
        else:
            root = getattr(root, part)
    return root


def shown(value):
    """ Text of a value in the tables of text documents, None where it is not specified. """
    from dessia_common.core import DessiaObject
    if isinstance(value, bool) or isinstance(value, numpy.generic) or isinstance(value, (float, int)) \
            and type(value) not in (float, int):
        return None
    if isinstance(value, (int, float)):
        text = str(round(value, 6))
    elif isinstance(value, str):
        text = value if value else "no value"
    elif value is None:
        return "-"
    elif isinstance(value, (list, tuple, dict)):
        values = list(value.values()) if isinstance(value, dict) else list(value)
        names = {type(v).__name__ for v in values}
        if len(names) != 1:
            return None if values else "empty list" if isinstance(value, dict) else f"empty {type(value).__name__}"
        text = f"{len(values)} {names.pop()}{'s' if len(values) > 1 else ''}"
    elif isinstance(value, DessiaObject):
        text = value.name or "unnamed"
    else:
        return None
    return (text[:25] + ("..." if len(text) > 25 else "")).strip()


def reachable(obj, seen=None):
    """ Distinct objects below an object. """
    from dessia_common.core import DessiaObject
    seen = {} if seen is None else seen
    if isinstance(obj, DessiaObject):
        if id(obj) not in seen:
            seen[id(obj)] = obj
            for field in objgen.FIELDS[objgen.kind_of(obj)]:
                reachable(getattr(obj, field), seen)
    elif isinstance(obj, dict):
        for value in obj.values():
            reachable(value, seen)
    elif isinstance(obj, (list, tuple)):
        for value in obj:
            reachable(value, seen)
    return list(seen.values())


def content_of(path):
    with disk.REAL["open"](path, "rb") as file:
        return file.read()


def run(plan, ctx):
    root = ctx.tmp("disk")
    os.makedirs(root)
    user = faults.UserCode(ctx).install()
    user.armed = False
    subject = Subject(plan, ctx)
    sim = disk.Disk(ctx, root).install()
    for number, op in enumerate(plan["ops"]):
        found = subject.exporter(op)
        if found is None:
            continue
        extension, export = found
        if op["how"] == "template" and extension == "json":
            extension = "txt"
        before = subject.unchanged()

        def target(label):
            # Half of the callers give the extension, the others let the library add it
            named = os.path.join(root, f"{label}{number}{op['tail'] and op['tail'] + final if op['how'] != 'template' else ''}.{final}")
            bare = named[:-len(final) - 1] if op["suffix"] and final and op["how"] not in STREAMS else named
            return bare, named

        final = found[0]
        bare, named = target("plain")
        try:
            final_name = export(bare)
        except Exception as exc:  # noqa
            if found[0] == "py":  # Scripts of runs with untyped inputs are refused: reported, hence allowed
                ctx.count("refused-scripts")
                continue
            raise
        ctx.check(os.path.exists(named), "nothing-exported", lambda: f"{op['how']}: {os.listdir(root)}")
        data = content_of(named)
        reference = readable(ctx, op, data, extension, "unfaulted")
        problem = subject.complete(op, reference)
        ctx.check(problem is None, "incomplete-export", lambda: f"{op['how']}: {problem}")
        ctx.check(subject.unchanged() == before, "export-changed-the-object", op["how"])
        if op["how"].startswith("format:") or op["how"] == "block":
            ctx.check(final_name == named, "wrong-location", lambda: f"{final_name} instead of {named}")
        # Same export, on a failing disk, possibly over an older and longer file
        bare, named = target("faulty")
        if op["stale"]:
            with disk.REAL["open"](named, "wb") as file:
                file.write(b"stale content " * (len(data) // 10 + 10))
        sim.arm(disk.resolve(op["faults"], len(data)), op["chunk"])
        user.armed, user.fired = True, []
        user.faults = {user.count + op["user_at"]: op["user"]} if op["user"] else {}
        try:
            export(bare)
        except Exception as exc:  # noqa
            ctx.check(any(faults.in_chain(exc, e) for e in sim.fired + user.fired), "export-failed",
                      lambda: f"{op['how']}: {exc!r} without any fault")
            ctx.ev("reported", op["how"])
            ctx.count("reported-failures")
        else:
            done = readable(ctx, op, content_of(named), extension, f"after {sim.fired + user.fired}")
            ctx.check(done == reference, "incomplete-export",
                      lambda: f"{op['how']} ended normally after {sim.fired + user.fired} with another content")
            ctx.ev("landed", op["how"])
        finally:
            log, fired = list(sim.log), len(sim.fired)
            sim.disarm()
            user.armed = False
        ctx.check(subject.unchanged() == before, "export-changed-the-object", f"{op['how']} on a failing disk")
        # The disk works again: the same call succeeds with the same content
        export(bare)
        again = readable(ctx, op, content_of(named), extension, "once the disk works again")
        ctx.check(again == reference, "retry-differs", lambda: f"{op['how']} once the disk works again")
        ctx.state(op["how"], plan["subject"], len(log), fired, len(data) // 500, op["user"], op["stale"])


STREAMS = ("json_stream", "xlsx_stream", "docx_stream", "zip_stream", "script_stream", "block_stream", "block_format", "markdown_file")


def readable(ctx, op, data, extension, when):
    try:
        return decode(data, extension)
    except Exception as exc:  # noqa
        ctx.fail("unreadable-export", f"{op['how']} ended normally ({when}) with an unreadable file of {len(data)} bytes: {exc!r}")
