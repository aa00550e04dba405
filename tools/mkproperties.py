""" Source of properties.jsonl (run by hand, output committed). """
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, BLOCKS = "dessia_common/workflow/core.py", "dessia_common/workflow/blocks.py"
P = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    P.append({"id": id_, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Workflow evaluation is confluent and evaluates each block once",
     "Whatever the order in which input values are supplied and blocks are evaluated (one by one, next available, or "
     "all at once, with the state being inspected in between), a started workflow run computes the value that the "
     "graph of blocks defines for these inputs, the same as a one-shot run. Each block the output depends on is "
     "evaluated exactly once, only when all of its inputs are known and on the values these inputs then hold; asking "
     "for a block that cannot be evaluated is refused and changes nothing. The state's progress is always the fraction "
     "of those blocks that are evaluated, and only a state whose progress is 1 can be turned into a finished run.",
     ["schedules", "histories", "programs", "inputs"],
     "All workflows, all inputs, all interleavings of supply/evaluate/inspect calls.",
     "The tests run a handful of hand-written workflows, nearly always through a single one-shot run in block order.",
     [CORE, BLOCKS],
     [("activation of variables/pipes/blocks", f"{CORE}: WorkflowState._activate_*"),
      ("selection of evaluable blocks", f"{CORE}: _activable_blocks, block_evaluation, evaluate_next_block, continue_run"),
      ("upstream graph traversal", f"{CORE}: runtime_blocks, upstream_blocks")],
     ["return values of the evaluation calls", "values passed to each block", "progress", "output value"],
     [("activated items", "which variables, pipes and blocks already have a value", f"{CORE}: WorkflowState")])

prop("C02", "A failed evaluation leaves the run consistent and resumable",
     "When evaluating a block fails, for whatever reason and at whatever point (user code raising, a cancelling "
     "progress callback, the memory probe failing, an interruption while the block runs), the failure reaches the "
     "caller and the block is not reported as evaluated, while everything evaluated before keeps its value. Resuming the same state after the cause has gone completes with the value an "
     "undisturbed run computes, without evaluating again a main-branch block that had succeeded and without running "
     "user code more than once per attempt.",
     ["fault_sequences", "histories", "schedules", "inputs"],
     "All workflows, all fault kinds, all fault points, any number of failed attempts before the resumption.",
     "The tests only exercise evaluations that succeed; no test resumes a state after a failure.",
     [CORE, BLOCKS],
     [("evaluation then activation", f"{CORE}: _evaluate_block, _activate_block"),
      ("progress callback wrapping", f"{CORE}: block_evaluation; {BLOCKS}: ModelMethod.evaluate, WorkflowBlock.evaluate")],
     ["exceptions", "progress", "counts of user-code calls", "final output"])

prop("C03", "A partially evaluated workflow survives a process restart",
     "At any point of a run, saving the state to JSON and restoring it in a new process yields a state with the same "
     "progress, the same evaluated blocks and the same known inputs, which can be resumed to the value an "
     "uninterrupted run computes, evaluating only the blocks that were not evaluated before. A restored finished run "
     "has the same output and inputs, and can be run again with the same result. Saving a restored state gives the "
     "same document again.",
     ["crash_points", "histories", "programs", "inputs"],
     "All workflows, all points of a run at which it is saved, any number of save/restart cycles.",
     "The tests serialize finished runs and one or two hand-picked partial states, and do not resume them in a new "
     "process.",
     [CORE, "dessia_common/serialization.py", "dessia_common/utils/types.py"],
     [("state serialization", f"{CORE}: WorkflowState.to_dict / dict_to_object"),
      ("workflow serialization", f"{CORE}: Workflow.to_dict / dict_to_object, Variable, Pipe, blocks"),
      ("pointers", "dessia_common/serialization.py: serialize_with_pointers, dereference")],
     ["progress, evaluated blocks and output after restart", "blocks evaluated after restart"])

prop("C04", "Runs and copies sharing a workflow do not interfere",
     "Any number of runs started from one workflow, copies of a run taken at any moment, and runs executing in "
     "concurrent threads each behave as if they were alone: each evaluates its own blocks on its own values and gets "
     "its own result, whatever the interleaving. Using one of them never changes the inputs, progress, values or "
     "output seen through another, nor the workflow they come from, nor the mapping of input values a caller passed.",
     ["schedules", "histories", "inputs"],
     "All workflows, all sets of concurrent runs and copies, all thread interleavings at statement granularity.",
     "The tests run one state at a time in one thread.",
     [CORE, BLOCKS, "dessia_common/utils/copy.py"],
     [("per-state activation maps", f"{CORE}: WorkflowState.__init__"),
      ("state and workflow copy", f"{CORE}: WorkflowState.__deepcopy__, Workflow.__deepcopy__, copy_pipe(s)"),
      ("shared workflow caches", f"{CORE}: _cached_graph, cached properties")],
     ["results of each run", "progress of each state after another one is used"])

prop("C05", "Form steps always partition the workflow inputs",
     "Through any history of step edits (moving, removing, reordering, inserting, renaming, resetting, step displays), "
     "every input of a workflow belongs to exactly one step or to the unassigned inputs, and each edit has exactly the "
     "requested effect and no other. An edit that is rejected leaves the layout as it was. Saving and restoring in a "
     "new process, or copying, preserves the layout with its order, labels and documentation, and the copy can be "
     "edited independently.",
     ["histories", "crash_points", "inputs", "programs"],
     "All workflows, all edit histories, restarts and copies at any point.",
     "The tests apply short fixed sequences of edits to two workflows.",
     [CORE],
     [("step edits", f"{CORE}: change_input_step ... reset_steps, add_step_display"),
      ("step serialization and copy", f"{CORE}: Step.to_dict/dict_to_object, copy_step, Workflow.dict_to_object")],
     ["steps, their inputs, labels and documentation", "unassigned inputs", "generated form schema"])

prop("C06", "Locked inputs, default values and labels are honoured",
     "A full run uses, for each input, the locked value if the input is locked, else the value given by the user, else "
     "the default value; it is refused when an input has none of these. This stays true through any history of "
     "locking, unlocking, default changes and renaming, and through saving, restoring in a new process and copying. "
     "Running a workflow never changes its locks and defaults.",
     ["histories", "crash_points", "inputs", "programs"],
     "All workflows, all histories of lock/default/label edits interleaved with runs, restarts and copies.",
     "The tests lock a couple of inputs of fixed workflows and run once.",
     [CORE, BLOCKS],
     [("lock and default handling", f"{CORE}: Variable.lock/unlock, Workflow.input_values, activate_inputs"),
      ("serialization and copy of variables", f"{CORE}: Variable.to_dict/copy, Block.deserialize_variables")],
     ["values used by the run", "refusals", "locks, defaults and labels after restart"])

prop("C07", "Saved objects survive crashes and restarts unchanged",
     "Loading in a new process a file that was saved successfully gives back an object equal to the saved one, with "
     "the same data everywhere and every standalone sub-object still shared where it was, and saving it again gives an "
     "equivalent document. If a save fails or the process dies at any point of it, the failure is reported and loading "
     "either fails or gives the previous or the new object completely, never a mixture or a truncated one; a save that "
     "fails because the object cannot be serialized leaves the previous file untouched. Saving never changes the "
     "saved object.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "All object graphs, all crash points and disk faults during the save, any number of save/load cycles.",
     "The tests round-trip fixed objects in one process, on a disk that never fails.",
     ["dessia_common/serialization.py", "dessia_common/core.py", "dessia_common/utils/helpers.py"],
     [("pointer serialization and dereferencing", "dessia_common/serialization.py"),
      ("save and load", "dessia_common/core.py: save_to_file, save_to_stream, from_json, load_from_file/stream")],
     ["loaded object", "file content", "exceptions"])

prop("C08", "An export lands completely or reports its failure",
     "Exporting to a file or stream (JSON, spreadsheet, text document, archive, script, template) either ends normally, "
     "in which case the target holds the complete, readable content of the exported object, or raises. Short writes, "
     "full disks and I/O errors at any point of the export are never swallowed, do not change the exported object and "
     "do not prevent a later export from succeeding with the same content.",
     ["fault_sequences", "inputs"],
     "All exporters, all objects of the simulated population, all I/O fault kinds and positions.",
     "The tests export to memory or to a disk that never fails, and mostly check that no exception is raised.",
     ["dessia_common/exports.py", "dessia_common/core.py", "dessia_common/files.py", CORE, BLOCKS,
      "dessia_common/document_generator.py"],
     [("file exporters", "dessia_common/core.py: save_to_file, to_xlsx, zip_export, save_export_to_file, to_docx"),
      ("writers", "dessia_common/exports.py: XLSXWriter; dessia_common/document_generator.py: DocxWriter"),
      ("workflow exports", f"{CORE}: WorkflowState.export, save_script_to_file; {BLOCKS}: Export, Archive")],
     ["file content", "exceptions"])

prop("C09", "Reading a file returns its full content or fails",
     "Reading a file through the library (text and binary files, saved objects, spreadsheets) returns exactly the "
     "content that is on the disk whatever the sizes of the chunks the operating system delivers, or raises when a "
     "read fails or the file is truncated; it never returns a partial or different object. A failed read leaves "
     "neither the file nor later reads affected.",
     ["fault_sequences", "crash_points", "inputs"],
     "All readers, all file contents of the simulated population, all short-read patterns, read errors and truncations.",
     "The tests read intact local files only.",
     ["dessia_common/files.py", "dessia_common/core.py", "dessia_common/excel_reader.py"],
     [("file readers", "dessia_common/files.py: from_file, from_stream; dessia_common/core.py: load_from_*; "
                       "dessia_common/excel_reader.py")],
     ["returned content or object", "exceptions"])

prop("C10", "Progress reports are monotonic, bounded and end at completion",
     "During an evaluation call, whatever the graph of blocks, the order of evaluation, nested workflows and user code "
     "reporting its own progress, the values given to the progress callback lie between 0 and 1, never decrease, and "
     "the last one of a completed run is 1. When a call returns, its last report is the progress of the state; after a failure or a restart, reports go on from the progress of the state.",
     ["schedules", "programs", "inputs", "histories"],
     "All workflows and evaluation orders, all clock behaviours, user progress reported at any granularity.",
     "The tests only check that a callback is accepted.",
     [CORE, BLOCKS],
     [("progress computation", f"{CORE}: progress, block_evaluation, continue_run"),
      ("relative progress", f"{BLOCKS}: WorkflowBlock, ForEach, ModelMethod")],
     ["sequence of values received by the callback"])

prop("C11", "A failing display or export does not affect the others",
     "When the computation of one display of an object or of a workflow run fails, the failure is reported for that "
     "display alone: the other displays give the same result as without the failure, and the failing one gives its "
     "correct result as soon as the cause is gone. Displaying and exporting, successfully or not and any number of "
     "times, neither re-evaluates the blocks the output depends on nor changes the progress, inputs and output of the "
     "run, and always shows the current data.",
     ["fault_sequences", "histories", "programs", "inputs"],
     "All workflows with secondary branches, all sets and orders of display/export calls, all faults in user display code.",
     "The tests display a few fixed objects whose display code never fails.",
     [CORE, BLOCKS, "dessia_common/core.py", "dessia_common/displays.py"],
     [("display error isolation", "dessia_common/core.py: _displays, _display_from_selector; displays.py: DisplayObject"),
      ("secondary branches", f"{CORE}: block_display, export, evaluate_branch, secondary_branch_blocks")],
     ["display dicts with data or traceback", "progress/output before and after"])

prop("C12", "Concurrent use of the library gives the sequential results",
     "Serializing, deserializing, copying, comparing, hashing and describing (schema, displays, exports) objects in "
     "several threads at once, from a cold start, gives each thread the result it gets when it is alone, whatever the "
     "interleaving. None of these operations changes the data of the objects; a workflow run only keeps the secondary "
     "results its displays and exports needed.",
     ["schedules", "inputs"],
     "All sets of operations on shared and private objects, all thread interleavings at statement granularity.",
     "The tests are single threaded and share warmed-up caches.",
     ["dessia_common/serialization.py", "dessia_common/core.py", "dessia_common/schemas/core.py",
      "dessia_common/utils/copy.py", "dessia_common/utils/types.py"],
     [("module-level caches", "dessia_common/core.py, serialization.py, schemas/core.py: argument-specification caches"),
      ("per-call memos", "dessia_common/serialization.py: memo/id_memo; dessia_common/utils/copy.py")],
     ["result of each operation in each thread"])

prop("C13", "Results do not depend on memory layout, hash seed or clock",
     "The same program gives the same observable results (outputs, order of inputs and upstream elements, serialized "
     "documents, form schemas, evaluation order) whatever the addresses of objects, the interpreter's hash seed, the "
     "time of day and clock jumps, apart from recorded timestamps and memory figures.",
     ["configurations", "inputs", "programs", "schedules"],
     "All workflows and objects of the simulated population, all layouts, seeds and clock behaviours.",
     "Tests run once, in one layout, and cannot compare two executions of the same program.",
     [CORE, "dessia_common/serialization.py", "dessia_common/core.py", "dessia_common/schemas/core.py"],
     [("ordered traversals", f"{CORE}: upstream_blocks, upstream_inputs, runtime_blocks"),
      ("memo keyed by data", "dessia_common/serialization.py")],
     ["digest of the observable results of twin executions"])

prop("C14", "Samplers and optimizers respect bounds under any randomness",
     "Whatever the random draws, every model a sampler or an optimizer builds or returns has its varied attributes "
     "within the declared bounds and its fixed attributes equal to the declared values; a sampler gives the requested "
     "number of samples and a full factorial plan gives every combination once. The cost an optimizer returns is the "
     "cost of the model it returns. The global (CMA) search returns the best model it evaluated, the gradient search "
     "(L-BFGS-B, Nelder-Mead) a model that is never worse than its starting point, and the combined search starts the "
     "gradient from the model of the global one and returns the better of both. The outcome is the same for the same "
     "random stream (for the CMA search, which draws its seed from the clock, also the same clock). A model that fails to build makes the call fail, and a retry then succeeds; calls never modify "
     "the definition of the sampler or optimizer.",
     ["inputs", "fault_sequences", "configurations"],
     "All bounds, fixed values and random streams, failures of user code at any evaluation.",
     "The tests run one optimization and one sampling with whatever random draw comes.",
     ["dessia_common/optimization.py", "dessia_common/datatools/sampling.py"],
     [("bounds and dimensionless mapping", "dessia_common/optimization.py"),
      ("sampling methods", "dessia_common/datatools/sampling.py")],
     ["models built by the user factory", "returned model and cost"])

prop("C15", "A deep copy is equal to and independent of its original",
     "A deep copy of an object, of a workflow or of a (partial or finished) run is equal to its original, has the same sharing structure between its "
     "own parts, and shares no mutable part with the original: through any history of modifications, runs and edits of "
     "the one, the other keeps its data. Copying never changes the original, and a failure while copying leaves the "
     "original intact.",
     ["histories", "inputs", "fault_sequences"],
     "All object graphs, all histories of copies and modifications on either side.",
     "The tests copy a few fixed objects and compare them once.",
     ["dessia_common/utils/copy.py", "dessia_common/core.py", CORE],
     [("deep copy with memo", "dessia_common/utils/copy.py: deepcopy_value; dessia_common/core.py: __deepcopy__, copy"),
      ("workflow copy", f"{CORE}: Workflow.__deepcopy__")],
     ["data of original and copy after each modification"])

# ---------------------------------------------------------------------------------------------- not applicable
prop("C20", "Generated schemas describe exactly the accepted values",
     "The form schema generated for a class or method lists every argument with its documented type, default value and "
     "requirement, and a value is accepted by the schema if and only if the constructor accepts it.",
     ["programs"], "All annotated classes and methods.", "Tests compare a few schemas to fixed dictionaries.",
     ["dessia_common/schemas/core.py"], [("schema generation", "dessia_common/schemas/core.py")])
prop("C21", "Equality, hash and diff agree",
     "Data equality is an equivalence relation, equal objects have equal hashes, and two objects are equal if and only "
     "if their difference is empty.",
     ["inputs"], "All pairs of objects.", "Tests compare fixed pairs.",
     ["dessia_common/core.py", "dessia_common/utils/diff.py"],
     [("data equality", "dessia_common/core.py"), ("diff", "dessia_common/utils/diff.py")])
prop("C22", "Type matching is sound",
     "A value of a type that matches another one is accepted wherever the other one is expected.",
     ["programs"], "All pairs of annotations.", "Tests enumerate fixed pairs.",
     ["dessia_common/utils/types.py", "dessia_common/typings.py"], [("typematch", "dessia_common/utils/types.py")])
prop("C23", "Dataset statistics and filters compute what they document",
     "Filters keep exactly the elements satisfying the documented combination, Pareto selections keep exactly the "
     "non-dominated elements, and distances and statistics match their definitions.",
     ["inputs"], "All datasets.", "Tests use fixed datasets.",
     ["dessia_common/datatools", "dessia_common/core.py"], [("datasets", "dessia_common/datatools/dataset.py")])
prop("C24", "A generated script rebuilds its workflow",
     "Executing the script generated for a workflow builds an equal workflow.",
     ["programs"], "All workflows.", "Tests compare generated text for a few workflows.",
     [CORE, BLOCKS, "dessia_common/workflow/utils.py"], [("script generation", f"{CORE}: to_script")])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as file:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            file.write(json.dumps(p) + "\n")
    print(len(P), "properties")
