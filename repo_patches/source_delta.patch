From 6e78ca201218138e9b4107337f53ab44ec37b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 01/58] fix: Sum block sums its input values instead of its
 variables

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 6542f651c08dabd8f729add7dde7db57313fa5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 02/58] fix: do not report global workflow progress through the
 block-relative progress callback

---
 dessia_common/workflow/core.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..163cc05 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2061,10 +2061,6 @@ class WorkflowState(DessiaObject):
         output_values = block.evaluate(local_values, **kwargs)
         self.execution_info.after_block_memory_usage.append((block, int(psutil.Process().memory_info().vms)))
         self._activate_block(block=block, output_values=output_values)
-
-        # Updating progress
-        if progress_callback is not None:
-            progress_callback(self.progress)
         return output_values
 
     def activate_inputs(self, check_all_inputs=False):
-- 
2.43.0


From a80b0af7457dfccd99025212b4183dac98f6d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 03/58] fix: WorkflowRun.run_again works without a progress
 callback

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 163cc05..038fc49 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2193,7 +2193,7 @@ class WorkflowRun(WorkflowState):
         """ Get display settings from given selector. """
         return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
 
-    def run_again(self, input_values, progress_callback=None, name=None):
+    def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
-- 
2.43.0


From b64e2a0369eca6ea57ccc17b4477a36cdce9100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 04/58] fix: partial or failed workflow states can be rendered
 to markdown

---
 dessia_common/workflow/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 038fc49..b4a1930 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1627,8 +1627,12 @@ class ExecutionInfo(DessiaObject):
     def to_markdown(self, **kwargs):
         """ Render to markdown. Require blocks for clean order. """
         table_content = []
+        memory_after = dict(self.after_block_memory_usage)
         for block, mem_start in dict(self.before_block_memory_usage).items():
-            mem_end = dict(self.after_block_memory_usage)[block]
+            if block not in memory_after:
+                # Block evaluation did not terminate
+                continue
+            mem_end = memory_after[block]
             mem_diff = mem_end - mem_start
             table_content.append((block.name, f"{humanize.naturalsize(mem_start)}", f"{humanize.naturalsize(mem_end)}",
                                   f"{humanize.naturalsize(mem_diff)}"))
@@ -2123,7 +2127,7 @@ class WorkflowState(DessiaObject):
     def to_markdown(self, **kwargs) -> str:
         """ Render to markdown. """
         template = dessia_common.templates.workflow_state_markdown_template
-        execution_info = self.execution_info.to_markdown(self.workflow.blocks)
+        execution_info = self.execution_info.to_markdown(blocks=self.workflow.blocks)
         return template.substitute(name=self.name, class_=self.__class__.__name__, progress=100 * self.progress,
                                    workflow_name=self.workflow.name, execution_info=execution_info)
 
-- 
2.43.0


From 73e3cb601590c9c71b4257666e867b31eb639cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 05/58] fix: serialize every pipe value of a workflow state so
 that it can be resumed once restored

---
 dessia_common/workflow/core.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b4a1930..d79f592 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1793,19 +1793,19 @@ class WorkflowState(DessiaObject):
         # Values
         values = {}
         for pipe, value in self.values.items():
-            if not is_file_or_file_sequence(value) and pipe in self.workflow.memorized_pipes:
+            if not is_file_or_file_sequence(value):
                 pipe_index = self.workflow.pipes.index(pipe)
-                if use_pointers:
-                    try:
+                try:
+                    if use_pointers:
                         serialized_value, memo = serialize_with_pointers(value=value, memo=memo,
                                                                          path=f"{path}/values/{pipe_index}",
                                                                          id_memo=id_memo)
-                        values[str(pipe_index)] = serialized_value
-                    except SerializationError:
-                        warnings.warn(f"unable to serialize {value}, dropping it from workflow state/run values",
-                                      SerializationWarning)
-                else:
-                    values[str(pipe_index)] = serialize(value)
+                    else:
+                        serialized_value = serialize(value)
+                    values[str(pipe_index)] = serialized_value
+                except SerializationError:
+                    warnings.warn(f"unable to serialize {value}, dropping it from workflow state/run values",
+                                  SerializationWarning)
         dict_["values"] = values
 
         # In the future comment these below and rely only on activated items
-- 
2.43.0


From 346a816b996e8abadb9c5990a2572ad4c69e9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 06/58] fix: order of upstream blocks and inputs does not
 depend on memory addresses

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d79f592..dfa1c94 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1006,7 +1006,7 @@ class Workflow(Block):
         """ Return a list of given block's upstream blocks. """
         upstream_variables = self.block_upstream_variables(block)
         upstream_blocks = [self.block_from_variable(v) for v in upstream_variables["wired"]]
-        return list(set(upstream_blocks))
+        return list(dict.fromkeys(upstream_blocks))
 
     def upstream_branch(self, block: Block) -> List[Block]:
         return self._branch_blocks(block=block, condition=self.has_upstream_block, include_last=True)
@@ -1043,7 +1043,7 @@ class Workflow(Block):
         for block in branch_blocks:
             upstream_variables = self.block_upstream_variables(block)
             upstream_inputs.extend(upstream_variables["available"] + upstream_variables["nonblock"])
-        return list(set(upstream_inputs))
+        return list(dict.fromkeys(upstream_inputs))
 
     def variable_indices(self, variable: Variable) -> Optional[Union[Tuple[int, int, int], int]]:
         """
-- 
2.43.0


From b49155db4503507d3badcde0f2ac3b6901bb375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 07/58] fix: removing an input that is in no step leaves the
 steps unchanged

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index dfa1c94..9dca081 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1432,8 +1432,10 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' does not belong to any step.")
+        self.spare_inputs.append(input_)
         current_step.inputs.remove(input_)
         return self.method_schemas["run"]
 
-- 
2.43.0


From 9bed4ed31acc2d52e3f0ed8a32cb2235d968f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 08/58] fix: a workflow state does not share its input values
 with its caller

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 9dca081..d597213 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1656,7 +1656,7 @@ class WorkflowState(DessiaObject):
         self.workflow = workflow
         if input_values is None:
             input_values = {}
-        self.input_values = input_values
+        self.input_values = dict(input_values)
 
         if activated_items is None:
             activated_items = {p: False for p in workflow.pipes}
-- 
2.43.0


From c327836f7dd50570d6e83afa497cf54424da734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 09/58] fix: evaluate_next_block does not evaluate an already
 evaluated secondary block forever

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d597213..8f8f04f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1949,7 +1949,7 @@ class WorkflowState(DessiaObject):
     def evaluate_next_block(self, progress_callback=lambda x: None) -> Optional[Block]:
         """ Evaluate a block. """
         self.activate_inputs()
-        blocks = self._activable_blocks()
+        blocks = [b for b in self._activable_blocks() if not self.activated_items[b]]
         if blocks:
             block_index = self.workflow.blocks.index(blocks[0])
             self.block_evaluation(block_index, progress_callback=progress_callback)
-- 
2.43.0


From 07110d7c0bd6f39b611ac482d9f3b70bfbfa2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 10/58] fix: a branch does not contain the same block twice

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 8f8f04f..d473ecc 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -907,7 +907,7 @@ class Workflow(Block):
         candidates = upstream_blocks
         while candidates and i <= len(self.blocks):
             candidates = []
-            for upstream_block in upstream_blocks:
+            for upstream_block in dict.fromkeys(upstream_blocks):
                 if condition(upstream_block):
                     branch_blocks.insert(0, upstream_block)
                     candidates.extend(self.upstream_blocks(upstream_block))
-- 
2.43.0


From ba5a9e44da4e7b1c7bda527663b24992b0dcb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 11/58] fix: a model method that raises a TypeError is not run
 a second time

---
 dessia_common/workflow/blocks.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..3e26eb3 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -58,6 +58,15 @@ def output_from_function(function, name: str = "result output"):
     return Variable(name=name)
 
 
+def _accepts_progress_callback(method) -> bool:
+    """ Return whether a progress callback can be injected to given method. """
+    try:
+        parameters = inspect.signature(method).parameters
+    except (TypeError, ValueError):
+        return False
+    return "progress_callback" in parameters or any(p.kind is p.VAR_KEYWORD for p in parameters.values())
+
+
 def set_block_variable_names_from_dict(func):
     """ Inspect function arguments to compute black variable names. """
     def func_wrapper(cls, dict_):
@@ -256,11 +265,9 @@ class ModelMethod(Block):
         """ Run given method with arguments that are in values. """
         arguments = {i.name: values[i] for i in self.inputs[1:] if i in values}
         method = getattr(values[self.inputs[0]], self.method_type.name)
-        try:
-            # Trying to inject progress callback to method
-            result = method(progress_callback=progress_callback, **arguments)
-        except TypeError:
-            result = method(**arguments)
+        if _accepts_progress_callback(method):
+            arguments["progress_callback"] = progress_callback
+        result = method(**arguments)
         return [result, values[self.inputs[0]]]
 
     def package_mix(self):
-- 
2.43.0


From dde1621a060dcd55466881f56ac57d20b9c04315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 12/58] fix: a failing serialization does not wipe the
 previously saved file

---
 dessia_common/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..f4036ad 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -222,8 +222,11 @@ class DessiaObject(SerializableObject):
         if not filepath.endswith('.json'):
             filepath += '.json'
             print(f'Changing name to {filepath}')
+        stream = dcf.StringFile()
+        self.save_to_stream(stream, indent=indent)
+        # Only open file once serialization succeeded, so that a failing one does not wipe a previous save
         with open(filepath, 'w', encoding='utf-8') as file:
-            self.save_to_stream(file, indent=indent)
+            file.write(stream.getvalue())
 
     def save_to_stream(self, stream, indent: int = 2):
         """ Write object to a stream. Default is to_dict, as a text like stream. """
-- 
2.43.0


From fbb6b7840666b2e5ea21e8594db03a2782fc5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:02 +0000
Subject: [PATCH 13/58] fix: XLSXWriter.save_to_file opens the target file for
 writing

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index dcd2755..a2993be 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -262,7 +262,7 @@ class XLSXWriter:
             filepath += '.xlsx'
             print(f"Changing name to {filepath}")
 
-        with open(filepath, 'rb') as file:
+        with open(filepath, 'wb') as file:
             self.save_to_stream(file)
 
     def save_to_stream(self, stream):
-- 
2.43.0


From 06be0537809e8b55c972c6282ada7c5e84610f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:00 +0000
Subject: [PATCH 14/58] fix: display settings of a workflow whose display block
 is fed by a workflow input

---
 dessia_common/workflow/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d473ecc..3958a99 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -656,7 +656,11 @@ class Workflow(Block):
             for i, input_ in enumerate(block.inputs):
                 incoming_pipe = self.variable_input_pipe(input_)
                 if i == block._displayable_input:
-                    reference_path = f"{reference_path}/values/{self.pipes.index(incoming_pipe)}"
+                    if incoming_pipe is None:
+                        # Displayed object is directly given as a workflow input
+                        reference_path = f"{reference_path}/input_values/{self.input_index(input_)}"
+                    else:
+                        reference_path = f"{reference_path}/values/{self.pipes.index(incoming_pipe)}"
             block_index = self.blocks.index(block)
             settings = block._display_settings(block_index=block_index, reference_path=reference_path)
             if settings is not None:
-- 
2.43.0


From 7cddddc89ce4b0ad200aabba900b877729c85788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:24 +0000
Subject: [PATCH 15/58] fix: a restored Export block keeps the type of its
 method

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 3e26eb3..a9546ab 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1444,7 +1444,7 @@ class Export(Block):
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
-        method_type = ClassMethodType.dict_to_object(dict_["method_type"])
+        method_type = MethodType.dict_to_object(dict_["method_type"])
         block = cls(method_type=method_type, text=dict_["text"], extension=dict_["extension"],
                     filename=dict_["filename"], name=dict_["name"], position=dict_["position"])
         block.deserialize_variables(dict_)
-- 
2.43.0


From 74c4fd9767834ba76c4fdaafe1aa49fe2dbdc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:24 +0000
Subject: [PATCH 16/58] fix: the copy of a class method or attribute type keeps
 its class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 88196176a7aadd78d1e1afad7c0c1a1d3b08e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 17/58] fix: the serialized workflow does not depend on which
 cached properties were computed before

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 3958a99..aba05f4 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -359,7 +359,8 @@ class Workflow(Block):
     _eq_is_data_eq = True
     _allowed_methods = ["run"]
     _non_serializable_attributes = ["branch_by_display_selector", "branch_by_export_format",
-                                    "memorized_pipes", "coordinates", "detached_variables", "variables"]
+                                    "memorized_pipes", "coordinates", "detached_variables", "variables",
+                                    "file_inputs", "has_file_inputs"]
 
     def __init__(self, blocks: List[Block], pipes: List[Pipe], output, *, steps: List[Step] = None,
                  detached_variables: List[Variable] = None, description: str = "", documentation: str = "",
-- 
2.43.0


From 4a85db9bc410e947c3bdb5f91f5a92510fb1d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 18/58] fix: a deep copy does not merge distinct objects that
 are equal

---
 dessia_common/utils/copy.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..653898b 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -13,7 +13,7 @@ def deepcopy_value(value, memo):
     Returns the deep-copy of a value.
 
     :param value: The value to be deep-copied
-    :param memo: A dictionary linking a path to an object
+    :param memo: A dictionary linking the id of an already copied object to its copy
     :return: A deep-copy of the value
     """
     if isinstance(value, type) or is_typing(value):  # For class
@@ -44,8 +44,7 @@ def deepcopy_value(value, memo):
             warnings.warn(f'{value.__class__.__name__}.copy() does not implement deep and memo arguments')
             copied_value = value.copy()
 
-        memo[value] = copied_value
-        return copied_value
+        return store_memo(value, copied_value, memo)
 
     if isinstance(value, (dessia_common.files.BinaryFile, dessia_common.files.StringFile)):
         return value.copy()
@@ -60,8 +59,7 @@ def deepcopy_value(value, memo):
         except TypeError:
             # Memo not handled
             copied_value = copy.deepcopy(value)
-        memo[value] = copied_value
-        return copied_value
+        return store_memo(value, copied_value, memo)
 
     if is_sequence(value):
         return deepcopy_sequence(value, memo)
@@ -99,8 +97,12 @@ def deepcopy_sequence(seq_value, memo):
 
 
 def search_memo(value, memo):
-    """ Search in given memo. """
-    try:
-        return memo[value]
-    except (TypeError, KeyError):
-        return None
+    """ Search in given memo. Objects are the same if they are identical, not if they are only equal. """
+    return memo.get(id(value), None)
+
+
+def store_memo(value, copied_value, memo):
+    """ Store copied value in given memo, as copy.deepcopy does : value is kept alive for its id to stay valid. """
+    memo[id(value)] = copied_value
+    memo.setdefault(id(memo), []).append(value)
+    return copied_value
-- 
2.43.0


From f146464d56a5fbc30b853595c595577eab7103a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:34 +0000
Subject: [PATCH 19/58] fix: a deep copy keeps tuples and the sharing of lists
 and dicts

---
 dessia_common/utils/copy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index 653898b..bf8f76e 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -75,7 +75,7 @@ def deepcopy_dict(dict_value, memo):
     if memo_value is not None:
         return memo_value
 
-    copied_dict = {}
+    copied_dict = store_memo(dict_value, {}, memo)
     for key, value in dict_value.items():
         copied_k = deepcopy_value(key, memo=memo)
         copied_v = deepcopy_value(value, memo=memo)
@@ -89,7 +89,10 @@ def deepcopy_sequence(seq_value, memo):
     if memo_value is not None:
         return memo_value
 
-    copied_list = []
+    if isinstance(seq_value, tuple):
+        return store_memo(seq_value, tuple(deepcopy_value(v, memo=memo) for v in seq_value), memo)
+
+    copied_list = store_memo(seq_value, [], memo)
     for value in seq_value:
         copied_value = deepcopy_value(value, memo=memo)
         copied_list.append(copied_value)
-- 
2.43.0


From 28bb76445c25db15cd975c57a1b427320aa95de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:34 +0000
Subject: [PATCH 20/58] fix: the copy of a workflow state does not share its
 pipe values with the original

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index aba05f4..72790b8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1693,7 +1693,7 @@ class WorkflowState(DessiaObject):
         for pipe, value in self.values.items():
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
-            values[copied_pipe] = value
+            values[copied_pipe] = deepcopy_value(value=value, memo=memo)
 
         activated_items = {}
         for item, value in self.activated_items.items():
-- 
2.43.0


From 4a803c3305b0afe279aac4d7792f3a76e312081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 21/58] fix: the copy of a workflow keeps its documentation and
 the labels, positions and default values of its inputs

---
 dessia_common/workflow/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 72790b8..c8fa4db 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -553,12 +553,18 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
-
-        # Locking variables
-        for i, input_ in enumerate(self.inputs):
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
+                            documentation=self.documentation, name=self.name)
+
+        # User configuration of variables
+        for variable, copied_variable in zip(self.variables, workflow.variables):
+            copied_variable.label = variable.label
+            copied_variable.position = variable.position
+        for input_, copied_input in zip(self.inputs, workflow.inputs):
+            copied_input.default_value = deepcopy_value(input_.default_value, memo) if input_.has_default_value \
+                else UNDEFINED
             if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+                copied_input.lock()
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 586b19bcdf8a1b98f22a8f45361b4cad668344cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:07 +0000
Subject: [PATCH 22/58] fix: a workflow with steps that have no display can be
 hashed and compared

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index c8fa4db..f7b6bb4 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -301,7 +301,7 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + hash(self.display_variable_index))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-- 
2.43.0


From 34da2e0c64884b98f2dd8931dc3863d8923c1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:07 +0000
Subject: [PATCH 23/58] fix: the copy of a multiplot block does not share its
 list of attributes

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index a9546ab..53b515c 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -860,7 +860,7 @@ class MultiPlot(Display):
                          selector=selector, position=position)
 
     def __deepcopy__(self, memo=None):
-        return MultiPlot(selector_name=self.selector.name, attributes=self.attributes,
+        return MultiPlot(selector_name=self.selector.name, attributes=list(self.attributes),
                          load_by_default=self.load_by_default, name=self.name, position=self.position)
 
     def equivalent(self, other):
@@ -956,7 +956,7 @@ class MultiObject(Display):
         self.inputs[0].name = "Sequence"
 
     def __deepcopy__(self, memo=None):
-        return MultiObject(selector_name=self.selector.name, configurations=self.configurations,
+        return MultiObject(selector_name=self.selector.name, configurations=list(self.configurations),
                            load_by_default=self.load_by_default, name=self.name, position=self.position)
 
     def equivalent(self, other: 'MultiObject'):
-- 
2.43.0


From 6ac4536e94bf6b8cf3c6f6596065e97019735e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 24/58] fix: initial dict of the run method of a workflow with
 default values

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f7b6bb4..010c327 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -845,7 +845,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 171ba1d6b3a975fbf6a6753f4e2d5291662cce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 25/58] fix: reordering the inputs of a step refuses duplicated
 indices

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 010c327..185e383 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1454,7 +1454,7 @@ class Workflow(Block):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
-- 
2.43.0


From 152c88c20253ce27049f586b58524ab4536661de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 26/58] fix: reordering steps refuses indices that are not
 those of the steps

---
 dessia_common/workflow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 185e383..461ca25 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1482,6 +1482,8 @@ class Workflow(Block):
                              f"It should be of length '{len(self.steps)}' ")
         if len(set(order)) != len(self.steps):
             raise ValueError(f"Duplicated indices found in given order '{order}'")
+        if set(order) != set(range(len(self.steps))):
+            raise ValueError(f"Given order '{order}' does not match the indices of the {len(self.steps)} steps")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
 
-- 
2.43.0


From a030eb870e826aa22034bd73023618094fcacce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 27/58] fix: a rejected change of step of several inputs does
 not move some of them

---
 dessia_common/workflow/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 461ca25..e068d3c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1436,6 +1436,7 @@ class Workflow(Block):
 
     def change_inputs_step(self, input_indices: List[int], new_step_index: int):
         """ Callable from frontend. """
+        _ = [self.inputs[i] for i in input_indices]  # Refuse unknown inputs before any change
         for input_index in input_indices:
             self.change_input_step(input_index, new_step_index)
         return self.method_schemas["run"]
-- 
2.43.0


From 9e4d52fe774f066d2ea59b2a2b243a51e236e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 28/58] fix: a rejected step display does not move inputs
 between steps

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e068d3c..982c604 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1514,6 +1514,9 @@ class Workflow(Block):
     def add_step_display(self, variable_index: int, step_index: int, selector: str):
         """ Callable from frontend. """
         variable = self.variables[variable_index]
+        step = self.steps[step_index]
+        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
+                                                         selector=selector)
         upstream_inputs = self.upstream_inputs(variable)
         previous_step_inputs = [input_ for step in self.steps[:step_index] for input_ in step.inputs]
         for input_ in upstream_inputs:
@@ -1521,9 +1524,6 @@ class Workflow(Block):
                 continue
             index = self.input_index(input_)
             self.change_input_step(input_index=index, new_step_index=step_index)
-        step = self.steps[step_index]
-        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
-                                                         selector=selector)
         step.add_display_setting(display_setting=display_setting, inputs=upstream_inputs, variable_index=variable_index)
         return self.method_schemas["run"]
 
-- 
2.43.0


From 1feb3285bd907835f6f39943ccf88d96b325aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 29/58] fix: the copy of a step keeps all the inputs of its
 display

---
 dessia_common/workflow/core.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 982c604..8a28cfe 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -568,14 +568,8 @@ class Workflow(Block):
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-        inputs = []
-        group_inputs = []
-        for input_ in step.inputs:
-            input_index = self.variable_indices(input_)
-            copied_input = copied_workflow.variable_from_index(input_index)
-            inputs.append(copied_input)
-            if input_ in step.group_inputs:
-                group_inputs.append(copied_input)
+        inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.inputs]
+        group_inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.group_inputs]
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-- 
2.43.0


From 32802b00b2e40b36b986608b802c08e9e0fde832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:44 +0000
Subject: [PATCH 30/58] fix: an object can be serialized while another thread
 caches one of its properties

---
 dessia_common/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..b401c0d 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -43,7 +43,7 @@ class SerializableObject(CoreDessiaObject):
 
         Keys are filtered with non serializable attributes controls.
         """
-        dict_ = {k: v for k, v in self.__dict__.items()
+        dict_ = {k: v for k, v in self.__dict__.copy().items()
                  if k not in self._non_serializable_attributes and not k.startswith('_')}
         return dict_
 
-- 
2.43.0


From 0b7f7f0bd2635c8ad9ad3e4555489e058c9accbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:32 +0000
Subject: [PATCH 31/58] fix: a restored workflow keeps the locks of its
 nonblock variables

---
 dessia_common/workflow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 8a28cfe..41c2a36 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2316,6 +2316,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if variable_dict.get("locked", False):
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From 5f5296351100ef13b8b3b301dcc7110af4873abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:26 +0000
Subject: [PATCH 32/58] fix: the copy of an untyped variable with a default
 value stays untyped

Variable.__init__ derives a missing type from the default value, so that the copy of
an untyped variable became typed, and a workflow holding it could not be serialized
anymore when that type has no schema (list).
---
 dessia_common/workflow/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 41c2a36..552eac3 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -148,6 +148,7 @@ class Variable(DessiaObject):
             memo = {}
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
         variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable.type_ = self.type_
         if self.locked:
             variable.lock()
         return variable
-- 
2.43.0


From 879c0eef12af42f22fefcf36134e4e45888f3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:26 +0000
Subject: [PATCH 33/58] fix: saved measures of equal values keep their own
 units

Measures are floats, so that the serialization memo considered Distance(2.) and
Angle(2.) as the same object and restored both with the unit of the first one.
---
 dessia_common/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index b401c0d..b245762 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -163,6 +163,9 @@ def serialize_with_pointers(value, memo=None, path='#', id_method=True, id_memo=
     # Objects (DessiaObjects and Regular)
     if isinstance(value, type):
         serialized = serialize_annotation(value)
+    elif isinstance(value, Measure):
+        # Measures are floats: two of them with the same value but different units are equal in the memo
+        serialized = value.to_dict()
     elif hasattr(value, 'to_dict'):
         if value in memo:
             return _find_in_memo(memo, value, id_memo)
-- 
2.43.0


From 8dc7c2c7d10f9e9761446e858d71ed150a8cdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:35 +0000
Subject: [PATCH 34/58] fix: exports of workflow blocks are written to files

WorkflowState.export wrote in StringFile and BinaryFile streams only, so that
save_export_to_file silently produced an empty file for every export block.
---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 552eac3..1628d7d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2128,9 +2128,9 @@ class WorkflowState(DessiaObject):
                   f"Has the workflow been ran far enough to evaluate this block ?"
             raise WorkflowError(msg)
         export_stream = evaluated_blocks[block][0]  # Only one output to an Export Block
-        if isinstance(stream, StringFile):
+        if isinstance(export_stream, StringFile):
             stream.write(export_stream.getvalue())
-        if isinstance(stream, BinaryFile):
+        else:
             stream.write(export_stream.getbuffer())
         stream.filename = export_stream.filename
         return export_stream
-- 
2.43.0


From cc5c28e08365d3d3c40aa4b93aded4458c112811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:35 +0000
Subject: [PATCH 35/58] fix: a workflow run whose output is a builtin value can
 be rendered to markdown

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1628d7d..b97a221 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2282,8 +2282,10 @@ class WorkflowRun(WorkflowState):
 
         if is_sequence(self.output_value):
             output_table = f"Output is a sequence of {len(self.output_value)} elements"
-        else:
+        elif hasattr(self.output_value, "__dict__"):
             output_table = writer.object_table(self.output_value)
+        else:
+            output_table = f"Output is {self.output_value}"
 
         execution_info = self.execution_info.to_markdown(blocks=self.workflow.blocks)
         return template.substitute(name=self.name, workflow_name=self.workflow.name,
-- 
2.43.0


From 2e85cabdad8109a81f547d82719df7436694e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:11 +0000
Subject: [PATCH 36/58] fix: vector features and markdown descriptions do not
 depend on the hash seed

Both were built by iterating over a set of strings.
---
 dessia_common/core.py    | 3 ++-
 dessia_common/exports.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index f4036ad..b78b55c 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -644,7 +644,8 @@ class DessiaObject(SerializableObject):
     def vector_features(cls):
         """ Get a list of vector features, or generate a default one. """
         if cls._vector_features is None:
-            return list(set(get_attribute_names(cls)).difference(get_attribute_names(DessiaObject)))
+            base_names = get_attribute_names(DessiaObject)
+            return [n for n in dict.fromkeys(get_attribute_names(cls)) if n not in base_names]
         return cls._vector_features
 
 
diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index a2993be..7b2dfba 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -306,7 +306,7 @@ class MarkdownWriter:
 
         printed_string = f"{len(value)} "
 
-        all_class_names = list(set(subvalue.__class__.__name__ for subvalue in value))
+        all_class_names = list(dict.fromkeys(subvalue.__class__.__name__ for subvalue in value))
         if len(all_class_names) == 1:
             printed_string += ''.join([f"{all_class_names[0]}",
                                        f"{'s' if len(value) > 1 else ''}"])
-- 
2.43.0


From 3c2a17f0a7142a6dbff98861e71c487a0ec5c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:00 +0000
Subject: [PATCH 37/58] fix: axes and samples of plots do not depend on the
 hash seed

The parallel plot of a dataset and the samples of a MultiObject block were ordered by
iterating over sets of attribute names.
---
 dessia_common/datatools/dataset.py | 4 ++--
 dessia_common/workflow/blocks.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..eefc5ca 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -727,7 +727,7 @@ class Dataset(DessiaObject):
                     unreal_score += -1 / 10.
             return map(list, zip(*sorted(zip(r2_scores, association_list))[::-1])), []
         # Returns list of list of associated attributes sorted along their R2 score and constant attributes
-        return map(list, zip(*sorted(zip(r2_scores, association_list))[::-1])), list(set(constant_attributes))
+        return map(list, zip(*sorted(zip(r2_scores, association_list))[::-1])), list(dict.fromkeys(constant_attributes))
 
     @staticmethod
     def _get_attribute_trios(sorted_r2, sorted_association):
@@ -763,7 +763,7 @@ class Dataset(DessiaObject):
             return attribute_serie
         mid_index = [attribute_serie.count(attr) for attr in attribute_serie].index(2)
         mid_attr = attribute_serie[mid_index]
-        remaining_attr = iter(set(attribute_serie).difference({mid_attr}))
+        remaining_attr = iter([attr for attr in dict.fromkeys(attribute_serie) if attr != mid_attr])
         return [next(remaining_attr), mid_attr, next(remaining_attr)]
 
     @staticmethod
diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 53b515c..2cd819d 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -975,7 +975,7 @@ class MultiObject(Display):
         plots = [c.plot_data_object(objects=objects, reference_path=reference_path) for c in self.configurations]
 
         # TODO Mutualizing samples from multiplot and subplots should probably be done by plot_data
-        attributes = list(set([a for c in self.configurations for a in c.attributes]))
+        attributes = list(dict.fromkeys(a for c in self.configurations for a in c.attributes))
         samples = [pd.Sample(values={a: get_in_object_from_path(o, a) for a in attributes},
                              reference_path=f"{reference_path}/{i}", name=o.name if o.name else f"Sample {i}")
                    for i, o in enumerate(objects)]
-- 
2.43.0


From 0d1d8294336b07c33c9ea5e5411e21395269187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:32 +0000
Subject: [PATCH 38/58] fix: progress reported by a secondary block does not
 exceed the progress of the workflow

The share of the block was added to the progress although secondary blocks do
not count in it: reports above 1, then decreasing.
---
 dessia_common/workflow/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b97a221..7cda358 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1947,8 +1947,11 @@ class WorkflowState(DessiaObject):
         if block in self._activable_blocks():
             nblocks = len(self.workflow.blocks)
 
+            # Secondary blocks do not contribute to the progress of the workflow
+            is_secondary = self.workflow.is_block_secondary(block)
+
             def block_progress_callback(x):
-                progress_callback(self.progress + x / nblocks)
+                progress_callback(self.progress if is_secondary else self.progress + x / nblocks)
 
             self._evaluate_block(block, progress_callback=block_progress_callback)
             progress_callback(self.progress)
-- 
2.43.0


From ba4517a92e5854baa8208cd1a2d425095df6d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 39/58] fix: displays of a workflow state can be computed

display_settings is an instance method for states, but was looked up on the
class: _displays raised a TypeError for every state that is not a run.
---
 dessia_common/workflow/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 7cda358..96c5f7f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1904,6 +1904,10 @@ class WorkflowState(DessiaObject):
         display_settings.extend(self.workflow.blocks_display_settings)
         return display_settings
 
+    def _display_settings_from_selector(self, selector: str):
+        """ Get display settings from given selector. """
+        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
+
     def block_display(self, block_index: int, reference_path: str = "#"):
         """ Compute the display of associated block to use integrate it in the workflow run displays. """
         self.activate_inputs()
@@ -2207,10 +2211,6 @@ class WorkflowRun(WorkflowState):
         documentation.load_by_default = not any(displays_by_default)
         return [documentation] + block_settings
 
-    def _display_settings_from_selector(self, selector: str):
-        """ Get display settings from given selector. """
-        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
-
     def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
-- 
2.43.0


From 3b3e8d8f3b8f9ca4848ce5358f8c7816fc3ca643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 40/58] fix: a display whose data cannot be serialized does not
 prevent the others

Only the call of the display method was guarded, not the serialization nor the
cleaning of what it returns.
---
 dessia_common/core.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index b78b55c..4c7a5a8 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -435,16 +435,14 @@ class DessiaObject(SerializableObject):
     def _display_from_selector(self, selector: str) -> DisplayObject:
         """ Generate the display from the selector. """
         display_setting = self._display_settings_from_selector(selector)
-        track = ""
+        reference_path = display_setting.reference_path  # Trying this
         try:
             display = attrmethod_getter(self, display_setting.method)(**display_setting.arguments)
+            data = serialize(display) if display_setting.serialize_data else display
+            return DisplayObject(type_=display_setting.type, data=data, reference_path=reference_path)
         except Exception:
-            display = None
-            track = tb.format_exc()
-
-        data = serialize(display) if display_setting.serialize_data else display
-        reference_path = display_setting.reference_path  # Trying this
-        return DisplayObject(type_=display_setting.type, data=data, reference_path=reference_path, traceback=track)
+            return DisplayObject(type_=display_setting.type, data=None, reference_path=reference_path,
+                                 traceback=tb.format_exc())
 
     @classmethod
     def _display_settings_from_selector(cls, selector: str):
-- 
2.43.0


From 81e75f1aa1762a8766003af7efcca174e2087fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:08 +0000
Subject: [PATCH 41/58] fix: displays and exports of a branch do not use former
 outputs of its blocks

When blocks of a secondary branch meet again after different distances, the
branch is not sorted from upstream to downstream: the second time it was
evaluated, a block could be evaluated before its upstream block.
---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 96c5f7f..4dfb219 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2000,7 +2000,9 @@ class WorkflowState(DessiaObject):
         evaluated_blocks = {}
         i = 0
         while len(evaluated_blocks) != len(blocks) and i <= len(blocks):
-            next_blocks = [b for b in blocks if b in self._activable_blocks() and b not in evaluated_blocks]
+            # A block has to wait for its upstream blocks of the branch, otherwise it would use their former outputs
+            next_blocks = [b for b in blocks if b in self._activable_blocks() and b not in evaluated_blocks
+                           and all(u in evaluated_blocks for u in self.workflow.upstream_blocks(b) if u in blocks)]
             for block in next_blocks:
                 kwargs = block_args[block]
                 output_values = self._evaluate_block(block, **kwargs)
-- 
2.43.0


From 7b61db97c7b03baeb5c870289315dce9ca370bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:18 +0000
Subject: [PATCH 42/58] fix: common attributes of a dataset are never seen
 incomplete by another thread

---
 dessia_common/datatools/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index eefc5ca..046ec06 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -303,11 +303,13 @@ class Dataset(DessiaObject):
             set_attributes = set.intersection(*(set(instance.vector_features()) for instance in one_instance))
 
             # Keep order
-            self._common_attributes = []
+            common_attributes = []
             for attr in all_attributes:
                 if attr in set_attributes:
-                    self._common_attributes.append(attr)
+                    common_attributes.append(attr)
                     set_attributes.remove(attr)
+            # Only set once complete, as other threads may be reading it
+            self._common_attributes = common_attributes
 
         return self._common_attributes
 
-- 
2.43.0


From 7f8aef68aeaf1a2a7637bec5fc0d4fe8c0d58ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:42 +0000
Subject: [PATCH 43/58] fix: a workflow run can be serialized and copied while
 another thread computes its displays

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4dfb219..85d23a4 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1694,7 +1694,7 @@ class WorkflowState(DessiaObject):
         workflow = self.workflow.copy(deep=True, memo=memo)
         input_values = deepcopy_value(value=self.input_values, memo=memo)
         values = {}
-        for pipe, value in self.values.items():
+        for pipe, value in list(self.values.items()):  # Another thread may be computing displays
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
             values[copied_pipe] = deepcopy_value(value=value, memo=memo)
@@ -1803,7 +1803,7 @@ class WorkflowState(DessiaObject):
                           "output_value_type": recursive_type(self.output_value)})
         # Values
         values = {}
-        for pipe, value in self.values.items():
+        for pipe, value in list(self.values.items()):  # Another thread may be computing displays
             if not is_file_or_file_sequence(value):
                 pipe_index = self.workflow.pipes.index(pipe)
                 try:
-- 
2.43.0


From 7e6c3d60ae7fd2c8062043c7117df697016dddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:40 +0000
Subject: [PATCH 44/58] fix: the layout of a workflow depends on the workflow
 only

---
 dessia_common/graph.py         | 7 ++++---
 dessia_common/workflow/core.py | 9 ++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dessia_common/graph.py b/dessia_common/graph.py
index 98d216c..e6c205a 100644
--- a/dessia_common/graph.py
+++ b/dessia_common/graph.py
@@ -86,15 +86,16 @@ def get_column_by_node(graph: nx.DiGraph):
     for node in longest_path:
         columns[node] = longest_path.index(node)
 
-    for node in [n for n in graph.nodes if n not in longest_path]:
+    for node in [n for n in nx.topological_sort(graph) if n not in longest_path]:
         try:
             path = get_longest_path(graph, node, end_of_path)
             columns[node] = len(longest_path) - len(path)
         except nx.exception.NetworkXNoPath:
-            # There is no path from node to end_of_path
+            # There is no path from node to end_of_path. Its ancestors already have their column
+            columns[node] = 0
             for path in get_paths_from_to(graph, list(graph.nodes), [node]):
                 column_index = columns[path[0]] + len(path) - 1
-                if node not in columns or columns[node] < column_index:
+                if columns[node] < column_index:
                     columns[node] = column_index
 
     return columns
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 85d23a4..1161350 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1212,7 +1212,14 @@ class Workflow(Block):
         digraph = self.layout_graph
         graph = digraph.to_undirected()
         connected_components = nx.connected_components(graph)
-        return [self.graph_columns(digraph.subgraph(cc)) for cc in list(connected_components)]
+        layouts = []
+        for component in connected_components:
+            # Subgraph views iterate on sets, whose order depends on memory : build an ordered graph instead
+            ordered_graph = nx.DiGraph()
+            ordered_graph.add_nodes_from(node for node in digraph if node in component)
+            ordered_graph.add_edges_from(edge for edge in digraph.edges if edge[0] in component)
+            layouts.append(self.graph_columns(ordered_graph))
+        return layouts
 
     def plot_graph(self):
         """ Plot graph by means of networking and matplotlib. """
-- 
2.43.0


From fbc729583c7e497ee0be8a62d053e84c377a4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 45/58] fix: polish the model found by CMA

---
 dessia_common/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..ea8d9a3 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -52,6 +52,8 @@ class BoundedAttributeValue(DessiaObject):
 
     def dimensionless_value(self, value: float):
         """ Method to compute the dimensionless value out of the given one. """
+        if self.interval_length == 0:
+            return 0.
         return (value - self.min_value) / self.interval_length
 
 
@@ -163,7 +165,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([bound.dimensionless_value(getattr(model_cma, bound.attribute_name))
+                        for bound in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From 170945512b56a85f66c56f10bc9ef051b653832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 46/58] fix: copies of MultiObject blocks share no
 configuration with their original

---
 dessia_common/workflow/blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 2cd819d..1bca845 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -16,6 +16,7 @@ from dessia_common.typings import (JsonSerializable, MethodType, ClassMethodType
 from dessia_common.files import StringFile, BinaryFile, generate_archive
 from dessia_common.utils.helpers import (concatenate, full_classname, get_python_class_from_class_name,
                                          get_in_object_from_path)
+from dessia_common.utils.copy import deepcopy_value
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
@@ -956,7 +957,8 @@ class MultiObject(Display):
         self.inputs[0].name = "Sequence"
 
     def __deepcopy__(self, memo=None):
-        return MultiObject(selector_name=self.selector.name, configurations=list(self.configurations),
+        configurations = deepcopy_value(self.configurations, memo={} if memo is None else memo)
+        return MultiObject(selector_name=self.selector.name, configurations=configurations,
                            load_by_default=self.load_by_default, name=self.name, position=self.position)
 
     def equivalent(self, other: 'MultiObject'):
-- 
2.43.0


From 90a227069ca032587644e478977a94b20dd73c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 47/58] fix: copies of workflows share no position with their
 original

---
 dessia_common/workflow/blocks.py | 10 ++++++----
 dessia_common/workflow/core.py   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 1bca845..5107f51 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -862,7 +862,8 @@ class MultiPlot(Display):
 
     def __deepcopy__(self, memo=None):
         return MultiPlot(selector_name=self.selector.name, attributes=list(self.attributes),
-                         load_by_default=self.load_by_default, name=self.name, position=self.position)
+                         load_by_default=self.load_by_default, name=self.name,
+                         position=deepcopy_value(self.position, {} if memo is None else memo))
 
     def equivalent(self, other):
         """ Return whether if the block is equivalent to the other given. """
@@ -957,9 +958,10 @@ class MultiObject(Display):
         self.inputs[0].name = "Sequence"
 
     def __deepcopy__(self, memo=None):
-        configurations = deepcopy_value(self.configurations, memo={} if memo is None else memo)
-        return MultiObject(selector_name=self.selector.name, configurations=configurations,
-                           load_by_default=self.load_by_default, name=self.name, position=self.position)
+        memo = {} if memo is None else memo
+        return MultiObject(selector_name=self.selector.name, configurations=deepcopy_value(self.configurations, memo),
+                           load_by_default=self.load_by_default, name=self.name,
+                           position=deepcopy_value(self.position, memo))
 
     def equivalent(self, other: 'MultiObject'):
         """ Return whether if the block is equivalent to the other given. """
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1161350..d9a8d69 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -560,7 +560,7 @@ class Workflow(Block):
         # User configuration of variables
         for variable, copied_variable in zip(self.variables, workflow.variables):
             copied_variable.label = variable.label
-            copied_variable.position = variable.position
+            copied_variable.position = deepcopy_value(variable.position, memo)
         for input_, copied_input in zip(self.inputs, workflow.inputs):
             copied_input.default_value = deepcopy_value(input_.default_value, memo) if input_.has_default_value \
                 else UNDEFINED
-- 
2.43.0


From 2fd95b583c62bebdb16fd8a684f8c822a0f3ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 48/58] fix: a file held twice is copied once

---
 dessia_common/utils/copy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index bf8f76e..016830b 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -47,7 +47,10 @@ def deepcopy_value(value, memo):
         return store_memo(value, copied_value, memo)
 
     if isinstance(value, (dessia_common.files.BinaryFile, dessia_common.files.StringFile)):
-        return value.copy()
+        memo_value = search_memo(value, memo)
+        if memo_value is not None:
+            return memo_value
+        return store_memo(value, value.copy(), memo)
 
     if hasattr(value, '__deepcopy__'):
         memo_value = search_memo(value, memo)
-- 
2.43.0


From 8a9be9ffb439b6293bf807d68303fbf1f82abf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:54 +0000
Subject: [PATCH 49/58] fix: steps of a copied workflow have their own display
 settings

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d9a8d69..26ca82d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -4,6 +4,7 @@
 
 import ast
 import time
+from copy import deepcopy
 import datetime
 import uuid
 from functools import cached_property
@@ -574,7 +575,7 @@ class Workflow(Block):
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-        copied_step.display_setting = step.display_setting
+        copied_step.display_setting = deepcopy(step.display_setting)
         return copied_step
 
     def copy_pipe(self, copied_workflow: 'Workflow', pipe: Pipe) -> Pipe:
-- 
2.43.0


From 8b1588fb5b1b8fbc6667fa761325280b805e97b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 50/58] fix: the blocks upstream of a workflow's output are
 walked once each

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 26ca82d..36099a3 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -892,10 +892,11 @@ class Workflow(Block):
             block_upstreams = []
             for block in output_upstreams:
                 block_upstreams.extend(self.upstream_blocks(block))
-            output_upstreams = block_upstreams
+            output_upstreams = []
             for candidate in block_upstreams:
                 if candidate not in runtime_blocks:
                     runtime_blocks.append(candidate)
+                    output_upstreams.append(candidate)
             i += 1
         return runtime_blocks
 
-- 
2.43.0


From 118761e2bd63f4fbc801d725fa0507905c4154e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:16 +0000
Subject: [PATCH 51/58] fix: a finished run has its own record of evaluated
 blocks

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 36099a3..ebfb091 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2115,7 +2115,7 @@ class WorkflowState(DessiaObject):
         if self.progress == 1:
             values = {p: self.values[p] for p in self.workflow.pipes if p in self.values}
             return WorkflowRun(workflow=self.workflow, input_values=self.input_values, output_value=self.output_value,
-                               values=values, activated_items=self.activated_items, log=self.log,
+                               values=values, activated_items=dict(self.activated_items), log=self.log,
                                execution_info=self.execution_info, name=name)
         raise ValueError('Workflow not completed')
 
-- 
2.43.0


From 4c179ded4ec922cda663c66dc54355655fb317c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 52/58] fix: keys holding a path separator are escaped in the
 paths of references

---
 dessia_common/serialization.py | 14 +++++++-------
 dessia_common/utils/helpers.py | 11 ++++++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index b245762..9c00c19 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -16,7 +16,7 @@ import dessia_common.errors as dc_err
 from dessia_common.files import StringFile, BinaryFile
 import dessia_common.utils.types as dcty
 from dessia_common.utils.helpers import (full_classname, get_python_class_from_class_name, is_sequence,
-                                         get_in_object_from_path, set_in_object_from_path)
+                                         get_in_object_from_path, set_in_object_from_path, path_segment)
 from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, JsonSerializable
 from dessia_common.measures import Measure
@@ -218,17 +218,17 @@ def serialize_dict_with_pointers(dict_, memo, path, id_method, id_memo):
             other_keys.append(key)
 
     for key in other_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_with_pointers(dict_[key], memo=memo, path=value_path,
                                                              id_memo=id_memo)
     # Handle sequence & dictionaries afterwards
     for key in seq_attrs_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_sequence_with_pointers(dict_[key], memo=memo, path=value_path,
                                                                       id_method=id_method, id_memo=id_memo)
 
     for key in dict_attrs_keys:
-        value_path = f'{path}/{key}'
+        value_path = f'{path}/{path_segment(key)}'
         serialized_dict[key], memo = serialize_dict_with_pointers(dict_[key], memo=memo, path=value_path,
                                                                   id_method=id_method, id_memo=id_memo)
 
@@ -342,7 +342,7 @@ def dict_to_object(dict_, class_=None, force_generic: bool = False, global_dict=
         else:
             annotation = None
 
-        key_path = f'{path}/{key}'
+        key_path = f'{path}/{path_segment(key)}'
 
         if key_path in pointers_memo:
             subobjects[key] = pointers_memo[key_path]
@@ -525,7 +525,7 @@ def find_references_dict(dict_, path):
     references = []
     for key, value in dict_.items():
         if not dcty.isinstance_base_types(value):
-            path_value = f'{path}/{key}'
+            path_value = f'{path}/{path_segment(key)}'
             refs_value = find_references(value, path=path_value)
             references.extend(refs_value)
     return references
@@ -722,7 +722,7 @@ def pointer_graph_elements_dict(dict_, path='#'):
     nodes = []
     for key, value in dict_.items():
         if not dcty.isinstance_base_types(value):
-            path_value = f'{path}/{key}'
+            path_value = f'{path}/{path_segment(key)}'
             value_nodes, value_edges = pointer_graph_elements(value, path=path_value)
             # if value_nodes or value_edges:
             nodes.append(path_value)
diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 513c6d3..98b39a5 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -107,6 +107,11 @@ def is_tuple(obj) -> bool:
     return obj.__class__ == tuple
 
 
+def path_segment(key) -> str:
+    """ Segment of a path that stands for given key, in which separators are escaped as in JSON pointers. """
+    return str(key).replace('~', '~0').replace('/', '~1')
+
+
 def extract_segment_from_object(object_, segment: str):
     """ Try all ways to get an attribute (segment) from an object that can of numerous types. """
     if is_sequence(object_):
@@ -118,6 +123,9 @@ def extract_segment_from_object(object_, segment: str):
             raise ExtractionError(message_error) from err
 
     if isinstance(object_, dict):
+        key = segment.replace('~1', '/').replace('~0', '~')
+        if key in object_:
+            return object_[key]
         if segment in object_:
             return object_[segment]
 
@@ -188,6 +196,7 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
-        last_object[last_segment] = value
+        key = last_segment.replace('~1', '/').replace('~0', '~')
+        last_object[key if key in last_object else last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 6f5081dc989ecdf704342ec18646bfea32433b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 53/58] fix: copies keep keyword-only arguments

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 4c7a5a8..3df31cf 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -339,7 +339,7 @@ class DessiaObject(SerializableObject):
             _fullargsspec_cache[class_name] = class_argspec
 
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
                 if hasattr(value, '__copy__'):
@@ -360,7 +360,7 @@ class DessiaObject(SerializableObject):
         if memo is None:
             memo = {}
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 dict_[arg] = deepcopy_value(getattr(self, arg), memo=memo)
         return self.__class__(**dict_)
-- 
2.43.0


From 2916470cfc0d3df793f400b32749bdbdd5db73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 54/58] fix: paragraphs and table rows holding three dashes are
 kept in docx documents

---
 dessia_common/document_generator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 4d0814a..bfc6688 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -278,7 +278,7 @@ class DocxWriter:
         """
         elements, headings = [], []
         table_pattern = re.compile(r'^\|.*\|$')
-        horizontal_line_pattern = re.compile(r'^\s*\|?\s*-+\s*\|?\s*(-+\s*\|?)*\s*$')
+        separator_pattern = re.compile(r'^[\s|:-]*---[\s|:-]*$')
 
         for line in markdown_text.split('\n'):
             line = line.strip()
@@ -287,14 +287,15 @@ class DocxWriter:
                     headings.append(Heading.from_markdown(line))
                     elements.append(Paragraph.from_markdown(markdown_text=line))
 
-                elif table_pattern.match(line) and not horizontal_line_pattern.match(line):
+                elif separator_pattern.match(line):
+                    continue
+
+                elif table_pattern.match(line):
                     row = line.strip('|').split('|')
-                    if '---' not in line:
-                        elements.append(Table(rows=[row]))
+                    elements.append(Table(rows=[row]))
 
                 else:
-                    if '---' not in line:
-                        elements.append(Paragraph.from_markdown(markdown_text=line))
+                    elements.append(Paragraph.from_markdown(markdown_text=line))
         return headings, elements
 
     @classmethod
-- 
2.43.0


From abd1349d33c0f0ceb54a17099b98773ffff31182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 55/58] fix: cells of an excel file are read from the rows they
 refer to

---
 dessia_common/excel_reader.py | 43 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 97e3cad..cbb55b8 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -140,34 +140,45 @@ class ExcelReader:
         Updates attribute values based on the provided cell and values.
 
         - Depending on the data type of the cell it returns
-          - For 'Dict' type: a dictionary with keys extracted from the cell
+          - For 'Dict' type: a dictionary with keys extracted from the paths of the targeted sheet
             and replaced values from the 'values' parameter.
           - For other types (excluding 'List', 'Set', 'Tuple'): Replaces the values with
-            the first element of 'values' if 'values' is a list and 'cell.value' does not
-            contain any of the container types.
+            the element of 'values' read on the row that is targeted by the hyperlink, if 'values' is a list
+            and 'cell.value' does not contain any of the container types.
           - Otherwise, 'values' itself.
         """
         container = ["Dict", "List", "Set", "Tuple"]
         target = self.get_location(cell)
-        dict_keys = []
         if "Dict" in cell.value:
-            actual_value = {}
-            sheet = self.workbook[target]
-            column = sheet["A"]
-            for row in column[3:]:
-                dict_keys.append(row.value.split('.')[1])
-
-            for key, value in zip(dict_keys, values):
-                actual_value[key] = value
-
-            return actual_value
+            return self.get_attribute_values(cell, values, self.workbook[target[0]])
 
         if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
-            actual_value = values[0]
+            row_number = int(target[1][1:])
+            actual_value = values[max(row_number - 4, 0)]
         else:
-            actual_value = values
+            attribute_values = self.get_attribute_values(cell, values, self.workbook[target[0]])
+            elements = [value for key, value in attribute_values.items() if key.isdigit()]
+            # An object that is also found elsewhere may be written with another path
+            actual_value = elements if str(len(elements)) in cell.value.split() else values
         return actual_value
 
+    @staticmethod
+    def get_attribute_values(cell, values, sheet) -> Dict[str, Any]:
+        """
+        Get the values of a sheet whose path tells that they belong to the attribute written in given cell.
+
+        :param cell: The cell containing the attribute.
+        :param values: Objects of the sheet, in order.
+        :param sheet: The sheet that is targeted by the hyperlink of the cell.
+
+        :return: A dictionary of the values, by their key (or index) in the attribute.
+        """
+        object_path = cell.parent.cell(row=cell.row, column=1).value
+        attribute = cell.parent.cell(row=3, column=cell.column).value
+        prefix = f"{object_path}.{attribute}." if object_path else f"{attribute}."
+        paths = [str(path_cell.value) for path_cell in sheet["A"][3:]]
+        return {path[len(prefix):]: value for path, value in zip(paths, values) if path.startswith(prefix)}
+
     @staticmethod
     def get_data(values: List[T], attributes: List[str], init_attributes: List[str]) -> Dict[str, T]:
         """
-- 
2.43.0


From b348c7f30427a09cd20c380111028935cca76d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 56/58] fix: unlocked inputs of nested workflows stay unlocked
 once copied or restored

---
 dessia_common/workflow/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index ebfb091..7e72f5c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -125,6 +125,8 @@ class Variable(DessiaObject):
         locked = dict_.get("locked")
         if locked:
             self.lock()
+        elif locked is not None:
+            self.unlock()
 
     @property
     def has_default_value(self):
@@ -567,6 +569,8 @@ class Workflow(Block):
                 else UNDEFINED
             if input_.locked:
                 copied_input.lock()
+            else:
+                copied_input.unlock()
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 77d48e385711bbead603a82fe379272e340af885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:22 +0000
Subject: [PATCH 57/58] fix: export formats of a workflow state can be found
 from their selector

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 7e72f5c..c32dd33 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2134,7 +2134,7 @@ class WorkflowState(DessiaObject):
     def export_format_from_selector(self, selector: str):
         """ Get Workflow State format from given selector. """
         for export_format in self.workflow.blocks_export_formats:
-            if export_format["selector"] == selector:
+            if export_format.selector == selector:
                 return export_format
         raise ValueError(f"No block defines an export with the selector '{selector}'")
 
-- 
2.43.0


From fbc3d887fc1a144af1b1c51aaa6f686d85b74948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:29 +0000
Subject: [PATCH 58/58] fix: every row of an excel file is read with the rows
 it refers to

Rows of a sheet that has several ones were instantiated without the elements of their containers, and only for one
level; order of sheets could also make reading fail.
---
 dessia_common/excel_reader.py | 179 ++++++++++------------------------
 1 file changed, 49 insertions(+), 130 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index cbb55b8..11086d8 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -3,6 +3,7 @@
 """ ExcelReader for DessiaObject. """
 
 import inspect
+import re
 from ast import literal_eval
 from typing import Dict, List, Optional, Any, Tuple, TypeVar
 
@@ -135,49 +136,51 @@ class ExcelReader:
             raise ValueError(f"The sheet '{sheet_name}' referenced by the hyperlink does not exist.")
         return sheet_name, target[1]
 
-    def update_attribute_values(self, cell, values):
+    def read_cell(self, cell, extracted_datas, objects):
         """
-        Updates attribute values based on the provided cell and values.
-
-        - Depending on the data type of the cell it returns
-          - For 'Dict' type: a dictionary with keys extracted from the paths of the targeted sheet
-            and replaced values from the 'values' parameter.
-          - For other types (excluding 'List', 'Set', 'Tuple'): Replaces the values with
-            the element of 'values' read on the row that is targeted by the hyperlink, if 'values' is a list
-            and 'cell.value' does not contain any of the container types.
-          - Otherwise, 'values' itself.
+        Get the value of a cell that refers to other rows of the workbook.
+
+        - For 'Dict' type: a dictionary with keys extracted from the paths of the targeted rows.
+        - For other containers ('List', 'Set', 'Tuple'): a list of the objects of the targeted rows.
+        - Otherwise, the object of the row that is targeted by the hyperlink.
         """
-        container = ["Dict", "List", "Set", "Tuple"]
-        target = self.get_location(cell)
-        if "Dict" in cell.value:
-            return self.get_attribute_values(cell, values, self.workbook[target[0]])
-
-        if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
-            row_number = int(target[1][1:])
-            actual_value = values[max(row_number - 4, 0)]
+        sheet_title, address = self.get_location(cell)
+        container = re.fullmatch(r"(Dict|List|Set|Tuple)(?: of (?:(\d+) )?\w+)?", str(cell.value))
+        if not container:
+            return self.read_row(sheet_title, max(int(address[1:]) - 4, 0), extracted_datas, objects)
+
+        type_, size = container.groups()
+        rows = self.get_attribute_rows(cell, self.workbook[sheet_title])
+        if type_ == "Dict":
+            # Values of the dictionary may have attributes of their own class
+            rows = {key: row for key, row in rows.items() if not any(key.startswith(f"{other}.") for other in rows)}
         else:
-            attribute_values = self.get_attribute_values(cell, values, self.workbook[target[0]])
-            elements = [value for key, value in attribute_values.items() if key.isdigit()]
-            # An object that is also found elsewhere may be written with another path
-            actual_value = elements if str(len(elements)) in cell.value.split() else values
-        return actual_value
+            all_rows = list(extracted_datas[sheet_title].data)
+            rows = {key: row for key, row in rows.items() if key.isdigit()}
+            if size in [None, str(len(all_rows))] and len(rows) != len(all_rows):
+                # An object that is also found elsewhere may be written with another path
+                rows = dict(enumerate(all_rows))
+        if size not in [None, str(len(rows))]:
+            raise ValueError(f"Elements of '{cell.value}' cannot all be found in sheet '{sheet_title}'.")
+
+        values = {key: self.read_row(sheet_title, row, extracted_datas, objects) for key, row in rows.items()}
+        return values if type_ == "Dict" else list(values.values())
 
     @staticmethod
-    def get_attribute_values(cell, values, sheet) -> Dict[str, Any]:
+    def get_attribute_rows(cell, sheet) -> Dict[str, int]:
         """
-        Get the values of a sheet whose path tells that they belong to the attribute written in given cell.
+        Get the rows of a sheet whose path tells that they belong to the attribute written in given cell.
 
         :param cell: The cell containing the attribute.
-        :param values: Objects of the sheet, in order.
         :param sheet: The sheet that is targeted by the hyperlink of the cell.
 
-        :return: A dictionary of the values, by their key (or index) in the attribute.
+        :return: A dictionary of the positions of the rows, by their key (or index) in the attribute.
         """
         object_path = cell.parent.cell(row=cell.row, column=1).value
         attribute = cell.parent.cell(row=3, column=cell.column).value
         prefix = f"{object_path}.{attribute}." if object_path else f"{attribute}."
         paths = [str(path_cell.value) for path_cell in sheet["A"][3:]]
-        return {path[len(prefix):]: value for path, value in zip(paths, values) if path.startswith(prefix)}
+        return {path[len(prefix):]: row for row, path in enumerate(paths) if path.startswith(prefix)}
 
     @staticmethod
     def get_data(values: List[T], attributes: List[str], init_attributes: List[str]) -> Dict[str, T]:
@@ -211,90 +214,27 @@ class ExcelReader:
 
         return object_
 
-    def instantiate_main_object(self, instantiated_objects, extracted_data: ExcelDataExtract, key: str):
+    def read_row(self, sheet_title: str, row: int, extracted_datas: Dict[str, ExcelDataExtract], objects: Dict):
         """
-        Instantiate main objects based on provided values and attributes.
+        Instantiate the object of a row, and the ones it refers to.
 
-        :param instantiated_objects: Dictionary containing instantiated objects.
-        :param key: Key to identify the instantiated objects.
-        :param extracted_data: Object containing module name, class name, and attributes.
+        :param sheet_title: Title of the sheet the row belongs to.
+        :param row: Position of the row, from the first one that contains data.
+        :param extracted_datas: Information extracted from the sheets of the workbook.
+        :param objects: Objects that are already instantiated, by sheet and row. None while they are being so.
 
-        :return: Updated dictionary of instantiated objects.
+        :return: The object. It is instantiated only once, however many cells refer to it.
         """
-        objects = []
-
-        value_set = list(extracted_data.data.values())[0]
-        for index, value in enumerate(value_set):
-            if isinstance(value, openpyxl.cell.cell.Cell):
-                replaced_value = instantiated_objects[self.get_location(value)[0]]
-                value_set[index] = self.update_attribute_values(value, replaced_value)
-
-        objects.append(self.create_object(extracted_data, value_set))
-        instantiated_objects[key] = objects
-        return instantiated_objects
-
-    def process_sub_objects(self, cell: openpyxl.cell.cell.Cell, workbook: openpyxl.Workbook):
-        """
-        Process sub-objects based on cell data.
-
-        :param cell: The cell containing data.
-        :param workbook: The workbook containing the cell.
-
-        :return: object or any. The instantiated sub-object or original cell value.
-        """
-        if isinstance(cell, openpyxl.cell.cell.Cell):
-            sheet_title, row_target = self.get_location(cell)
-            sub_module_name = workbook[sheet_title]["A2"].value
-            sub_class_name = workbook[sheet_title]["B2"].value
-            sheet_target = workbook[sheet_title]
-            sub_attributes = list(sheet_target.iter_rows(min_row=3, max_row=3, min_col=2, values_only=True))[0]
-
-            moment_values = [c.value for c in sheet_target[int(row_target[1:])][1:]]
-            extracted_data = ExcelDataExtract(class_module=sub_module_name, class_name=sub_class_name,
-                                              attributes=sub_attributes, data=None)
-
-            return self.create_object(extracted_data, moment_values)
-        return cell
-
-    def process_multiple_hyperlink_rows(self, instantiated_objects: Dict, extracted_data: ExcelDataExtract, key: str):
-        """
-        Process multiple rows in a sheet, each representing an object with hyperlinks.
-
-        :param instantiated_objects: Dictionary containing instantiated objects.
-        :param key: Key to associate with the list of instantiated objects.
-        :param extracted_data: Object containing information to process.
-
-        :return: Updated dictionary of instantiated objects.
-        """
-        objects = []
-        for value_set in (extracted_data.data.values()):
-            sub_values = [self.process_sub_objects(cell, self.workbook) for cell in value_set]
-            objects.append(self.create_object(extracted_data, sub_values))
-
-        instantiated_objects[key] = objects
-        return instantiated_objects
-
-    def process_single_hyperlink_row(self, instantiated_objects: Dict, extracted_data: ExcelDataExtract, key: str):
-        """
-        Process a single row in a sheet representing an object with hyperlinks.
-
-        :param instantiated_objects: Dictionary containing instantiated objects.
-        :param key: Key to associate with the list of instantiated objects.
-        :param extracted_data: Object containing information to process.
-
-        :return: Updated dictionary of instantiated objects.
-        """
-        objects = []
-        value_set = list(extracted_data.data.values())[0]
-        for k, cell in enumerate(value_set):
-            if isinstance(cell, openpyxl.cell.cell.Cell):
-                val_replace = instantiated_objects[self.get_location(cell)[0]]
-                value_set[k] = self.update_attribute_values(cell, val_replace)
-
-        objects.append(self.create_object(extracted_data, value_set))
-
-        instantiated_objects[key] = objects
-        return instantiated_objects
+        key = (sheet_title, row)
+        if key not in objects:
+            objects[key] = None
+            extracted_data = extracted_datas[sheet_title]
+            value_set = [self.read_cell(value, extracted_datas, objects)
+                         if isinstance(value, openpyxl.cell.cell.Cell) else value for value in extracted_data.data[row]]
+            objects[key] = self.create_object(extracted_data, value_set)
+        if objects[key] is None:
+            raise ValueError(f"The object at row {row + 4} of sheet '{sheet_title}' refers to itself.")
+        return objects[key]
 
     def process_simple_sheet(self, instantiated_objects: Dict, extracted_data: ExcelDataExtract, key: str):
         """
@@ -356,29 +296,8 @@ class ExcelReader:
 
         :return: The instantiated object obtained from the main sheet's data.
         """
-        instantiated_objects = {}
         data_structure = self.process_workbook()
-        stack = list(data_structure.extracted_datas.items())
-
-        while stack:
-            key, extracted_data = stack.pop()
-            if key == self.main_sheet:
-                instantiated_objects = self.instantiate_main_object(instantiated_objects, extracted_data, key)
-                break
-
-            is_cell_instance = any((any(isinstance(cell_value, openpyxl.cell.cell.Cell) for cell_value in val) for val
-                                    in extracted_data.data.values()))
-            if is_cell_instance:
-                nb_objects_in_sheet = len(extracted_data.data.keys())
-                if nb_objects_in_sheet > 1:
-                    instantiated_objects = self.process_multiple_hyperlink_rows(instantiated_objects,
-                                                                                extracted_data, key)
-
-                else:
-                    instantiated_objects = self.process_single_hyperlink_row(instantiated_objects, extracted_data, key)
-            else:
-                instantiated_objects = self.process_simple_sheet(instantiated_objects, extracted_data, key)
-        return instantiated_objects[self.main_sheet][0]
+        return self.read_row(self.main_sheet, 0, data_structure.extracted_datas, {})
 
     def process_workbook_catalog(self) -> ExcelDatasExtracted:
         """
-- 
2.43.0

