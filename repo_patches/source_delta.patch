From 865d822cae41742f77b356258152f0794f83f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 001/119] fix: keep plugin functions bound to the _ttp_ of
 their own parser object

Plugin modules are shared by all ttp objects of a process, module wide
_ttp_ was overwritten by the object that loaded the module last, so that
an earlier object used variables, lookups and macros of a later one.
---
 ttp/ttp.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..bbf2b7a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -26,6 +26,21 @@ TTP LAZY IMPORT SYSTEM
 """
 
 
+class _BoundFunction:
+    """Callable that gives plugin function ``_ttp_`` dictionary of the TTP object
+    this function was loaded for. Plugin modules are shared by all TTP objects of
+    the process, hence module wide ``_ttp_`` must be set for each call.
+    """
+
+    def __init__(self, function, _ttp_):
+        self.function = function
+        self._ttp_ = _ttp_
+
+    def __call__(self, *args, **kwargs):
+        self.function.__globals__["_ttp_"] = self._ttp_
+        return self.function(*args, **kwargs)
+
+
 class CachedModule:
     """Class that contains name of the function and path to module/file
     that contains that function, on first call to this class, function
@@ -55,7 +70,9 @@ class CachedModule:
             _name_map_ = {}
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
-            self._ttp_[self.parent_dir][name] = getattr(module, func_name)
+            self._ttp_[self.parent_dir][name] = _BoundFunction(
+                getattr(module, func_name), self._ttp_
+            )
 
     def __call__(self, *args, **kwargs):
         # this method invoked on CachedModule class call, triggering function import
@@ -797,7 +814,9 @@ class ttp:
         name = name if name else fun.__name__
         if add_ttp:
             fun.__globals__["_ttp_"] = self._ttp_
-        self._ttp_[scope][name] = fun
+            self._ttp_[scope][name] = _BoundFunction(fun, self._ttp_)
+        else:
+            self._ttp_[scope][name] = fun
         # save custom function separately to pass on to multiprocessing
         # for updating _ttp_ dictionary on reinitialization
         self._ttp_.setdefault("_custom_functions_", {}).setdefault(scope, {})[
-- 
2.43.0


From f6d44e01691a4af886cb56969a5da1684b8a669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 002/119] fix: multi process worker lost built-in functions of
 the scopes with custom functions

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bbf2b7a..73a88ba 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -853,7 +853,8 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 6a8b10e8fbfd85d40cf99b29410978f8f084c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 003/119] fix: multi process parsing hung on lookups in results
 of other templates and groups

Workers had no reference to the templates these functions search, failed
with an exception and the parent waited for their results forever.
---
 ttp/ttp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 73a88ba..6d9c410 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -489,6 +489,8 @@ class ttp:
                     macro_text=template.macro_text,
                     custom_functions=self._ttp_.get("_custom_functions_", {}),
                     dynamic_path_key_to_int=self._ttp_["dynamic_path_key_to_int"],
+                    template_obj=template,
+                    ttp_object=self,
                 )
                 for i in range(num_processes)
             ]
@@ -850,12 +852,16 @@ class _worker(Process):
         macro_text,
         custom_functions,
         dynamic_path_key_to_int,
+        template_obj,
+        ttp_object,
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
+        self._ttp_["template_obj"] = template_obj
+        self._ttp_["ttp_object"] = ttp_object
         self.task_queue = task_queue
         self.results_queue = results_queue
         self.macro_text = macro_text
-- 
2.43.0


From d4d7bb3b5928005ac8f6096fa1a318d47c658ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 004/119] fix: multi process parsing waited forever when
 parsing of an item failed

---
 ttp/ttp.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6d9c410..dd13d23 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -510,9 +510,15 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
+            errors = []
             for i in range(num_jobs):
                 result = results_queue.get()
-                template.form_results(result)
+                if isinstance(result, Exception):
+                    errors.append(result)
+                else:
+                    template.form_results(result)
+            if errors:
+                raise errors[0]
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -893,15 +899,19 @@ class _worker(Process):
             if next_task is None:
                 self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                result = self.parserObj.main_results
+            except Exception as e:
+                # send error to the main process, otherwise it waits forever
+                result = RuntimeError("{}: {}".format(type(e).__name__, e))
             # put results in the queue and finish task
             self.task_queue.task_done()
             self.results_queue.put(result)
-- 
2.43.0


From 94bf06aada3f854d8c3c9ca30fe5657debbf2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 005/119] fix: custom functions with add_ttp used _ttp_ of the
 main process in multi process mode

---
 ttp/ttp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index dd13d23..367404e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -863,6 +863,7 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
+        self.custom_functions = custom_functions
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
@@ -874,6 +875,11 @@ class _worker(Process):
         self.parserObj = _parser_class(lookups, vars, groups, _ttp_=self._ttp_)
 
     def load_functions(self):
+        # custom functions should use _ttp_ dictionary of this process
+        for functions in self.custom_functions.values():
+            for function in functions.values():
+                if "_ttp_" in getattr(function, "__globals__", {}):
+                    function.__globals__["_ttp_"] = self._ttp_
         # load macro from text
         funcs = {}
         # extract macro with all the __builtins__ provided
-- 
2.43.0


From aa48cdc6c6e05efb14ed3846767adeae22437341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 006/119] fix: to_float raised ValueError for text that is not
 a number

---
 ttp/match/to.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..01aeddd 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -26,9 +26,9 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
+            "ttp.to_float: failed to convert value '{}' to float".format(data)
         )
         return data, None
 
-- 
2.43.0


From e0b7c594f135cfb34a7f5a5b4a2450995b5fa9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 007/119] fix: unrange failed for open ended and non numeric
 ranges

---
 ttp/match/unrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 3a5d452..06b5d8b 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -19,10 +19,10 @@ def unrange(data, rangechar, joinchar):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
         if result:
-            start_int = int(result[-1])
             try:
+                start_int = int(result[-1])
                 end_int = int(item_split[0])
-            except ValueError as e:
+            except (ValueError, IndexError) as e:
                 log.error(
                     "ttp.match.unrange: Unrange failed, data '{}', rangechar '{}', joinchar '{}', error: {}".format(
                         data, rangechar, joinchar, e
-- 
2.43.0


From 88f2de450caa00384077fba9aef7da5de82f93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 008/119] fix: append and prepend ignored global variables

---
 ttp/match/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..734b8d6 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -62,7 +62,7 @@ def append(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
@@ -76,7 +76,7 @@ def prepend(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-- 
2.43.0


From 17a1f87ae18fbcd3eeaadb3218171dc833a5aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 009/119] fix: template with no text after nested group closing
 tag failed to load

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 367404e..0c839bb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1947,7 +1947,7 @@ class _group_class:
                 )
             )
             # get regexes from tail
-            if group.tail.strip():
+            if group.tail and group.tail.strip():
                 self.get_regexes(data=group.tail, tail=True)
 
     def set_runs(self):
-- 
2.43.0


From 5de01a25ec0421e3f7200ee458a4e4b74359bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 010/119] fix: dynamic path values with backslashes were
 altered or failed

---
 ttp/ttp.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0c839bb..1e8aa15 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3253,23 +3253,18 @@ class _results_class:
             match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
             if match:
                 for m in match:
-                    pattern = r"{{\s*" + m + r"\s*}}"
+                    pattern = r"{{\s*" + re.escape(m) + r"\s*}}"
                     if m in self.record["result"]:
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        repl = str(self.dyn_path_cache[m])
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        repl = str(self.variables[m])
                     else:
                         return False
+                    # use function, match can contain '\' special for re.sub
+                    path_item = re.sub(pattern, lambda _: repl, path_item)
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From 79059ac317f1648d2bcf4f79f9e02fabc0da6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 011/119] fix: records shared lists and dictionaries given as
 default or set values

---
 ttp/group/set_.py | 5 ++++-
 ttp/match/set_.py | 6 ++++--
 ttp/ttp.py        | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ttp/group/set_.py b/ttp/group/set_.py
index b1bbea6..102a4a0 100644
--- a/ttp/group/set_.py
+++ b/ttp/group/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -15,5 +17,6 @@ def set_func(data, source, target="_use_source_", default="_no_default_value_"):
     # get target var name:
     if target == "_use_source_":
         target = source
-    data.update({target: source_var_value})
+    # records must not share lists and dictionaries
+    data.update({target: deepcopy(source_var_value)})
     return data, None
diff --git a/ttp/match/set_.py b/ttp/match/set_.py
index fc53481..a58b112 100644
--- a/ttp/match/set_.py
+++ b/ttp/match/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -6,9 +8,9 @@ def set_func(data, value, match_line):
     if data.rstrip() == match_line:
         if isinstance(value, str):
             if value in vars:
-                return vars[value], None
+                return deepcopy(vars[value]), None
             elif value in _ttp_["global_vars"]:
-                return _ttp_["global_vars"][value], None
+                return deepcopy(_ttp_["global_vars"][value]), None
         return value, None
     else:
         return data, False
diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1e8aa15..f7dcda0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3115,7 +3115,7 @@ class _results_class:
             )
         self.record = {
             "result": result,
-            "DEFAULTS": DEFAULTS.copy(),
+            "DEFAULTS": copy.deepcopy(DEFAULTS),
             "PATH": PATH,
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
@@ -3148,7 +3148,7 @@ class _results_class:
             )
         self.record = {
             "result": {},
-            "DEFAULTS": DEFAULTS.copy(),
+            "DEFAULTS": copy.deepcopy(DEFAULTS),
             "PATH": PATH,
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
-- 
2.43.0


From ec41e4f5e22b0a900dd7d46764e6f3f0986c068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 012/119] fix: add_vars modified the dictionary given as vars
 argument

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f7dcda0..0fa0f76 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -248,7 +248,7 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        self.vars = dict(vars or {})  # dictionary of variables to add to each template vars
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 1bccd5a269fd19ea4938676e8a1430df78a96b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 013/119] fix: templates shared macros if any macro was added
 with add_function

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0fa0f76..cb18df1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -965,7 +965,7 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
-- 
2.43.0


From cf3dd86d4194542647225e2093cfed85a6b1b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 014/119] fix: macros added with add_function were not
 available in child templates

---
 ttp/ttp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index cb18df1..732ab28 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -955,6 +955,7 @@ class _template_class:
             "_var_functions_": {},  # dictionary to keep variables with functions such as getters
         }
         self.ttp_vars = ttp_vars  # need to save it to pass to child templates
+        self.ttp_macro = ttp_macro  # need to save it to pass to child templates
         self.vars.update(ttp_vars)
         self.outputs = []  # list that contains global outputs
         self.groups_outputs = []  # list that contains groups specific outputs
@@ -1232,6 +1233,7 @@ class _template_class:
                 template_text=ET.tostring(element, encoding="UTF-8"),
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
+                ttp_macro=self.ttp_macro,
                 name=str(template_index),
                 _ttp_=self._ttp_,
             )
-- 
2.43.0


From 2686071543ee6db208cd9f6ea1e181cf0dab3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 015/119] fix: table formatters with key and dict_to_list
 modified stored results

---
 ttp/output/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..6fdfe49 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,6 +57,8 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
+            # make a copy, source data should not be modified
+            v = v.copy()
             v.update({key_name: k})
             result.append(v)
     elif isinstance(traversed_data, list):
-- 
2.43.0


From 07b5ea49c58a3d207724101830db464cda34dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 016/119] fix: excel formatter lost tab names after the first
 run

---
 ttp/formatters/excel_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..843d90e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -36,7 +36,7 @@ def excel_formatter(data, **kwargs):
     table_tabs = []
     for index, tab_det in enumerate(table):
         tab_name = (
-            tab_det.pop("tab_name")
+            tab_det["tab_name"]
             if "tab_name" in tab_det
             else "Sheet{}".format(index)
         )
-- 
2.43.0


From 44646383262978516d4c03714ce8067666e8869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 017/119] fix: csv formatter did not escape quotes in values

---
 ttp/formatters/csv_formatter.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ttp/formatters/csv_formatter.py b/ttp/formatters/csv_formatter.py
index a5ae61b..adadf5a 100644
--- a/ttp/formatters/csv_formatter.py
+++ b/ttp/formatters/csv_formatter.py
@@ -5,7 +5,6 @@ def csv_formatter(data, **kwargs):
     """Method to dump list of dictionaries into table
     using provided separator, default is comma - ','
     """
-    result = ""
     # form table - list of lists
     table = _ttp_["formatters"]["table"](
         data, **kwargs
@@ -13,12 +12,12 @@ def csv_formatter(data, **kwargs):
     sep = kwargs.get("sep", ",")
     quote = kwargs.get("quote", '"')
     sep = "{q}{s}{q}".format(s=sep, q=quote)
-    row_formatter = "\n{q}{{}}{q}".format(q=quote)
+    rows = []
     # form results:
-    result = "{q}{d}{q}".format(d=sep.join(table[0]), q=quote)
-    for row in table[1:]:
-        try:
-            result += row_formatter.format(sep.join(row))
-        except TypeError:  # might happen if not all values in row are strings
-            result += row_formatter.format(sep.join([str(i) for i in row]))
-    return result
+    for row in table:
+        cells = [str(i) for i in row]
+        # double quotes within values for csv readers to tell them from enclosing quotes
+        if quote:
+            cells = [i.replace(quote, quote * 2) for i in cells]
+        rows.append("{q}{d}{q}".format(d=sep.join(cells), q=quote))
+    return "\n".join(rows)
-- 
2.43.0


From f6369b930625cd1493e0604ce8170fa6df2c191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 018/119] fix: cache file with unexpected content broke loading
 of functions

---
 ttp/ttp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 732ab28..71fd8a5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -106,16 +106,16 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
+                cached_ttp = pickle.load(f)
             # use unpickled _ttp_ dictionary if it of the same python version
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached_ttp["python_major_version"] == version_info.major
+                and cached_ttp.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
+                return cached_ttp
             # rebuilt _ttp_ dictionary as it is of different version
             else:
                 _ttp_ = {
-- 
2.43.0


From 5fb1401531a31863d9804d8fe5e0a73a18e135c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 019/119] fix: grandchildren of a filtered out record were
 saved under the previous record

---
 ttp/ttp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 71fd8a5..2065d18 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2862,6 +2862,8 @@ class _results_class:
                     continue
                 # if parent is ended skip this child group results
                 elif re_["GROUP"].parent_group_id in self.ended_groups:
+                    # end this group too, so that its own children are skipped
+                    self.ended_groups.add(re_["GROUP"].group_id)
                     continue
                 # evaluate results to check if need to un-end ended group
                 elif re_["GROUP"].group_id in self.ended_groups:
-- 
2.43.0


From 2e2c925e18e52b8a99849f0ad4f182718575a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 020/119] fix: null path under a parent without results created
 key with underscore name

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2065d18..4971b00 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2974,7 +2974,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
+            if KEYS[0][0] == "_":
                 if len(KEYS) == 1:
                     return {}
                 else:
-- 
2.43.0


From 224b2dda796536d5fe7c9c9bc04dfa027a6d7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 021/119] fix: integer conversion of path keys lost results
 saved under existing keys

---
 ttp/ttp.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4971b00..c8d22ab 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2920,6 +2920,13 @@ class _results_class:
             "GRP_ID": None,
         }
 
+    def path_item_name(self, item):
+        """Method to return results key for path item, converts it to integer if requested"""
+        name = item[0]
+        if self._ttp_["dynamic_path_key_to_int"] and name.isdigit():
+            return int(name)
+        return name
+
     def value_to_list(self, DATA, PATH, result):
         """recursive function to get value at given PATH and transform it into the list
         Example:
@@ -2933,7 +2940,7 @@ class _results_class:
             transformed DATA with list at given PATH and appended results to it
         """
         if PATH:
-            name = PATH[0][0]
+            name = self.path_item_name(PATH[0])
             # add support for null path
             if name == "_":
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
@@ -2944,7 +2951,7 @@ class _results_class:
                     return DATA
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
-                    name = PATH[0][0]
+                    name = self.path_item_name(PATH[0])
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2979,11 +2986,8 @@ class _results_class:
                     return {}
                 else:
                     _ = KEYS.pop(0)
-            name = KEYS[0][0]
+            name = self.path_item_name(KEYS[0])
             asterisk_count = KEYS[0][1]
-            if self._ttp_["dynamic_path_key_to_int"]:
-                # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
             if asterisk_count == "*":  # if one * at the end - make a list
                 if len(KEYS) == 1:  # if KEYS=[1,2,3,4*], returns {1:{2:{3:{4:[{}]}}}}
                     return {name: []}  # if last item in PATH - return emplty list
@@ -3006,17 +3010,14 @@ class _results_class:
         if PATH == []:
             return ELEMENT  # check if PATH is empty, if so - stop and return ELEMENT
         elif isinstance(ELEMENT, dict):
-            name = PATH[0][0]
-            if self._ttp_["dynamic_path_key_to_int"]:
-                # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+            name = self.path_item_name(PATH[0])
             # add support for null path
             if name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
-                    name = PATH[0][0]
+                    name = self.path_item_name(PATH[0])
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From 6e58606c1f6a5189a1c86aa4d35d7d375863aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 022/119] fix: underscore or non decimal digit in dynamic path
 was not used as a key

---
 ttp/ttp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c8d22ab..60c7bd4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2923,7 +2923,7 @@ class _results_class:
     def path_item_name(self, item):
         """Method to return results key for path item, converts it to integer if requested"""
         name = item[0]
-        if self._ttp_["dynamic_path_key_to_int"] and name.isdigit():
+        if self._ttp_["dynamic_path_key_to_int"] and name and name.isdecimal():
             return int(name)
         return name
 
@@ -2942,7 +2942,7 @@ class _results_class:
         if PATH:
             name = self.path_item_name(PATH[0])
             # add support for null path
-            if name == "_":
+            if name is None:
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
                     if isinstance(DATA, dict):
                         DATA.update(result)
@@ -2981,7 +2981,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0][0] == "_":
+            if KEYS[0][0] is None:
                 if len(KEYS) == 1:
                     return {}
                 else:
@@ -3012,7 +3012,7 @@ class _results_class:
         elif isinstance(ELEMENT, dict):
             name = self.path_item_name(PATH[0])
             # add support for null path
-            if name == "_":
+            if name is None:
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
@@ -3255,6 +3255,10 @@ class _results_class:
         for index, path_item in enumerate(path):
             asterisk_count = len(path_item) - len(path_item.rstrip("*"))
             path_item = path_item.rstrip("*")
+            # null path name is None, match result value can be underscore as well
+            if path_item == "_":
+                path[index] = (None, "")
+                continue
             match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
             if match:
                 for m in match:
-- 
2.43.0


From 450a07297397ee23aaef670d5e8b84a94438c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 023/119] fix: null path inside of a group with null path
 failed

---
 ttp/ttp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 60c7bd4..1195481 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2950,8 +2950,7 @@ class _results_class:
                         DATA[-1].update(result)
                     return DATA
                 else:  # have more path items, need to skip null path,
-                    _ = PATH.pop(0)  # remove null path item to skip it
-                    name = self.path_item_name(PATH[0])
+                    return self.value_to_list(DATA, PATH[1:], result)
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2985,7 +2984,7 @@ class _results_class:
                 if len(KEYS) == 1:
                     return {}
                 else:
-                    _ = KEYS.pop(0)
+                    return self.list_to_dict_fwd(KEYS[1:])
             name = self.path_item_name(KEYS[0])
             asterisk_count = KEYS[0][1]
             if asterisk_count == "*":  # if one * at the end - make a list
@@ -3016,8 +3015,7 @@ class _results_class:
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
-                    _ = PATH.pop(0)  # remove null path item to skip it
-                    name = self.path_item_name(PATH[0])
+                    return self.dict_by_path(PATH[1:], ELEMENT)
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From f93acbbbe44058f42de6a8267116da3e5711f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 024/119] fix: several variables without spaces around the name
 in one dynamic path item

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1195481..abeb007 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3257,7 +3257,7 @@ class _results_class:
             if path_item == "_":
                 path[index] = (None, "")
                 continue
-            match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
+            match = re.findall(r"{{\s*(\S+?)\s*}}", path_item)
             if match:
                 for m in match:
                     pattern = r"{{\s*" + re.escape(m) + r"\s*}}"
-- 
2.43.0


From 4a2e2aa7a07130bae2407c54a69cdbf8077cb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 025/119] fix: greaterthan and lessthan failed for integers and
 non decimal digits

---
 ttp/match/string.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 734b8d6..5a374b1 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -38,15 +38,17 @@ def notdigit(data):
 
 
 def greaterthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) > int(value.strip()):
+    data_digit, value_digit = str(data).strip(), str(value).strip()
+    if data_digit.isdecimal() and value_digit.isdecimal():
+        if int(data_digit) > int(value_digit):
             return data, True
     return data, False
 
 
 def lessthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) < int(value.strip()):
+    data_digit, value_digit = str(data).strip(), str(value).strip()
+    if data_digit.isdecimal() and value_digit.isdecimal():
+        if int(data_digit) < int(value_digit):
             return data, True
     return data, False
 
-- 
2.43.0


From b16b85c410fcc10b17931792dcb28350614dbe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 026/119] fix: group contains discarded results if first
 variable found had default value

---
 ttp/group/contains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..4897a37 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -3,7 +3,8 @@ def contains(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
+                # default value is not a match, other variables can have one
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
-- 
2.43.0


From aeb85e6c3d2a0e39367425b0949d5a46cbf6564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 027/119] fix: group exclude and excludeall ignored matches of
 variables with default values

---
 ttp/group/exclude.py    | 4 +++-
 ttp/group/excludeall.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..b17b45f 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,8 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                # skip default value only, not a match found in data
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..56d6df2 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,9 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                # skip default value only, not a match found in data
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0


From c329ab68f61e2f38d1d1ffcccbae59aed255b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 028/119] fix: unquoted arguments named as ttp internal modules
 were replaced with the modules

---
 ttp/utils/get_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/get_attributes.py b/ttp/utils/get_attributes.py
index a2634f6..64d6042 100644
--- a/ttp/utils/get_attributes.py
+++ b/ttp/utils/get_attributes.py
@@ -59,7 +59,8 @@ def get_attributes(line):
         if options:
             try:
                 args_kwargs = eval(
-                    "_get_args_kwargs({})".format(options), _UndefSubst(globals())
+                    "_get_args_kwargs({})".format(options),
+                    _UndefSubst({"_get_args_kwargs": _get_args_kwargs}),
                 )
             except:
                 exc_type, exc_value, exc_traceback = sys.exc_info()
-- 
2.43.0


From ed478f5c3dd760f24cd037857a0ee2cc5df0dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 029/119] fix: group contains_val failed for numbers

---
 ttp/group/contains_val.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/group/contains_val.py b/ttp/group/contains_val.py
index cc56d53..9792786 100644
--- a/ttp/group/contains_val.py
+++ b/ttp/group/contains_val.py
@@ -4,6 +4,10 @@ def contains_val(data, key, value):
     """
     # try to get value variable from parser specific variables
     value = _ttp_["vars"].get(value, value)
-    if not value in data.get(key, ""):
+    key_value = data.get(key, "")
+    # numbers cannot be searched or searched for as is
+    if isinstance(key_value, (str, int, float)):
+        key_value, value = str(key_value), str(value)
+    if not value in key_value:
         return data, False
     return data, None
-- 
2.43.0


From b21fb4466ad6a36fec25fc73cb7a6f6cb961d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 030/119] fix: defaults and set values were resolved repeatedly
 and from global before input variables

---
 ttp/ttp.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index abeb007..81f7a76 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1965,10 +1965,9 @@ class _group_class:
 
     def update_runs(self, data):
         # func to update runs of the groups using data dictionary
-        for k, v in data.items():
-            for dk, dv in self.runs.items():
-                if dv == k:
-                    self.runs[dk] = v
+        for dk, dv in self.runs.items():
+            if isinstance(dv, str) and dv in data:
+                self.runs[dk] = data[dv]
         # run recursion for children:
         for child in self.children:
             child.update_runs(data)
@@ -2653,10 +2652,9 @@ class _parser_class:
             else:
                 # form a tuple of ({results}, [group.outputs],)
                 grps_unsort_rslts.append((run_re(group, results={}), group.outputs))
-        # update groups runs (group default values) with global variables
-        self.update_groups_runs(self._ttp_["global_vars"])
-        # update groups runs (group default values) with group specific/local variables
-        self.update_groups_runs(self.vars)
+        # update groups runs (group default values) with global variables and with
+        # group specific/local variables, the latter take precedence
+        self.update_groups_runs({**self._ttp_["global_vars"], **self.vars})
 
         # sort results for groups with global outputs
         for group_result in unsort_rslts:
-- 
2.43.0


From ca725f38cf1c0257a69a607deb22b78b4fbaab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 031/119] fix: headers lines with less than three columns
 failed

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 81f7a76..f535c53 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2292,7 +2292,7 @@ class _variable_class:
             # find all headers
             headers = re.findall(r"(\S+\s+|\S+)", self.regex)
             # form columns count
-            columns = len(headers) - 2
+            columns = max(1, len(headers) - 2)
             for attribute in self.attributes:
                 if attribute["name"] == "columns":
                     columns = max(1, int(attribute["args"][0]))
-- 
2.43.0


From 4208ac4473067efd05c99790681e2c12dbcb43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 032/119] fix: headers dropped table rows with cells that
 contain header name

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f535c53..fb9cce9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2330,7 +2330,7 @@ class _variable_class:
             # form sub variables dictionary out of headers
             self.sub_variables = {
                 var.strip(): _variable_class(
-                    "{var} | strip | exclude({var})".format(var=var.strip()),
+                    "{var} | strip | notequal({var})".format(var=var.strip()),
                     line="",
                     _ttp_=self._ttp_,
                     group=self.group,
-- 
2.43.0


From f5aa4747c53624b5cfc9d0f146bb5315b2ec906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 033/119] fix: joinmatches failed if string was followed by a
 list or number

---
 ttp/ttp.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index fb9cce9..6fc8965 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3179,6 +3179,15 @@ class _results_class:
             # no need to add DEFAULTS for this record, DEFAULTS added by previous group
             self.record["DEFAULTS"] = {}
 
+    def join_values(self, current, new, joinchar):
+        """Method to join two match results in one"""
+        # join strings:
+        if isinstance(current, str) and isinstance(new, str):
+            return current + joinchar + new
+        # combine everything else in a list
+        current = current if isinstance(current, list) else [current]
+        return current + (new if isinstance(new, list) else [new])
+
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
@@ -3197,15 +3206,9 @@ class _results_class:
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
-                    if isinstance(self.record["result"][k], str):
-                        self.record["result"][k] += joinchar + result[k]  # join strings
-                    elif isinstance(self.record["result"][k], list):
-                        if isinstance(result[k], list):
-                            self.record["result"][k] += result[k]  # join lists
-                        else:
-                            self.record["result"][k].append(result[k])  # append to list
-                    else:  # transform result to list and append new result to it
-                        self.record["result"][k] = [self.record["result"][k], result[k]]
+                    self.record["result"][k] = self.join_values(
+                        self.record["result"][k], result[k], joinchar
+                    )
                 else:
                     self.record["result"][k] = result[k]  # if first result
         # if different path - that can happen if we have group ended and result
-- 
2.43.0


From 97b5e79bf12ca9b946462c783851a24718ebbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 034/119] fix: joinmatches lost values collected before child
 groups

---
 ttp/ttp.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6fc8965..7db88e6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3086,6 +3086,10 @@ class _results_class:
             copied = E[-1].copy()
         elif isinstance(E, dict):
             copied = E.copy()
+        # matches already saved have to be joined with new ones, unless it is default value
+        for k, (joinchar, defaults) in self.record.get("joins", {}).items():
+            if k in copied and k in result_data and copied[k] != defaults.get(k):
+                result_data[k] = self.join_values(copied[k], result_data[k], joinchar)
         copied.update(result_data)
         return copied
 
@@ -3191,18 +3195,18 @@ class _results_class:
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
+        # retrieve joinchar to use
+        joinchar = "\n"
+        for varname, varvalue in result.items():
+            # check if need to skip vars that were added to results on the go
+            if not varname in REDICT["VARIABLES"]:
+                continue
+            for item in REDICT["VARIABLES"][varname].functions:
+                if item["name"] == "joinmatches":
+                    joinchar = item["args"][0] if item["args"] else joinchar
+                    break
         # if same path - save into self.record
         if self.record["PATH"] == PATH:
-            # retrieve joinchar to use
-            joinchar = "\n"
-            for varname, varvalue in result.items():
-                # check if need to skip vars that were added to results on the go
-                if not varname in REDICT["VARIABLES"]:
-                    continue
-                for item in REDICT["VARIABLES"][varname].functions:
-                    if item["name"] == "joinmatches":
-                        joinchar = item["args"][0] if item["args"] else joinchar
-                        break
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
@@ -3227,6 +3231,11 @@ class _results_class:
             self.record["merge_with_last"] = True
             # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
             self.record["DEFAULTS"] = {}
+        else:
+            return
+        # remember how to join matches if record will be merged with last item in results
+        for k in result.keys():
+            self.record.setdefault("joins", {})[k] = (joinchar, DEFAULTS)
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
-- 
2.43.0


From 5895e9a7838389c5c9061a95d7ca7bafca317a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 035/119] fix: values of dropped record found after child
 groups were merged into previous record or failed parsing

---
 ttp/ttp.py | 60 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 7db88e6..b56e75c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2723,6 +2723,9 @@ class _results_class:
         self.ended_groups = (
             set()
         )  # keeps track of ended groups to not add false matches or filtered results
+        self.dropped_groups = (
+            set()
+        )  # keeps track of groups with last record dropped by group functions
         self.record = {
             "result": {},
             "PATH": [],
@@ -3125,6 +3128,7 @@ class _results_class:
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
         }
+        self.dropped_groups.discard(self.record["GRP_ID"])
 
     def startempty(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3158,6 +3162,31 @@ class _results_class:
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
         }
+        self.dropped_groups.discard(self.record["GRP_ID"])
+
+    def start_tail(self, result, PATH, DEFAULTS, FUNCTIONS, REDICT):
+        """
+        Method to save current results to results structure and start new record for
+        the matches that belong to the group last record, which is in results already
+        """
+        group_id = REDICT["GROUP"].group_id
+        dropped = group_id in self.dropped_groups
+        self.start(
+            result=result,
+            PATH=PATH,
+            DEFAULTS=DEFAULTS,
+            FUNCTIONS=FUNCTIONS,
+            REDICT=REDICT,
+        )
+        # no need to add DEFAULTS for this record, DEFAULTS added by previous group
+        self.record["DEFAULTS"] = {}
+        if dropped:
+            # last record is not in results, have nothing to merge with
+            self.dropped_groups.add(group_id)
+            self.record["dropped"] = True
+        else:
+            # mark new record as needed to be merged with last item in results
+            self.record["merge_with_last"] = True
 
     def add(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3170,18 +3199,7 @@ class _results_class:
         # actually belongs to another already started group, hence need to save
         # directly into results
         elif REDICT["GROUP"].group_id in self.started_groups:
-            # save current results to results structure and start new record
-            self.start(
-                result=result,
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record, DEFAULTS added by previous group
-            self.record["DEFAULTS"] = {}
+            self.start_tail(result, PATH, DEFAULTS, FUNCTIONS, REDICT)
 
     def join_values(self, current, new, joinchar):
         """Method to join two match results in one"""
@@ -3219,18 +3237,7 @@ class _results_class:
         # actually belongs to another already started group, hence need to save
         # directly into results
         elif REDICT["GROUP"].group_id in self.started_groups:
-            # save current results to results structure and start new record by calling self.start
-            self.start(
-                result=result,
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
-            self.record["DEFAULTS"] = {}
+            self.start_tail(result, PATH, DEFAULTS, FUNCTIONS, REDICT)
         else:
             return
         # remember how to join matches if record will be merged with last item in results
@@ -3311,11 +3318,16 @@ class _results_class:
                 self.record["result"], *args, **kwargs
             )
             if flags == False:
+                self.dropped_groups.add(self.record["GRP_ID"])
                 return False
+        # values of dropped record must not be saved or merged with other record
+        if self.record.get("dropped"):
+            return False
         processed_path = self.form_path(self.record["PATH"])
         if processed_path:
             self.record["PATH"] = processed_path
         else:
+            self.dropped_groups.add(self.record["GRP_ID"])
             return False
 
 
-- 
2.43.0


From 576c2d19040362bf0be150846559e99e13cffeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 036/119] fix: joinmatches order of values of different types
 found after child groups

---
 ttp/ttp.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b56e75c..470ba3a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3090,9 +3090,11 @@ class _results_class:
         elif isinstance(E, dict):
             copied = E.copy()
         # matches already saved have to be joined with new ones, unless it is default value
-        for k, (joinchar, defaults) in self.record.get("joins", {}).items():
+        for k, (joinchar, defaults, matches) in self.record.get("joins", {}).items():
             if k in copied and k in result_data and copied[k] != defaults.get(k):
-                result_data[k] = self.join_values(copied[k], result_data[k], joinchar)
+                result_data[k] = copied[k]
+                for match in matches:
+                    result_data[k] = self.join_values(result_data[k], match, joinchar)
         copied.update(result_data)
         return copied
 
@@ -3225,9 +3227,13 @@ class _results_class:
                     break
         # if same path - save into self.record
         if self.record["PATH"] == PATH:
+            joins = self.record.setdefault("joins", {})
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
+                    joins.setdefault(
+                        k, (joinchar, DEFAULTS, [self.record["result"][k]])
+                    )
                     self.record["result"][k] = self.join_values(
                         self.record["result"][k], result[k], joinchar
                     )
@@ -3240,9 +3246,10 @@ class _results_class:
             self.start_tail(result, PATH, DEFAULTS, FUNCTIONS, REDICT)
         else:
             return
-        # remember how to join matches if record will be merged with last item in results
+        # remember matches to join if record will be merged with last item in results
+        joins = self.record.setdefault("joins", {})
         for k in result.keys():
-            self.record.setdefault("joins", {})[k] = (joinchar, DEFAULTS)
+            joins.setdefault(k, (joinchar, DEFAULTS, []))[2].append(result[k])
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
-- 
2.43.0


From be8f6ee918c3aac25d700e9d43d0553c6a3f030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 037/119] fix: replaceall ignored template variables with
 string value

---
 ttp/match/string.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 5a374b1..d55bc66 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -113,6 +113,8 @@ def replaceall(data, *args):
                                 data = data.replace(i, newVal)
                     elif isinstance(oldVal, str):
                         data = data.replace(oldVal, newVal)
+            elif isinstance(vars_[oldValue], str):
+                data = data.replace(vars_[oldValue], new)
         else:
             data = data.replace(oldValue, new)
     return data, None
-- 
2.43.0


From ef5c3f7160cc95dca253ca85947ca1837bc1862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 038/119] fix: join function did not process string match
 results

---
 ttp/match/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index d55bc66..179d911 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -54,7 +54,7 @@ def lessthan(data, value):
 
 
 def join(data, char):
-    if isinstance(data, list):
+    if isinstance(data, (list, str)):
         return char.join(data), None
     else:
         return data, None
-- 
2.43.0


From 226d093b435b837350f7de280e10e4961b9da7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 039/119] fix: to_list nested lists instead of leaving them as
 they are

---
 ttp/match/to.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 01aeddd..729915f 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -8,6 +8,8 @@ def to_str(data):
 
 
 def to_list(data):
+    if isinstance(data, list):
+        return data, None
     return [data], None
 
 
-- 
2.43.0


From f92131a01c0a57bf4ce2e26eefc1462468bdf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 040/119] fix: to_int raised TypeError for lists

---
 ttp/match/to.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 729915f..8bb59d1 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -16,9 +16,9 @@ def to_list(data):
 def to_int(data):
     try:
         return int(data), None
-    except ValueError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: ValueError, failed to convert value '{}' to integer".format(
+            "ttp.to_int: failed to convert value '{}' to integer".format(
                 data
             )
         )
-- 
2.43.0


From ca26a7c46a25dc05d7458bde96623d48a6bc6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 041/119] fix: unrange of single number ranges and text
 starting with range character

---
 ttp/match/unrange.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 06b5d8b..f03074a 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -15,10 +15,10 @@ def unrange(data, rangechar, joinchar):
     if rangechar not in data:
         return data, None
 
-    for item in data.split(rangechar):
+    for index, item in enumerate(data.split(rangechar)):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
-        if result:
+        if index:
             try:
                 start_int = int(result[-1])
                 end_int = int(item_split[0])
@@ -30,6 +30,9 @@ def unrange(data, rangechar, joinchar):
                 )
                 return data, None
             list_of_ints_range = [str(i) for i in list(range(start_int, end_int))]
+            # range of a single number ends where it started
+            if start_int == end_int:
+                item_split = item_split[1:]
             result += list_of_ints_range[1:] + item_split
         else:
             result = item_split
-- 
2.43.0


From 5087ac4657bfa02ece22ae0057a4c2a60c3761dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 042/119] fix: uptimeparse took digits following short year and
 month units for a part of the unit

---
 ttp/match/uptimeparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/uptimeparse.py b/ttp/match/uptimeparse.py
index 9a8e294..6ee2a54 100644
--- a/ttp/match/uptimeparse.py
+++ b/ttp/match/uptimeparse.py
@@ -8,8 +8,8 @@ but code was stripped to provide matching for required time formats only
 
 import re
 
-YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?.?|years?)"
-MONTHS = r"(?P<months>\d+)\s*(?:mos?.?|mths?.?|months?)"
+YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?\.?|years?)"
+MONTHS = r"(?P<months>\d+)\s*(?:mos?\.?|mths?\.?|months?)"
 WEEKS = r"(?P<weeks>[\d.]+)\s*(?:w|wks?|weeks?)"
 DAYS = r"(?P<days>[\d.]+)\s*(?:d|dys?|days?)"
 HOURS = r"(?P<hours>[\d.]+)\s*(?:h|hrs?|hours?)"
-- 
2.43.0


From 9a5fd68c6a48de6ab9229bb7789ece1a7ff4d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 043/119] fix: group to_int truncated floats and converted
 booleans and addresses

---
 ttp/group/to_converters.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ttp/group/to_converters.py b/ttp/group/to_converters.py
index 2a3da45..ab5364d 100644
--- a/ttp/group/to_converters.py
+++ b/ttp/group/to_converters.py
@@ -23,13 +23,14 @@ def to_int(data, *keys, intlist=False):
             continue
 
         # do best effort string to int conversion
-        try:
-            data[k] = int(v)
-        except:
+        if isinstance(v, str):
             try:
-                data[k] = float(v)
+                data[k] = int(v)
             except:
-                pass
+                try:
+                    data[k] = float(v)
+                except:
+                    pass
 
         # convert list of integer strings to list of integers
         if intlist is True and isinstance(data[k], list):
-- 
2.43.0


From d83e81368367352fcd397b20b9be6d2d3cb29ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 044/119] fix: itemize lost zero and empty string items

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 470ba3a..7384ff7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3056,7 +3056,8 @@ class _results_class:
         """Method to save current group results in self.results"""
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list) and result_data:
+        # items can be any values, including zeros and empty strings
+        if isinstance(E, list) and result_data not in ({}, [], None):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E[-1], result_data)
             else:
-- 
2.43.0


From 05fc4cfd31133b37f409ed5da8c986851f92e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 045/119] fix: itemized values were searched for dynamic path
 keys

---
 ttp/ttp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 7384ff7..9b46dbd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3286,7 +3286,10 @@ class _results_class:
             if match:
                 for m in match:
                     pattern = r"{{\s*" + re.escape(m) + r"\s*}}"
-                    if m in self.record["result"]:
+                    # itemized result is a value, not a dictionary of matches
+                    if isinstance(self.record["result"], dict) and (
+                        m in self.record["result"]
+                    ):
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
                     elif m in self.dyn_path_cache:
-- 
2.43.0


From 663a76de17baad0fb3d4d361615f9d31b6a23886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 046/119] fix: lookups shared table data with results and
 failed on values or paths that are not in the table

---
 ttp/group/lookup.py | 16 +++++++++++-----
 ttp/match/lookup.py | 46 +++++++++++++++++++++++----------------------
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..1716ca3 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,5 +1,7 @@
 import logging
 
+from copy import deepcopy
+
 log = logging.getLogger(__name__)
 
 
@@ -26,7 +28,7 @@ def lookup(
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -50,12 +52,16 @@ def lookup(
         return data, None
     # traverse to lookup data
     for i in path:
+        if not isinstance(lookup_data, dict):
+            return data, None
         lookup_data = lookup_data.get(i, {})
-    # perform lookup:
+    # perform lookup, copy is used for results not to share data with lookup table
     try:
-        if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
-    except KeyError:
+        if not isinstance(lookup_data, dict):
+            return data, None
+        found_value = deepcopy(lookup_data[data[key]])
+    except (KeyError, TypeError):
+        # no such a key or value is not hashable
         return data, None
     # decide what action to do with found value
     if add_field:
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..2238850 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,8 +1,19 @@
 import logging
 
+from copy import deepcopy
+
 log = logging.getLogger(__name__)
 
 
+def _traverse(lookup_data, path):
+    """Helper to get lookup data at path, empty dictionary if no such path"""
+    for i in path:
+        if not isinstance(lookup_data, dict):
+            return {}
+        lookup_data = lookup_data.get(i, {})
+    return lookup_data
+
+
 def lookup(data, name=None, template=None, group=None, add_field=False):
     found_value = None
     lookup_data = {}
@@ -17,7 +28,7 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -34,12 +45,14 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
     else:
         log.info("ttp.lookup no lookup data name provided, doing nothing.")
         return data, None
-    for i in path:
-        lookup_data = lookup_data.get(i, {})
-    # perform lookup:
+    lookup_data = _traverse(lookup_data, path)
+    # perform lookup, copy is returned for results not to share data with lookup table
     try:
-        found_value = lookup_data[data]
-    except KeyError:
+        if not isinstance(lookup_data, dict):
+            return data, None
+        found_value = deepcopy(lookup_data[data])
+    except (KeyError, TypeError):
+        # no such a key or data is not hashable
         return data, None
     # decide to replace match result or add new field:
     if add_field is not False:
@@ -52,18 +65,13 @@ def rlookup(data, name, add_field=False):
     path = [i.strip() for i in name.split(".")]
     found_value = None
     # get lookup dictionary/data:
-    try:
-        rlookup = _ttp_["parser_object"].lookups
-        for i in path:
-            rlookup = rlookup.get(i, {})
-    except KeyError:
-        return data, None
+    rlookup = _traverse(_ttp_["parser_object"].lookups, path)
     # perfrom rlookup:
-    if isinstance(rlookup, dict) is False:
+    if isinstance(rlookup, dict) is False or not isinstance(data, (str, list)):
         return data, None
     for key in rlookup.keys():
-        if key in data:
-            found_value = rlookup[key]
+        if isinstance(key, str) and key in data:
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
@@ -78,13 +86,7 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
     path = [i.strip() for i in name.split(".")]
     found_value = []
     # get lookup dictionary/data:
-    try:
-        lookup_data = _ttp_["parser_object"].lookups
-        for i in path:
-            lookup_data = lookup_data.get(i, {})
-    except KeyError:
-        log.error("gpvlookup: lookup data not found")
-        return data, None
+    lookup_data = _traverse(_ttp_["parser_object"].lookups, path)
     # perform glob pattern values lookup
     if not isinstance(lookup_data, dict):
         log.error(
-- 
2.43.0


From 0f31af62ce50aa95631a4de31f65753259249b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 047/119] fix: values recorded in variables changed together
 with the match result

---
 ttp/group/record.py | 6 +++++-
 ttp/match/record.py | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ttp/group/record.py b/ttp/group/record.py
index 98f35ba..0afc9dd 100644
--- a/ttp/group/record.py
+++ b/ttp/group/record.py
@@ -1,7 +1,11 @@
+from copy import deepcopy
+
+
 def record(data, source, target="_use_source_"):
     if source in data:
         # get source var value:
-        source_var_value = data[source]
+        # recorded value must not change if functions that follow modify the data
+        source_var_value = deepcopy(data[source])
         # get target var name:
         if target == "_use_source_":
             target = source
diff --git a/ttp/match/record.py b/ttp/match/record.py
index 91e883b..8d5a9f4 100644
--- a/ttp/match/record.py
+++ b/ttp/match/record.py
@@ -1,4 +1,8 @@
+from copy import deepcopy
+
+
 def record(data, record):
-    _ttp_["vars"].update({record: data})
-    _ttp_["global_vars"].update({record: data})
+    # recorded value must not change if functions that follow modify the data
+    _ttp_["vars"].update({record: deepcopy(data)})
+    _ttp_["global_vars"].update({record: deepcopy(data)})
     return data, None
-- 
2.43.0


From 0755a178ebdafde22c0f7b1d926c97db3df3040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 048/119] fix: variables reported in results shared lists and
 dictionaries with template variables

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9b46dbd..8bbc9ab 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2898,7 +2898,8 @@ class _results_class:
             result = {}
             for var_name in vars_names:
                 if var_name in variables:
-                    result[var_name] = variables[var_name]
+                    # results must not share data with template variables
+                    result[var_name] = copy.deepcopy(variables[var_name])
             self.record = {
                 "result": result,
                 "PATH": [i.strip() for i in path_item.split(".")],
-- 
2.43.0


From 116d5caf8c16e5f2e268fab3575a457723fb4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 049/119] fix: getters given to add_vars were not called

---
 ttp/ttp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8bbc9ab..b15667a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1026,6 +1026,10 @@ class _template_class:
         """Method to update vars with given data"""
         if isinstance(data, dict):
             self.vars.update(data)
+            # new values replace getters, new values can be getters as well
+            for var_name in data:
+                self.vars["_var_functions_"].pop(var_name, None)
+            self.get_var_functions()
             [template.add_vars(data) for template in self.templates]
 
     def run_outputs(self):
@@ -1066,7 +1070,8 @@ class _template_class:
             if var_value in self._ttp_["variable"]:
                 self.vars["_var_functions_"][var_name] = var_value
         # remove _var_functions_ from self.vars
-        [self.vars.pop(var_name) for var_name in self.vars["_var_functions_"].keys()]
+        for var_name in self.vars["_var_functions_"]:
+            self.vars.pop(var_name, None)
 
     def update_input(
         self, element=None, data=None, input_name="Default_Input", groups=None
-- 
2.43.0


From 64b69c3b0c9b31e8c3112993d5e8954650ec93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 050/119] fix: get_timestamp_ms milliseconds had less than
 three digits or belonged to another second

---
 ttp/variable/time_funcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/variable/time_funcs.py b/ttp/variable/time_funcs.py
index dcc1c3f..7528eac 100644
--- a/ttp/variable/time_funcs.py
+++ b/ttp/variable/time_funcs.py
@@ -12,8 +12,11 @@ def get_date(*args, **kwargs):
 
 
 def get_timestamp_ms(*args, **kwargs):
-    strformat = "%Y-%m-%d %H:%M:%S.{ms}"
-    return time.strftime(strformat).format(ms=str(time.time()).split(".")[-1][:3])
+    strformat = "%Y-%m-%d %H:%M:%S.{ms:03d}"
+    now = time.time()
+    return time.strftime(strformat, time.localtime(now)).format(
+        ms=int(now * 1000) % 1000
+    )
 
 
 def get_timestamp(*args, **kwargs):
-- 
2.43.0


From a75db151febdd8f1f6b827a8d8c6cdaf1cf8cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 051/119] fix: match conditions did not see variables added,
 recorded or produced by getters after template load

---
 ttp/ttp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b15667a..bc928d6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2148,13 +2148,11 @@ class _variable_class:
 
         def get_arg_from_vars(data):
             """
-            Helper function to get values of args from vars
+            Helper function to get values of args from vars, that is done on parsing
+            as variables can be added, recorded or produced by getters after template
+            was loaded
             """
-            if len(data["args"]) == 1:
-                value = data["args"][0]
-                data["args"] = (self.group.vars.get(value, value),)
-            elif len(data["args"]) > 1:
-                data["args"] = tuple([self.group.vars.get(i, i) for i in data["args"]])
+            data["args_from_vars"] = True
             self.functions.append(data)
 
         def extract__headers_(data):
@@ -2500,6 +2498,8 @@ class _parser_class:
                         func_name = item["name"]
                         args = item["args"]
                         kwargs = item["kwargs"]
+                        if item.get("args_from_vars"):
+                            args = [self.vars.get(i, i) for i in args]
                         try:  # try variable function
                             data, flag = self._ttp_["match"][func_name](
                                 data, *args, **kwargs
-- 
2.43.0


From d2f72bf7fbfecc90c66368fa1730555e6b02ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 052/119] fix: input with several macro names failed

---
 ttp/input/macro.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ttp/input/macro.py b/ttp/input/macro.py
index 8bc24e3..7118bde 100644
--- a/ttp/input/macro.py
+++ b/ttp/input/macro.py
@@ -1,12 +1,15 @@
-def macro(data, macro_name):
-    result = None
-    if macro_name in _ttp_["macro"]:
+def macro(data, *macro):
+    # extract macro names
+    macro_names_list = [i.strip() for item in macro for i in item.split(",")]
+    # run macro
+    for macro_name in macro_names_list:
+        if macro_name not in _ttp_["macro"]:
+            continue
         result = _ttp_["macro"][macro_name](data)
-    # process macro result
-    if result is True:
-        return data, True
-    elif result is False:
-        return data, False
-    elif result is None:
-        return data, None
-    return result, None
+        # process macro result
+        if result is False:
+            return data, False
+        elif result is True or result is None:
+            continue
+        data = result
+    return data, None
-- 
2.43.0


From 2c9dce892480cf6f622fa66a026a0ece604772c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 053/119] fix: outputs of template without macro used macro of
 other templates

---
 ttp/ttp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bc928d6..8ab8af4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3482,9 +3482,8 @@ class _outputter_class:
         :param data: (dict or list) data to run outputter for
         :param macro: (dict) dictionary of macro functions
         """
-        marco = macro or {}
         self._ttp_["output_object"] = self
-        if macro:
+        if macro is not None:
             self._ttp_["macro"] = macro
         format_type = self.attributes["format"]
         results = data
-- 
2.43.0


From 2a3d41d2ffe279759719157b4ee550e98af45390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 054/119] fix: macro of group outputs were not run by
 multiprocess parsing

---
 ttp/ttp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8ab8af4..0d35aff 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -880,6 +880,10 @@ class _worker(Process):
             for function in functions.values():
                 if "_ttp_" in getattr(function, "__globals__", {}):
                     function.__globals__["_ttp_"] = self._ttp_
+        # group outputs should use _ttp_ dictionary of this process as well
+        for group in self.parserObj.groups:
+            for output in group.outputs:
+                output._ttp_ = self._ttp_
         # load macro from text
         funcs = {}
         # extract macro with all the __builtins__ provided
-- 
2.43.0


From d94993c5e7cbe4343ebf7e260d8938f7251b5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 055/119] fix: fields returned by custom match functions were
 not added to results

---
 ttp/ttp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0d35aff..143ec62 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2544,11 +2544,11 @@ class _parser_class:
                             )
                             break
                         elif isinstance(flag, dict):
-                            # update new_field data preserving previously got new_field
-                            if "new_field" in flags and "new_field" in flag:
-                                flags["new_field"].update(flag["new_field"])
-                            else:
-                                flags.update(flag)
+                            # update new_field data preserving previously got new_field,
+                            # custom functions can return new fields dictionary as is
+                            flags.setdefault("new_field", {}).update(
+                                flag.get("new_field", flag)
+                            )
                     if result is False:
                         break
                     # add match result to results using original match variable name
-- 
2.43.0


From a68109eb1f2261f375a3b7de01ec7d6a0406a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 056/119] fix: clear_result failed after output replaced
 results with other data and emptied results read before

---
 ttp/ttp.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 143ec62..539889c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -729,15 +729,10 @@ class ttp:
         templates = templates or []
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
-        # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        # clear results, outputs could replace them with any type of data
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                t_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From 217b3f283f7cd104667cf4809f6e66834c2ff504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 057/119] fix: input filters loaded only files matched by all
 of regular expressions

---
 ttp/utils/loaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..d6ee451 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -72,8 +72,8 @@ def load_files(path, extensions=None, filters=None, read=False):
         files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
-        for filter in filters:
-            files = [f for f in files if re_search(filter, f)]
+        if filters:
+            files = [f for f in files if any(re_search(i, f) for i in filters)]
         if read:
             ret = []
             for f in files:
-- 
2.43.0


From e67b987512fc18b59e3fe85211a542576d3e7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 058/119] fix: extract_commands did not find commands or host
 names with special characters

---
 ttp/input/commands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 3ec0c85..f6a9ae7 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -1,4 +1,4 @@
-from re import search
+from re import escape, search
 
 
 def extract_commands(data, *commands):
@@ -8,7 +8,7 @@ def extract_commands(data, *commands):
     if hostname:
         for command in commands:
             regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
-                hostname, command, hostname
+                escape(hostname), escape(command), escape(hostname)
             )
             match = search(regex, data)
             if match:
-- 
2.43.0


From ce072d2f1edfca9b2cbf1a5bb2767cbb3460e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 059/119] fix: groups run out of template order for input given
 data several times

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 539889c..c30a905 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1094,7 +1094,7 @@ class _template_class:
         if input_obj.name in self.inputs:
             self.inputs[input_obj.name].load_data(data=input_obj.data)
             self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
-            self.inputs[input_obj.name].groups_indexes = list(
+            self.inputs[input_obj.name].groups_indexes = sorted(
                 set(self.inputs[input_obj.name].groups_indexes)
             )
             del input_obj
-- 
2.43.0


From 5224e4b1339d02f98d11f64b96eef415c8ae7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 060/119] fix: groups and name given in text of input tag were
 ignored

---
 ttp/ttp.py | 69 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c30a905..439e2e0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1493,6 +1493,7 @@ class _input_class:
         self.parameters = {}
         self.data = []
         self.groups_indexes = []
+        self.groups_list = ["all"]
         self.group_inputs = []
         self.input_groups = groups
         self.functions = []
@@ -1502,17 +1503,20 @@ class _input_class:
             # as name used to extract groups and depending on python dict
             # hashing, groups can be attempted to extract before name attribute
             self.name = element.attrib.get("name", input_name).strip()
-            # set default attribute values
-            element.attrib.setdefault("groups", groups)
-            element.attrib.setdefault("load", "python")
+            # set default attribute values, defaults go first not to override
+            # attributes loaded from element text
+            attributes = {"groups": groups, "load": "python"}
+            attributes.update(element.attrib)
             # extract attributes
-            self.get_attributes(data=element.attrib, element_text=element.text)
+            self.get_attributes(data=attributes, element_text=element.text)
+            self.get_groups_indexes()
             self.load_data(element_text=element.text)
         # if no input element given, use input_name and groups with data
         # as well as default python loader
         else:
             self.name = input_name
             self.get_attributes(data={"groups": groups, "load": "python"})
+            self.get_groups_indexes()
             self.load_data(data=data)
 
     def get_attributes(self, data, element_text=""):
@@ -1529,33 +1533,9 @@ class _input_class:
 
         def extract_groups(O):
             if isinstance(O, list):
-                groups_list = O
+                self.groups_list = O
             else:
-                groups_list = [i.strip() for i in O.split(",")]
-            # create a list of groups with no input attribute matched by this input groups attribute
-            if "all" in groups_list:
-                self.input_groups = [
-                    grp_obj.grp_index
-                    for grp_obj in self.template_obj.groups
-                    if not grp_obj.inputs
-                ]
-            else:
-                self.input_groups = [
-                    grp_obj.grp_index
-                    for grp_obj in self.template_obj.groups
-                    if (grp_obj.name in groups_list and not grp_obj.inputs)
-                ]
-            # iterate over all groups to get a list of groups that match this input in input attribute
-            self.group_inputs = [
-                grp_obj.grp_index
-                for grp_obj in self.template_obj.groups
-                if self.name in grp_obj.inputs
-            ]
-            # form input groups_indexes - group_inputs more preferred
-            if self.group_inputs:
-                self.groups_indexes = sorted(list(set(self.group_inputs)))
-            else:
-                self.groups_indexes = sorted(list(set(self.input_groups)))
+                self.groups_list = [i.strip() for i in O.split(",")]
 
         def extract_extensions(O):
             if isinstance(O, str):
@@ -1642,6 +1622,35 @@ class _input_class:
             else:
                 self.attributes[attr_name] = attributes
 
+    def get_groups_indexes(self):
+        """Method to form a list of groups to parse this input with, called after
+        all attributes extracted as name can be given in element text as well
+        """
+        # create a list of groups with no input attribute matched by this input groups attribute
+        if "all" in self.groups_list:
+            self.input_groups = [
+                grp_obj.grp_index
+                for grp_obj in self.template_obj.groups
+                if not grp_obj.inputs
+            ]
+        else:
+            self.input_groups = [
+                grp_obj.grp_index
+                for grp_obj in self.template_obj.groups
+                if (grp_obj.name in self.groups_list and not grp_obj.inputs)
+            ]
+        # iterate over all groups to get a list of groups that match this input in input attribute
+        self.group_inputs = [
+            grp_obj.grp_index
+            for grp_obj in self.template_obj.groups
+            if self.name in grp_obj.inputs
+        ]
+        # form input groups_indexes - group_inputs more preferred
+        if self.group_inputs:
+            self.groups_indexes = sorted(list(set(self.group_inputs)))
+        else:
+            self.groups_indexes = sorted(list(set(self.input_groups)))
+
     def load_data(self, element_text=None, data=None):
         if self.attributes["load"] == "text" and element_text:
             self.data = [("text_data", element_text)]
-- 
2.43.0


From 8c3f9c18e81e386e02805e3263a86b95ce2c9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 061/119] fix: clear_input removed inputs defined by template
 together with their groups and functions

---
 ttp/ttp.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 439e2e0..5fcf843 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -346,7 +346,7 @@ class ttp:
         self.__datums_count = 0
         for template in self._templates:
             if template.name == template_name or template_name == "_all_":
-                template.inputs = {}
+                template.clear_input()
 
     def _calculate_overall_data_size(self):
         """Method to calculate overall data size and count"""
@@ -994,6 +994,11 @@ class _template_class:
 
         # update inputs with the groups it has to be run against:
         self.update_inputs_with_groups()
+        # remember inputs defined by template together with groups to use for them
+        self.template_inputs = {
+            input_name: list(input_obj.groups_indexes)
+            for input_name, input_obj in self.inputs.items()
+        }
         # update groups with output references:
         self.update_groups_with_outputs()
         # separate vars with functions from vars
@@ -1101,6 +1106,19 @@ class _template_class:
         else:
             self.inputs[input_obj.name] = input_obj
 
+    def clear_input(self):
+        """Method to delete inputs data, inputs defined by template retain
+        their attributes
+        """
+        for input_name in list(self.inputs):
+            if input_name in self.template_inputs:
+                self.inputs[input_name].data = []
+                self.inputs[input_name].groups_indexes = list(
+                    self.template_inputs[input_name]
+                )
+            else:
+                self.inputs.pop(input_name)
+
     def update_inputs_with_groups(self):
         """
         Method to update self.inputs group_inputs with group indexes
-- 
2.43.0


From 4a76fbbbff89955c3b97bebdf03b8ea82ab6916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 062/119] fix: functions called after macro that runs other
 parser used data of that parser

---
 ttp/ttp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5fcf843..3f8828b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -37,8 +37,15 @@ class _BoundFunction:
         self._ttp_ = _ttp_
 
     def __call__(self, *args, **kwargs):
-        self.function.__globals__["_ttp_"] = self._ttp_
-        return self.function(*args, **kwargs)
+        # restore previous value after the call, function can be called by other
+        # TTP object while this one runs, e.g. if macro uses TTP to parse data
+        function_globals = self.function.__globals__
+        previous = function_globals.get("_ttp_")
+        function_globals["_ttp_"] = self._ttp_
+        try:
+            return self.function(*args, **kwargs)
+        finally:
+            function_globals["_ttp_"] = previous
 
 
 class CachedModule:
-- 
2.43.0


From be0f39c30c0140cf482c9f82b9567a3a20b6b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 063/119] fix: first call of function by parser run from macro
 replaced data of outer parser

---
 ttp/ttp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3f8828b..1ef9f74 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -69,8 +69,10 @@ class CachedModule:
             abs_import = ""
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
         module = __import__(path, fromlist=[None])
-        # add _ttp_ to module globals space
-        setattr(module, "_ttp_", self._ttp_)
+        # add _ttp_ to module globals space if it is not there yet, as module
+        # can be in use by other TTP object
+        if not hasattr(module, "_ttp_"):
+            setattr(module, "_ttp_", self._ttp_)
         try:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
-- 
2.43.0


From 1358e9307a3f2d36e6d09a6b70dff794539751f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 064/119] fix: macro of the same name from several macro tags
 differed between processes

---
 ttp/ttp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1ef9f74..e0223a9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -977,8 +977,8 @@ class _template_class:
         self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+            []
+        )  # list to contain macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1243,7 +1243,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From bbfd4c7b20741ddbedc98cc7ad7af74bdc01faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 065/119] fix: multiprocess parsing hung on results that cannot
 be pickled and on SystemExit

---
 ttp/ttp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e0223a9..c116582 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -525,7 +525,7 @@ class ttp:
                 if isinstance(result, Exception):
                     errors.append(result)
                 else:
-                    template.form_results(result)
+                    template.form_results(pickle.loads(result))
             if errors:
                 raise errors[0]
 
@@ -922,8 +922,9 @@ class _worker(Process):
                 )
                 # parse and get results
                 self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-                result = self.parserObj.main_results
-            except Exception as e:
+                # results that cannot be pickled would be lost by the queue
+                result = pickle.dumps(self.parserObj.main_results)
+            except (Exception, SystemExit) as e:
                 # send error to the main process, otherwise it waits forever
                 result = RuntimeError("{}: {}".format(type(e).__name__, e))
             # put results in the queue and finish task
-- 
2.43.0


From bc6b8d44e535cabfd2f31e2f44ade98df4aefc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 066/119] fix: multiprocess parsing hung if worker process was
 killed and left processes behind

---
 ttp/ttp.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c116582..ad696e7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -14,6 +14,10 @@ from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
 
+try:
+    from queue import Empty
+except ImportError:  # Python 2
+    from Queue import Empty
 
 # Initiate global variables
 log = logging.getLogger(__name__)
@@ -516,16 +520,28 @@ class ttp:
                     num_jobs += 1
             [tasks.put(None) for i in range(num_processes)]
 
-            # wait for all tasks to complete
-            tasks.join()
-
+            # wait for results of all tasks
             errors = []
             for i in range(num_jobs):
-                result = results_queue.get()
+                result = None
+                while result is None:
+                    all_ended = not any(w.is_alive() for w in workers)
+                    try:
+                        result = results_queue.get(timeout=1)
+                    except Empty:
+                        # task of the worker that was killed never completes
+                        if all_ended or any(w.exitcode for w in workers):
+                            [w.terminate() for w in workers]
+                            [w.join() for w in workers]
+                            raise RuntimeError(
+                                "ttp.parse: worker process ended unexpectedly"
+                            )
                 if isinstance(result, Exception):
                     errors.append(result)
                 else:
                     template.form_results(pickle.loads(result))
+            # all the results received, do not leave processes behind
+            [w.join() for w in workers]
             if errors:
                 raise errors[0]
 
-- 
2.43.0


From b82d2dcd13b09bb55afacc7bef9c9f596271b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 067/119] fix: template tag that contains text only was not
 parsed or failed to load

---
 ttp/ttp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ad696e7..2106a6a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1483,11 +1483,9 @@ class _template_class:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
         # check if template has children, if not, make it an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            group_ET = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group_ET.text = "\n{}\n".format(template_ET.text or "")
+            template_ET.text = None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From 1b6ecd002a03396ac096bdb2d5285c797987093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 068/119] fix: name filters of add_template never loaded child
 templates and kept templates filtered out

---
 ttp/ttp.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2106a6a..82dbb73 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -405,9 +405,10 @@ class ttp:
                 _ttp_=self._ttp_,
             )
             # if not template_obj.templates - no 'template' tags in template
-            self._templates += (
-                template_obj.templates if template_obj.templates else [template_obj]
-            )
+            if template_obj.templates:
+                self._templates += template_obj.templates
+            elif not template_obj.filtered:
+                self._templates.append(template_obj)
 
     def add_lookup(self, name, text_data="", include=None, load="python", key=None):
         """Method to add lookup table data to all templates loaded so far. Lookup is a
@@ -997,6 +998,7 @@ class _template_class:
             []
         )  # list to contain macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
+        self.filtered = False  # True if template name is not in filters
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
 
@@ -1498,8 +1500,13 @@ class _template_class:
         template_ET = self.construct_etree(template_text)
         self.get_template_attributes(template_ET)
 
-        # filter - do not load template groups if template name not in filter
+        # filter - do not load template content if template name not in filter,
+        # child templates are checked against the filter on their own
         if self.filters and self.name not in self.filters:
+            self.filtered = True
+            child_templates = [t for t in template_ET if t.tag.lower() == "template"]
+            for t_index, t in enumerate(child_templates):
+                self.parse_template(t, t_index)
             return
 
         self.parse_hierarch_tmplt(template_ET)
-- 
2.43.0


From 380508df1ab4b5fbc6630dfbfb3bc177114b4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 069/119] fix: json formatter failed on keys of different types

---
 ttp/formatters/json_formatter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/json_formatter.py b/ttp/formatters/json_formatter.py
index 331fdb3..e0af4ca 100644
--- a/ttp/formatters/json_formatter.py
+++ b/ttp/formatters/json_formatter.py
@@ -5,4 +5,8 @@ def json_formatter(data, **kwargs):
     """Method returns parsing result in json format."""
     from json import dumps
 
-    return dumps(data, sort_keys=True, indent=4, separators=(",", ": "))
+    try:
+        return dumps(data, sort_keys=True, indent=4, separators=(",", ": "))
+    except TypeError:
+        # keys of different types cannot be sorted
+        return dumps(data, indent=4, separators=(",", ": "))
-- 
2.43.0


From dd592cdb433c5b5abbd87daf5206d3832cfa800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 070/119] fix: table formatter failed on nested lists and made
 empty rows for empty results of lists

---
 ttp/formatters/table_formatter.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ttp/formatters/table_formatter.py b/ttp/formatters/table_formatter.py
index 522e130..0fdcc9e 100644
--- a/ttp/formatters/table_formatter.py
+++ b/ttp/formatters/table_formatter.py
@@ -22,19 +22,21 @@ def table(data, path=None, missing="", key="", strict=True, headers=None, **kwar
         source_data.append(data)
     # form data_to_table:
     for datum in source_data:
-        item = _ttp_["output"]["traverse"](datum, path, strict)
-        if not item:  # skip empty results
-            continue
-        elif isinstance(item, list):
-            data_to_table += item
-        elif isinstance(item, dict):
-            # flatten dictionary data if key was given
-            if key:
-                data_to_table += _ttp_["output"]["dict_to_list"](
-                    data=item, key_name=key
-                )
-            else:
-                data_to_table.append(item)
+        items = [_ttp_["output"]["traverse"](datum, path, strict)]
+        while items:
+            item = items.pop()
+            if not item:  # skip empty results
+                continue
+            elif isinstance(item, list):
+                items += reversed(item)
+            elif isinstance(item, dict):
+                # flatten dictionary data if key was given
+                if key and all(isinstance(v, dict) for v in item.values()):
+                    data_to_table += _ttp_["output"]["dict_to_list"](
+                        data=item, key_name=key
+                    )
+                else:
+                    data_to_table.append(item)
     # create headers:
     if not headers:
         headers = set()
-- 
2.43.0


From 401abf7c6e0e9197dfd1f415c672cec8a91c4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 071/119] fix: strict attribute of output tag was never false

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 82dbb73..41d1831 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3475,6 +3475,12 @@ class _outputter_class:
             else:
                 self.attributes["headers"] = O
 
+        def extract_strict(O):
+            # value of tag attribute is a string
+            self.attributes["strict"] = (
+                O.strip().lower() != "false" if isinstance(O, str) else O
+            )
+
         def extract_condition(O):
             condition_attributes = self._ttp_["utils"]["get_attributes"](
                 "condition({})".format(O)
@@ -3520,6 +3526,7 @@ class _outputter_class:
             "path": extract_path,
             "headers": extract_headers,
             "condition": extract_condition,
+            "strict": extract_strict,
         }
         functions = {"functions": extract_functions}
         for attr_name, attributes in data.items():
-- 
2.43.0


From 843fa7de28875aaf1eb9f9efcdf0548892edf8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 072/119] fix: excel formatter failed if table has no path

---
 ttp/formatters/excel_formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 843d90e..c7c1d0e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -45,7 +45,9 @@ def excel_formatter(data, **kwargs):
             headers = [i.strip() for i in headers.split(",")]
         # get attributes out of tab_det
         tab_kwargs = {
-            "path": [i.strip() for i in tab_det.get("path", "").split(".")],
+            "path": [
+                i.strip() for i in tab_det.get("path", "").split(".") if i.strip()
+            ],
             "headers": headers,
             "missing": tab_det.get("missing", ""),
             "key": tab_det.get("key", ""),
-- 
2.43.0


From b2a7ee981b7e1bf8d4c79844bbbabe6038b88dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 073/119] fix: excel formatter failed on values that are lists
 or dictionaries

---
 ttp/formatters/excel_formatter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index c7c1d0e..9779278 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -55,6 +55,11 @@ def excel_formatter(data, **kwargs):
         }
         # form tab table
         tab_table_data = _ttp_["formatters"]["table"](data, **tab_kwargs)
+        # structures cannot be saved in cells
+        tab_table_data = [
+            [str(i) if isinstance(i, (list, dict, tuple, set)) else i for i in row]
+            for row in tab_table_data
+        ]
         table_tabs.append({"name": tab_name, "data": tab_table_data})
 
     # check if need to load existing workbook
-- 
2.43.0


From 3adedcf075dc9e9c2735dd6c0c9d9b4bb51d0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 074/119] fix: excel formatter update put values in columns of
 other headers

---
 ttp/formatters/excel_formatter.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 9779278..f95465c 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -60,7 +60,13 @@ def excel_formatter(data, **kwargs):
             [str(i) if isinstance(i, (list, dict, tuple, set)) else i for i in row]
             for row in tab_table_data
         ]
-        table_tabs.append({"name": tab_name, "data": tab_table_data})
+        table_tabs.append(
+            {
+                "name": tab_name,
+                "data": tab_table_data,
+                "missing": tab_kwargs["missing"],
+            }
+        )
 
     # check if need to load existing workbook
     if update and os.path.exists(os.path.join(url, filename)):
@@ -74,8 +80,15 @@ def excel_formatter(data, **kwargs):
         # check if need to add to existing tab
         if tab["name"] in wb and update:
             ws = wb[tab["name"]]
+            # place values in columns of existing headers adding missing headers
+            headers = [cell.value for cell in ws[1]]
+            for header in tab["data"][0]:
+                if header not in headers:
+                    headers = [i for i in headers if i is not None] + [header]
+                    ws.cell(row=1, column=len(headers), value=header)
             for row in tab["data"][1:]:
-                ws.append(row)
+                values = dict(zip(tab["data"][0], row))
+                ws.append([values.get(i, tab["missing"]) for i in headers])
         # create new tab
         else:
             ws = wb.create_sheet(title=tab["name"])
-- 
2.43.0


From b0d0139146905775ea638973506ecec53623b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 075/119] fix: file returner failed if output has no name and
 no filename

---
 ttp/returners/file_returner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..7e8c1a8 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -27,7 +27,8 @@ def file_returner(D, **kwargs):
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
     if not kwargs.get("filename", False):
-        filename = _ttp_["output_object"].name + "_" + filename
+        if _ttp_["output_object"].name:
+            filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
         os.mkdir(url)
-- 
2.43.0


From 508805646e1d5b35bc8bfdd844a654742c0e24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 076/119] fix: file returner failed if parent of the folder
 does not exist

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 7e8c1a8..3b1f7f1 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -31,7 +31,7 @@ def file_returner(D, **kwargs):
             filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.mkdir(url)
+        os.makedirs(url)
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From 41d725605f20365e0e84dd3441c40ab939442440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 077/119] fix: default file name of file returner had time of
 the first import, later results replaced previous ones

---
 ttp/returners/file_returner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 3b1f7f1..e646897 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -5,7 +5,6 @@ import os
 _name_map_ = {"file_returner": "file"}
 
 log = logging.getLogger(__name__)
-ctime = time.strftime("%Y-%m-%d_%H-%M-%S")
 
 
 def file_returner(D, **kwargs):
@@ -24,7 +23,7 @@ def file_returner(D, **kwargs):
         except Exception as e:
             log.error("file_returner: failed format filename - '{}'".format(e))
     else:
-        filename = "output_{}.txt".format(ctime)
+        filename = "output_{}.txt".format(time.strftime("%Y-%m-%d_%H-%M-%S"))
     # if no filename provided, add outputter name to filename
     if not kwargs.get("filename", False):
         if _ttp_["output_object"].name:
-- 
2.43.0


From 400fd4022670428e3dd2336535c0def97f5fcc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 078/119] fix: group with several outputs failed if one of them
 is not in template

---
 ttp/ttp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 41d1831..9419ac0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1171,30 +1171,33 @@ class _template_class:
         self.groups_outputs
         """
         for G in self.groups:
-            for output_index, grp_output in enumerate(G.outputs):
+            outputs = []
+            for grp_output in G.outputs:
                 group_output_found = False
                 # search through global outputs:
                 for glob_index, glob_output in enumerate(self.outputs):
                     if glob_output.name == grp_output:
                         self.groups_outputs.append(self.outputs.pop(glob_index))
-                        G.outputs[output_index] = self.groups_outputs[-1]
+                        outputs.append(self.groups_outputs[-1])
                         group_output_found = True
+                        break
                 # go to next output if this output found:
                 if group_output_found:
                     continue
                 # try to find output in group specific outputs:
                 for index, output in enumerate(self.groups_outputs):
                     if output.name == grp_output:
-                        G.outputs[output_index] = output
+                        outputs.append(output)
                         group_output_found = True
+                        break
                 # print error message if no output found:
                 if not group_output_found:
-                    G.outputs.pop(output_index)
                     log.error(
                         "template.update_groups_with_outputs: group '{}' - output '{}' not found.".format(
                             G.name, grp_output
                         )
                     )
+            G.outputs = outputs
 
     def get_template_attributes(self, element):
         def extract_name(O):
-- 
2.43.0


From 8fbb7de428105428d97380a8fc2064a3e0555854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 079/119] fix: per_template results of groups were saved in
 results of group outputs of previous input

---
 ttp/ttp.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9419ac0..850e852 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -570,7 +570,7 @@ class ttp:
                         result = parserObj.main_results
                         template.form_results(result)
             elif template.results_method.lower() == "per_template":
-                results_data = {}
+                results_data, outputs_results = {}, []
                 for input_name, input_obj in template.inputs.items():
                     for datum in input_obj.data:
                         parserObj.set_data(
@@ -579,8 +579,11 @@ class ttp:
                             input_functions=input_obj.functions,
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
-                        results_data = parserObj.main_results
-                template.form_results(results_data)
+                        results_data = parserObj.groups_results
+                        outputs_results += parserObj.outputs_results
+                template.form_results(
+                    parserObj.join_results(results_data, outputs_results)
+                )
 
     def result(self, templates=None, structure="list", **kwargs):
         """Method to get parsing results, supports basic filtering based on
@@ -2733,7 +2736,8 @@ class _parser_class:
         # form results for global groups:
         RSLTSOBJ = _results_class(self._ttp_)
         RSLTSOBJ.make_results(self.vars, raw_results, main_results=self.main_results)
-        self.main_results = RSLTSOBJ.results
+        self.groups_results = RSLTSOBJ.results
+        self.outputs_results = []
 
         # sort results for groups with group specific outputs
         for group_result in grps_unsort_rslts:
@@ -2755,14 +2759,16 @@ class _parser_class:
             grp_result = RSLTSOBJ.results
             for output in grp_raw_result[1]:
                 grp_result = output.run(data=grp_result)
-            # transform results into list:
-            if isinstance(self.main_results, dict):
-                if self.main_results:
-                    self.main_results = [self.main_results]
-                else:
-                    self.main_results = []
-            # save results into global results list:
-            self.main_results.append(grp_result)
+            self.outputs_results.append(grp_result)
+        self.main_results = self.join_results(self.groups_results, self.outputs_results)
+
+    def join_results(self, groups_results, outputs_results):
+        """Method to combine results of groups with results of groups specific
+        outputs, combined results are a list if any of such outputs run
+        """
+        if not outputs_results:
+            return groups_results
+        return ([groups_results] if groups_results else []) + outputs_results
 
 
 """
-- 
2.43.0


From 4166d27ba41134091638b2e796f393375cd31282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 080/119] fix: facility, interval and iterate attributes of
 syslog returner failed or were ignored if given by output tag

---
 ttp/returners/syslog_returner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index a2458ea..ada4488 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -18,9 +18,14 @@ def syslog(data, **kwargs):
         return
     port = int(kwargs.get("port", 514))
     facility = kwargs.get("facility", 77)
+    # values of tag attributes are strings
+    if isinstance(facility, str) and facility.strip().isdigit():
+        facility = int(facility)
     path = kwargs.get("path", [])
     iterate = kwargs.get("iterate", True)
-    interval = kwargs.get("interval", 1) / 1000
+    if isinstance(iterate, str):
+        iterate = iterate.strip().lower() != "false"
+    interval = float(kwargs.get("interval", 1)) / 1000
     # normalize source_data to list:
     source_data = data if isinstance(data, list) else [data]
     # initiate isolated logger
-- 
2.43.0


From 43487e267e2d72c7e5d5a2ffb4feecc2eecf4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 081/119] fix: file returner failed if several processes
 created the folder at the same time

---
 ttp/returners/file_returner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index e646897..491dfdd 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -30,7 +30,12 @@ def file_returner(D, **kwargs):
             filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.makedirs(url)
+        try:
+            os.makedirs(url)
+        except OSError:
+            # folder could be created by other process
+            if not os.path.isdir(url):
+                raise
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From f256fbd6a372bb45af77acff2afed7f18f48f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 082/119] fix: traverse that is not strict failed if path goes
 through a list or text

---
 ttp/output/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 6fdfe49..c93e010 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -16,7 +16,10 @@ def traverse(data, path, strict=True):
         path = [i.strip() for i in path.split(".")]
     if isinstance(data, dict):
         for i in path:
-            result = result[i] if strict else result.get(i, {})
+            if strict:
+                result = result[i]
+            else:
+                result = result.get(i, {}) if isinstance(result, dict) else {}
     elif isinstance(data, list):
         result = [traverse(i, path, strict) for i in data]
     return result
-- 
2.43.0


From c3fd2575b4b5a7b11668b2685885f8a4f82a883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 083/119] fix: dict_to_list replaced values that are not
 dictionaries or lists with empty lists

---
 ttp/output/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index c93e010..7af585b 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -67,4 +67,7 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
     elif isinstance(traversed_data, list):
         # run recusrsion
         result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
+    else:
+        # nothing to flatten
+        result = traversed_data
     return result
-- 
2.43.0


From e5e9b5d460c3aa3a0594a60fe5c279114c50bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 084/119] fix: output validate added info field to results

---
 ttp/output/validate_cerberus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..5da7b7d 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -20,7 +20,10 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
     if info:
         try:
-            formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
+            # use a copy, results should not have a field added
+            formatted, _ = _ttp_["group"]["sformat"](
+                data.copy(), string=info, add_field="inf"
+            )
             ret["info"] = formatted["inf"]
         except:
             ret["info"] = info
-- 
2.43.0


From c33416c0f6c54efbcb971c1249f852ff63326695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 085/119] fix: output validate lost results that are lists
 instead of returning them as is

---
 ttp/output/validate_cerberus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 5da7b7d..806e1ca 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -57,6 +57,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     elif isinstance(data, list):
         return [
             _run_validation(i, schema_data, info, errors, result, validator_engine)
-            for i in data
             if isinstance(i, dict)
+            else i
+            for i in data
         ]
-- 
2.43.0


From 196d513d89dd4019c9e630d21c1f03aeb747fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 086/119] fix: deepdiff added differences to results even if
 output does not return them

---
 ttp/output/deepdiffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index f4459b3..549e968 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -92,10 +92,11 @@ def deepdiff_func(
 
     # return results
     if add_field:
+        # do not modify data, output might not return it to results
         if isinstance(data, list):
-            data.append({add_field: result})
+            data = data + [{add_field: result}]
         elif isinstance(data, dict):
-            data[add_field] = result
+            data = dict(data, **{add_field: result})
         return data
     else:
         return result
-- 
2.43.0


From 69eb9fbf921f000cc2b3f4f3bf0c67253d35796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 087/119] fix: deepdiff failed to compare results of input with
 variable or template

---
 ttp/output/deepdiffer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index 549e968..31931bd 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -41,7 +41,7 @@ def deepdiff_func(
     template_obj = _ttp_["output_object"].template_obj
 
     # get data_before - data to compare with
-    if input_before:
+    if input_before or input_after:
         # get inputs names to results index mapping, e.g.:
         # {'input_after': [3, 4], 'input_before': [0, 1], 'one_more': [2]}
         if template_obj.results_method.lower() == "per_input":
@@ -53,14 +53,13 @@ def deepdiff_func(
                     i + counter for i in range(data_len)
                 ]
                 counter += data_len
-            data_before = [
-                data[index] for index in input_to_results_index[input_before]
-            ]
         elif template_obj.results_method.lower() == "per_template":
             log.error(
                 "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before as a reference to source data"
             )
             return data
+    if input_before:
+        data_before = [data[index] for index in input_to_results_index[input_before]]
     # if template name provided - source data from template results
     elif template_before:
         for template in _ttp_["ttp_object"]._templates:
-- 
2.43.0


From 4ea4a1fafe5812cd0f2275742acd171b01995d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 088/119] fix: is_equal output function compared empty
 structures with the text of the tag

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 850e852..6aa6881 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3448,7 +3448,9 @@ class _outputter_class:
             self.attributes["load"] = "text"
         # run attributes extraction
         attribs = self._ttp_["utils"]["load_struct"](element.text, **self.attributes)
-        self.tag_load = attribs if attribs else element.text
+        # loaders return nothing or empty data if they fail, use text in that case
+        empty = "".join((element.text or "").split()) in ["{}", "[]"]
+        self.tag_load = attribs if attribs or empty else element.text
         if isinstance(attribs, dict):
             self.attributes.update(attribs)
 
-- 
2.43.0


From 5e54456504e5ea23818ba45262f9691c73c1fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 089/119] fix: keys of structure that is_equal compares with
 were used as attributes of the output

---
 ttp/ttp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6aa6881..e27ad83 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3451,7 +3451,14 @@ class _outputter_class:
         # loaders return nothing or empty data if they fail, use text in that case
         empty = "".join((element.text or "").split()) in ["{}", "[]"]
         self.tag_load = attribs if attribs or empty else element.text
-        if isinstance(attribs, dict):
+        # text of the output with is_equal function is a structure to compare with
+        compare = "is_equal" in self.attributes or "is_equal" in [
+            i["name"]
+            for i in self._ttp_["utils"]["get_attributes"](
+                self.attributes.get("functions", "")
+            )
+        ]
+        if isinstance(attribs, dict) and not compare:
             self.attributes.update(attribs)
 
     def get_attributes(self, data):
-- 
2.43.0


From aab18da6e1559ec02cd2c8b71bc131a2ae9e8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 090/119] fix: results of multiprocess parsing were in random
 order, deepdiff compared results of wrong inputs

---
 ttp/ttp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e27ad83..e5cc5a5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -513,6 +513,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -523,6 +524,7 @@ class ttp:
 
             # wait for results of all tasks
             errors = []
+            results = {}
             for i in range(num_jobs):
                 result = None
                 while result is None:
@@ -537,10 +539,14 @@ class ttp:
                             raise RuntimeError(
                                 "ttp.parse: worker process ended unexpectedly"
                             )
+                index, result = result
                 if isinstance(result, Exception):
                     errors.append(result)
                 else:
-                    template.form_results(pickle.loads(result))
+                    results[index] = result
+            # tasks complete in any order, results go in the order of inputs
+            for index in sorted(results):
+                template.form_results(pickle.loads(results[index]))
             # all the results received, do not leave processes behind
             [w.join() for w in workers]
             if errors:
@@ -949,7 +955,7 @@ class _worker(Process):
                 result = RuntimeError("{}: {}".format(type(e).__name__, e))
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From 672a0752b5d08319a550eac20c916e7d7104e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 091/119] fix: validate_yangson failed after modules of other
 directory were used

---
 ttp/output/validate_yangson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..8f2f895 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,6 +98,9 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
+    # forget modules of other directories
+    modmap.clear()
+    submodmap.clear()
     for infile in os.listdir(ydir):
         if not infile.endswith(".yang"):
             continue
-- 
2.43.0


From 668499aa399eda7f9f8db591b42ddd4d524d7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 092/119] fix: validate_yangson to_xml failed with Python 3.9
 and later

---
 ttp/output/validate_yangson.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index 8f2f895..e4c362c 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -182,7 +182,11 @@ def validate_yangson(
         If metadata is False but to_xml is True, return parsing results converted to XML string
     """
     if to_xml:
-        from xml.etree import cElementTree as ET
+        try:
+            from xml.etree import cElementTree as ET
+        except ImportError:
+            # removed in Python 3.9
+            from xml.etree import ElementTree as ET
     ret = {
         "result": [] if to_xml else instance_data,
         "exception": {},
-- 
2.43.0


From 3836b49c5e0ef58b5e04b9d6db5a53aa3abd3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 093/119] fix: validate_yangson used blanks in the text of
 output tag as a library of modules

---
 ttp/output/validate_yangson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index e4c362c..e2091f7 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -202,7 +202,7 @@ def validate_yangson(
 
     # load yang_modules_library and instantiate DataModel object
     try:
-        if output_tag_load and isinstance(output_tag_load, str):
+        if isinstance(output_tag_load, str) and output_tag_load.strip():
             yang_modules_library = output_tag_load
         elif yang_mod_lib:
             with open(yang_mod_lib, "r") as f:
-- 
2.43.0


From 6c4ad065f4d2ce3a9817035b91e544cdbfa2fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 094/119] fix: extend tags lost lines after them, moved text
 and skipped following extend tags

---
 ttp/ttp.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e5cc5a5..a04f73f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1429,6 +1429,16 @@ class _template_class:
         :param template_text: (str) template string
         :return: (str) final template string after extending it
         """
+
+        def insert_text(element, index, text):
+            # add text to the element content in front of child with given index
+            if not text or not text.strip():
+                return
+            elif index == 0:
+                element.text = (element.text or "") + text
+            else:
+                element[index - 1].tail = (element[index - 1].tail or "") + text
+
         # load template string to XML etree object
         if template_text:
             template_ET = self.construct_etree(template_text)
@@ -1438,8 +1448,9 @@ class _template_class:
                 if child.tag == "macro":
                     self.parse_macro(child)
         # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        for child in list(template_ET):
             if child.tag == "extend":
+                index = list(template_ET).index(child)
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
                 if content[0][1] == path_to_template:
@@ -1459,18 +1470,23 @@ class _template_class:
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
                     template_ET.remove(child)
+                    insert_text(template_ET, index, extend_ET[0].text)
+                    insert_text(template_ET, index, child.tail)
                 # process extended template children to extend parent element
                 else:
                     # run filtering for extended template tags
                     filtered_ET = self.filter_extend(
                         extend_template=extend_ET, extend_tag=child, top=top
                     )
+                    extended = ET.Element("template")
+                    extended.extend(list(filtered_ET))
                     # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
+                    self.handle_extend(template_ET=extended, top=False)
                     # save extended elements as parent children
-                    template_ET[index : index + 1] = filtered_ET
+                    template_ET[index : index + 1] = list(extended)
+                    insert_text(template_ET, index, extended.text)
+                    insert_text(template_ET, index + len(extended), child.tail)
             # run recursion for child groups looking for extend tags
             elif child.tag == "group":
                 self.handle_extend(template_ET=child, top=False)
-- 
2.43.0


From d6f6ce67874b04f6ff3e5b35009fe822b2735bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 095/119] fix: extend tag of extended template ignored all tags
 except groups

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a04f73f..878d266 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1482,7 +1482,7 @@ class _template_class:
                     extended = ET.Element("template")
                     extended.extend(list(filtered_ET))
                     # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=extended, top=False)
+                    self.handle_extend(template_ET=extended, top=top)
                     # save extended elements as parent children
                     template_ET[index : index + 1] = list(extended)
                     insert_text(template_ET, index, extended.text)
@@ -1491,7 +1491,7 @@ class _template_class:
             elif child.tag == "group":
                 self.handle_extend(template_ET=child, top=False)
 
-        if top:
+        if template_text:
             return ET.tostring(template_ET).decode()
 
     def construct_etree(self, template_text):
-- 
2.43.0


From d1f86800e04d712f70f9874091a403386b07106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 096/119] fix: extend tags within g and grp tags were not
 processed

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 878d266..bf66069 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1488,7 +1488,7 @@ class _template_class:
                     insert_text(template_ET, index, extended.text)
                     insert_text(template_ET, index + len(extended), child.tail)
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
+            elif child.tag in ["g", "grp", "group"]:
                 self.handle_extend(template_ET=child, top=False)
 
         if template_text:
-- 
2.43.0


From 07e72cb20c4b785df834650e99cee86224324ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 097/119] fix: default records were placed before matches
 beyond 10 million characters

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bf66069..254602a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2677,7 +2677,7 @@ class _parser_class:
             if not group_start_found:
                 # handle group with no matches but with start re default values
                 if group.has_start_re_default:
-                    key = 10000000
+                    key = max(10000000, len(self.DATATEXT))
                     # group.start_re == [] only for tag with no regexes
                     start_re = (
                         {"ACTION": "start", "VARIABLES": group.runs, "GROUP": group}
-- 
2.43.0


From 534868e4bb5b4598d3e4754826503941d6f96b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 098/119] fix: parsing failed if list path of the group only
 known after its child groups

---
 ttp/ttp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 254602a..657d5dd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3152,7 +3152,7 @@ class _results_class:
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         # items can be any values, including zeros and empty strings
         if isinstance(E, list) and result_data not in ({}, [], None):
-            if self.record.get("merge_with_last"):
+            if self.record.get("merge_with_last") and E:
                 self._merge_recursively(E[-1], result_data)
             else:
                 E.append(result_data)
@@ -3181,7 +3181,8 @@ class _results_class:
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         if isinstance(E, list):
-            copied = E[-1].copy()
+            # list is empty if path of the group only known from tail matches
+            copied = E[-1].copy() if E else {}
         elif isinstance(E, dict):
             copied = E.copy()
         # matches already saved have to be joined with new ones, unless it is default value
-- 
2.43.0


From a22305ff39183a4d668bee4708bcb01ce5ce2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 099/119] fix: parsing failed if group end line found before
 any start lines

---
 ttp/ttp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 657d5dd..8fb538b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3355,6 +3355,9 @@ class _results_class:
         if (
             self.record["PATH"] != PATH
             and
+            # no groups started yet if end line found in front of start lines
+            self.started_groups
+            and
             # if below is true, this is child group:
             REDICT["GROUP"].group_id == self.started_groups[-1]
         ):
-- 
2.43.0


From 6c6ce154baf0f976363fb354170692f7289f03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 100/119] fix: first saved functions cache was never used as it
 had no version

---
 ttp/ttp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8fb538b..ec769c2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -110,6 +110,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
-- 
2.43.0


From c8c21d86de93f4ec884f78d0e2b60ac935c7b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 101/119] fix: command line data not given to templates with
 names

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ec769c2..49d097e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3879,7 +3879,7 @@ def cli_tool():
     # add data and templates
     parser_Obj.add_template(template=ttp_template)
     if DATA:
-        parser_Obj.set_input(data=DATA)
+        parser_Obj.set_input(data=DATA, template_name="_all_")
         timing("Data descriptors loaded")
     timing("Template(s) loaded")
 
-- 
2.43.0


From 7128bbd13be2b3d5d176dd434c4d621976370b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 102/119] fix: command line failed for output formats given in
 upper case

---
 ttp/ttp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 49d097e..8c39587 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3900,6 +3900,7 @@ def cli_tool():
                 )
             )
             OUTPUTTER = "json"
+        OUTPUTTER = OUTPUTTER.lower()
         results = parser_Obj.result(structure=STRUCTURE, templates=OUT_TEMPLATE)
         print(_ttp_["formatters"][OUTPUTTER](results))
         timing("{} dumped".format(OUTPUTTER))
-- 
2.43.0


From c6ced180c91d2d817a9f002c4156f8bbfb2bc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 103/119] fix: command line variables with single quotes within
 JSON strings were altered or failed

---
 ttp/ttp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8c39587..822e38d 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3856,8 +3856,11 @@ def cli_tool():
     if VARS:
         from json import loads
 
-        VARS = VARS.replace("'", '"')
-        ttp_vars = loads(VARS)
+        try:
+            ttp_vars = loads(VARS)
+        except ValueError:
+            # support single quotes used instead of double quotes
+            ttp_vars = loads(VARS.replace("'", '"'))
         if not isinstance(ttp_vars, dict):
             log.error(
                 "cli_tool: Error with -v/--vars argument, value type is '{}', value is '{}', expecting dictionary, exiting...".format(
-- 
2.43.0


From 9b61bbd691761ed7ae0de9fbb691c83652ad6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 104/119] fix: command line logging level was reset to warning
 by the parser

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 822e38d..36333f1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3869,7 +3869,7 @@ def cli_tool():
             )
             raise SystemExit()
     # create parser object
-    parser_Obj = ttp(base_path=BASE_PATH, vars=ttp_vars)
+    parser_Obj = ttp(base_path=BASE_PATH, vars=ttp_vars, log_level=LOG_LEVEL)
 
     # load templates file
     if TEMPLATE_FILE:
-- 
2.43.0


From 89d7fde17bd4f8d979a8372f1954234817ed6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 105/119] fix: command line failed with unbound variable if no
 template given

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 36333f1..4ba80a9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3879,8 +3879,8 @@ def cli_tool():
                 text_data=ttp_template, load="python"
             )
             ttp_template = ttp_template[TEMPLATE_NAME]
-    # add data and templates
-    parser_Obj.add_template(template=ttp_template)
+        parser_Obj.add_template(template=ttp_template)
+    # add data
     if DATA:
         parser_Obj.set_input(data=DATA, template_name="_all_")
         timing("Data descriptors loaded")
-- 
2.43.0


From ad77c72b5ec80f0a7d2dd07bb793340a743b6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 106/119] fix: command line timing option failed if psutil not
 installed

---
 ttp/ttp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4ba80a9..ce0dc89 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3833,6 +3833,9 @@ def cli_tool():
 
     def timing(message):
         if TIMING:
+            if process is None:
+                print("{:<9} {:<25}".format(round(time.time() - t0, 5), message))
+                return
             print(
                 "{:<9} {:<25}; {} MByte of RAM in use".format(
                     round(time.time() - t0, 5),
@@ -3846,9 +3849,13 @@ def cli_tool():
 
     if TIMING:
         t0 = time.time()
-        import psutil
+        try:
+            import psutil
 
-        process = psutil.Process(os.getpid())
+            process = psutil.Process(os.getpid())
+        except ImportError:
+            # memory use is not reported without psutil
+            process = None
     else:
         t0 = 0
     # extract vars
-- 
2.43.0


From b74b9bee11621e00aa50e7699b82b85cb70b9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 107/119] fix: cerberus validation modified schemas given in
 variables

---
 ttp/group/validate_cerberus.py  | 7 +++++--
 ttp/output/validate_cerberus.py | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ttp/group/validate_cerberus.py b/ttp/group/validate_cerberus.py
index 1890ecb..afdeb61 100644
--- a/ttp/group/validate_cerberus.py
+++ b/ttp/group/validate_cerberus.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -31,7 +32,8 @@ def cerberus_validate(
         return data, None
     # run validation
     validator_engine.allow_unknown = allow_unknown
-    ret = validator_engine.validate(document=data, schema=schema_data)
+    # engine modifies schemas that use shorthands, use a copy
+    ret = validator_engine.validate(document=data, schema=deepcopy(schema_data))
     if ret == False:
         if log_errors:
             log.warning(
@@ -70,7 +72,8 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
         return data, None
     # run validation
     validator_engine.allow_unknown = allow_unknown
-    ret = validator_engine.validate(document=data, schema=schema_data)
+    # engine modifies schemas that use shorthands, use a copy
+    ret = validator_engine.validate(document=data, schema=deepcopy(schema_data))
     # form results
     data[result] = ret
     # add validation errors if requested to do so
diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 806e1ca..3ce59d7 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -48,6 +49,8 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     if not schema_data:
         log.error("ttp.output.validate, schema '{}' not found".format(schema))
         return data
+    # engine modifies schemas that use shorthands, use a copy
+    schema_data = deepcopy(schema_data)
     validator_engine.allow_unknown = allow_unknown
     # run validation
     if isinstance(data, dict):
-- 
2.43.0


From 46d7e3251a139f21fbeb16fc819efe2ccac9f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 108/119] fix: template failed to load if vars tag with name
 has no content

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ce0dc89..27c1bdb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1308,7 +1308,7 @@ class _template_class:
         if vars:
             self.vars.update(vars)
         # check if var has name attribute:
-        if "name" in element.attrib:
+        if vars and "name" in element.attrib:
             path = element.attrib["name"]
             for key in vars.keys():
                 self.vars["_vars_to_results_"].setdefault(path, []).append(key)
-- 
2.43.0


From 4d0c1ca888221dd456526bcde8eaf5603ef39755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 109/119] fix: templates with empty group, macro or doc tags
 failed to load

---
 ttp/ttp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 27c1bdb..8eb5da0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1271,11 +1271,11 @@ class _template_class:
         # extract macro with all the __builtins__ provided
         try:
             funcs = self._ttp_["utils"]["load_python_exec"](
-                element.text, builtins=__builtins__
+                element.text or "", builtins=__builtins__
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.append(element.text)
+            self.macro_text.append(element.text or "")
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
@@ -1284,7 +1284,7 @@ class _template_class:
             )
 
     def parse_doc(self, element):
-        self.__doc__ += element.text + "\n"
+        self.__doc__ += (element.text or "") + "\n"
 
     def parse_template(self, element, template_index):
         # skip child templates that are not in requested children list
@@ -1828,7 +1828,7 @@ class _group_class:
         # extract data:
         self.get_attributes(element.attrib)
         self.set_anonymous_path()
-        self.get_regexes(element.text)
+        self.get_regexes(element.text or "")
         self.get_children(list(element))
 
     def set_anonymous_path(self):
-- 
2.43.0


From 559026a9fd53a2959730e0c42ff1c4ce0a70646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 110/119] fix: values captured by the line with separate
 _start_ indicator were lost

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8eb5da0..3bf170d 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1981,9 +1981,13 @@ class _group_class:
                     action = variableObj.SAVEACTION
             if skip_regex is True:
                 continue
+            regex = re.compile(regex)
+            # line with _start_ indicator that captures values starts the record with them
+            if action == "startempty" and regex.groupindex:
+                action = "start"
             regexes.append(
                 {
-                    "REGEX": re.compile(regex),  # re element
+                    "REGEX": regex,  # re element
                     "VARIABLES": variables,  # Dict of variables objects
                     "ACTION": action,  # to indicate the save action
                     "GROUP": self,  # string contains current group object reference
-- 
2.43.0


From 50c8cb270fde274e1dfe2e15410fefb74baa3105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 111/119] fix: records were lost if other start lines of the
 group matched same text but failed their conditions

---
 ttp/ttp.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3bf170d..f904cee 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2899,6 +2899,13 @@ class _results_class:
                                     re_["GROUP"].parent_group_id in self.started_groups
                                 ):
                                     break
+                            else:
+                                # third run - use first result that passed validation check
+                                for index in startempty_re:
+                                    re_ = result[index][0]
+                                    result_data = result[index][1]
+                                    if result_data != False:
+                                        break
                     # start RE preferred next
                     elif start_re:
                         # first run - look for results with same path as current record
@@ -2929,6 +2936,13 @@ class _results_class:
                                     re_["GROUP"].parent_group_id in self.started_groups
                                 ):
                                     break
+                            else:
+                                # third run - use first result that passed validation check
+                                for index in start_re:
+                                    re_ = result[index][0]
+                                    result_data = result[index][1]
+                                    if result_data != False:
+                                        break
                     # normal and end REs preferred next
                     elif normal_re:
                         for index in normal_re:
-- 
2.43.0


From a0505e02234e9112c4f081defad4d9bbd7b1954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:14 +0000
Subject: [PATCH 112/119] fix: lines failing conditions of several start lines
 ended one group only and hid matches of other lines

---
 ttp/ttp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f904cee..21c0455 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2869,6 +2869,14 @@ class _results_class:
                             startempty_re.append(index)
                         else:
                             normal_re.append(index)
+                    # if all start matches failed validation check, their groups are
+                    # ended, match of normal RE can be used instead of them
+                    start_matches = [result[i] for i in startempty_re + start_re]
+                    if all(item[1] is False for item in start_matches):
+                        for item in start_matches:
+                            self.ended_groups.add(item[0]["GROUP"].group_id)
+                        if normal_re:
+                            startempty_re, start_re = [], []
                     # startempty RE always more preferred
                     if startempty_re:
                         # first run - look for results with same path as current record
-- 
2.43.0


From f94e67440f91606ba0ff62007c9925a726cad818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 113/119] fix: children of group attached to sibling group with
 name that starts with name of their parent

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 21c0455..ede2f29 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2900,7 +2900,7 @@ class _results_class:
                                 # prefer children of current record group
                                 elif self.record["GRP_ID"] and re_["GROUP"].group_id[
                                     0
-                                ].startswith(self.record["GRP_ID"][0]):
+                                ].startswith(self.record["GRP_ID"][0] + "."):
                                     break
                                 # prefer results for group that has parent started
                                 elif (
@@ -2937,7 +2937,7 @@ class _results_class:
                                 # prefer children of current record group
                                 elif self.record["GRP_ID"] and re_["GROUP"].group_id[
                                     0
-                                ].startswith(self.record["GRP_ID"][0]):
+                                ].startswith(self.record["GRP_ID"][0] + "."):
                                     break
                                 # prefer results for group that has parent started
                                 elif (
-- 
2.43.0


From 45039490947a33a0cf09e1b01a152f0b1767ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 114/119] fix: dns and rdns functions failed on malformed
 names, non addresses and server failures

---
 ttp/match/dns_lookups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 544b768..4757f5c 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -29,6 +29,8 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
         # re-initialize dns_resolver object, as it will fail to resolve names for
         # whatever reason after it timeouts
         globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+    except dnspython.dns.exception.DNSException:
+        pass
     return data, None
 
 
@@ -43,8 +45,8 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
             servers = [i.strip() for i in servers.split(",")]
         dns_resolver_obj.nameservers = servers
     dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
-    rev_name = dns.reversename.from_address(data)
     try:
+        rev_name = dns.reversename.from_address(data)
         reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: reverse_record}}
@@ -56,4 +58,6 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
         pass
     except dnspython.dns.exception.Timeout:
         globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+    except dnspython.dns.exception.DNSException:
+        pass
     return data, None
-- 
2.43.0


From aeb5216c3cb81433c4fc225424796b7481be09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 115/119] fix: servers given to dns functions were used by
 lookups that have no servers argument

---
 ttp/match/dns_lookups.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 4757f5c..68e2ec7 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -9,14 +9,17 @@ dns_resolver_obj = dnspython.dns.resolver.Resolver()
 def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
     """Performs forward dns lookup using dns_resolver_obj global object"""
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
+    resolver = dns_resolver_obj
     if servers:
         if isinstance(servers, str):
             servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = sorted(servers)
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
+        # other lookups must not use these servers
+        resolver = dnspython.dns.resolver.Resolver()
+        resolver.nameservers = sorted(servers)
+    resolver.timeout = timeout
+    resolver.lifetime = timeout * len(resolver.nameservers)
     try:
-        dns_records = [i.to_text() for i in dns_resolver_obj.query(data, record)]
+        dns_records = [i.to_text() for i in resolver.query(data, record)]
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
         else:
@@ -39,15 +42,18 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
     data - ip address string, e.g. 192.168.0.1
     """
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
+    resolver = dns_resolver_obj
     if servers:
         if isinstance(servers, str):
             servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = servers
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
+        # other lookups must not use these servers
+        resolver = dnspython.dns.resolver.Resolver()
+        resolver.nameservers = servers
+    resolver.timeout = timeout
+    resolver.lifetime = timeout * len(resolver.nameservers)
     try:
         rev_name = dns.reversename.from_address(data)
-        reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
+        reverse_record = str(resolver.query(rev_name, "PTR")[0]).rstrip(".")
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: reverse_record}}
         else:
-- 
2.43.0


From 13332fd982fa9acd908db31fd0543061d39fbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 116/119] fix: dns function results were not sorted

---
 ttp/match/dns_lookups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 68e2ec7..db07f88 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -19,7 +19,7 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
     resolver.timeout = timeout
     resolver.lifetime = timeout * len(resolver.nameservers)
     try:
-        dns_records = [i.to_text() for i in resolver.query(data, record)]
+        dns_records = sorted(i.to_text() for i in resolver.query(data, record))
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
         else:
-- 
2.43.0


From 5b51a05bc532d1961a02da43318230a1e6c400d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 117/119] fix: yang modules with submodule that has definitions
 only were not implemented by validate_yangson library

---
 ttp/output/validate_yangson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index e2091f7..7370721 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -128,7 +128,7 @@ def _make_library(ydir):
             else:
                 print("Submodule {} revision mismatch.".format(subm))
                 return 1
-            imp_only = imp_only or srec["import-only"]
+            imp_only = imp_only and srec["import-only"]
             fts += srec["features"]
             sarr.append(sen)
         if fts:
-- 
2.43.0


From eaf9de0ebc8a7396343eefd2c5a7c7d1ddcb50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:56 +0000
Subject: [PATCH 118/119] fix: multiprocess parsing hung if macro ended worker
 process while results of its previous item were being sent

---
 ttp/ttp.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ede2f29..b39b462 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -9,16 +9,11 @@ import copy
 import ast
 import pickle
 from xml.etree import cElementTree as ET
-from multiprocessing import Process, cpu_count, JoinableQueue, Queue
+from multiprocessing import Process, cpu_count, JoinableQueue, Lock, Pipe
 from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
 
-try:
-    from queue import Empty
-except ImportError:  # Python 2
-    from Queue import Empty
-
 # Initiate global variables
 log = logging.getLogger(__name__)
 
@@ -492,12 +487,14 @@ class ttp:
         for template in self._templates:
             num_jobs = 0
             tasks = JoinableQueue()
-            results_queue = Queue()
+            results_reader, results_writer = Pipe(duplex=False)
+            results_lock = Lock()
 
             workers = [
                 _worker(
                     tasks,
-                    results_queue,
+                    results_writer,
+                    results_lock,
                     lookups=template.lookups,
                     vars=template.vars,
                     groups=template.groups,
@@ -530,16 +527,15 @@ class ttp:
                 result = None
                 while result is None:
                     all_ended = not any(w.is_alive() for w in workers)
-                    try:
-                        result = results_queue.get(timeout=1)
-                    except Empty:
-                        # task of the worker that was killed never completes
-                        if all_ended or any(w.exitcode for w in workers):
-                            [w.terminate() for w in workers]
-                            [w.join() for w in workers]
-                            raise RuntimeError(
-                                "ttp.parse: worker process ended unexpectedly"
-                            )
+                    if results_reader.poll(1):
+                        result = results_reader.recv()
+                    # task of the worker that was killed never completes
+                    elif all_ended or any(w.exitcode for w in workers):
+                        [w.terminate() for w in workers]
+                        [w.join() for w in workers]
+                        raise RuntimeError(
+                            "ttp.parse: worker process ended unexpectedly"
+                        )
                 index, result = result
                 if isinstance(result, Exception):
                     errors.append(result)
@@ -882,7 +878,8 @@ class _worker(Process):
     def __init__(
         self,
         task_queue,
-        results_queue,
+        results_writer,
+        results_lock,
         lookups,
         vars,
         groups,
@@ -901,7 +898,8 @@ class _worker(Process):
         self._ttp_["template_obj"] = template_obj
         self._ttp_["ttp_object"] = ttp_object
         self.task_queue = task_queue
-        self.results_queue = results_queue
+        self.results_writer = results_writer
+        self.results_lock = results_lock
         self.macro_text = macro_text
         self.parserObj = _parser_class(lookups, vars, groups, _ttp_=self._ttp_)
 
@@ -956,7 +954,10 @@ class _worker(Process):
                 result = RuntimeError("{}: {}".format(type(e).__name__, e))
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put((next_task["index"], result))
+            # send from this thread, so that macro that ends the process cannot
+            # leave the lock held and other processes waiting for it
+            with self.results_lock:
+                self.results_writer.send((next_task["index"], result))
         return
 
 
-- 
2.43.0


From 0435607120974e9e08efe405f885a9be8b814258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:51 +0000
Subject: [PATCH 119/119] fix: value of a line repeated after child group
 replaced the first value of the record

---
 ttp/ttp.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b39b462..a18d979 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2825,6 +2825,9 @@ class _results_class:
         self.dropped_groups = (
             set()
         )  # keeps track of groups with last record dropped by group functions
+        self.matched_names = (
+            {}
+        )  # keeps track of names of matches groups' last records already have
         self.record = {
             "result": {},
             "PATH": [],
@@ -3255,6 +3258,7 @@ class _results_class:
             "GRP_ID": REDICT["GROUP"].group_id,
         }
         self.dropped_groups.discard(self.record["GRP_ID"])
+        self.matched_names[self.record["GRP_ID"]] = set(result)
 
     def startempty(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3289,6 +3293,7 @@ class _results_class:
             "GRP_ID": REDICT["GROUP"].group_id,
         }
         self.dropped_groups.discard(self.record["GRP_ID"])
+        self.matched_names[self.record["GRP_ID"]] = set()
 
     def start_tail(self, result, PATH, DEFAULTS, FUNCTIONS, REDICT):
         """
@@ -3297,6 +3302,7 @@ class _results_class:
         """
         group_id = REDICT["GROUP"].group_id
         dropped = group_id in self.dropped_groups
+        matched_names = self.matched_names.get(group_id, set())
         self.start(
             result=result,
             PATH=PATH,
@@ -3304,6 +3310,7 @@ class _results_class:
             FUNCTIONS=FUNCTIONS,
             REDICT=REDICT,
         )
+        self.matched_names[group_id].update(matched_names)
         # no need to add DEFAULTS for this record, DEFAULTS added by previous group
         self.record["DEFAULTS"] = {}
         if dropped:
@@ -3319,14 +3326,24 @@ class _results_class:
         FUNCTIONS = FUNCTIONS or []
         if self.record["PATH"] == PATH:  # if same path - save into self.record
             # update without overriding already existing values:
+            if self.record.get("merge_with_last"):
+                result = self.new_matches(result, self.record["GRP_ID"])
+            names = self.matched_names.setdefault(self.record["GRP_ID"], set())
+            names.update(result)
             result.update(self.record["result"])
             self.record["result"] = result
         # if different path - that can happen if we have group ended and result
         # actually belongs to another already started group, hence need to save
         # directly into results
         elif REDICT["GROUP"].group_id in self.started_groups:
+            result = self.new_matches(result, REDICT["GROUP"].group_id)
             self.start_tail(result, PATH, DEFAULTS, FUNCTIONS, REDICT)
 
+    def new_matches(self, result, group_id):
+        """Method to leave out matches that last record of the group already has"""
+        names = self.matched_names.get(group_id, ())
+        return {k: v for k, v in result.items() if k not in names}
+
     def join_values(self, current, new, joinchar):
         """Method to join two match results in one"""
         # join strings:
-- 
2.43.0

