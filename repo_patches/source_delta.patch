From 9009b80e5da7e8c727f6d32a62347f22de26fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 01/62] fix: never leave an empty block when its only statement
 is removed

---
 paconvert/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..6bf3b71 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -55,6 +55,17 @@ class BaseTransformer(ast.NodeTransformer):
     def transform(self):
         self.visit(self.root)
         self.insert_scope()
+        self.fill_empty_block()
+
+    def fill_empty_block(self):
+        # the removed statement can be the only one of its block
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.mod):
+                continue
+            if isinstance(getattr(node, "body", None), list) and not node.body:
+                node.body.append(ast.Pass())
+            if isinstance(node, ast.Try) and not (node.handlers or node.finalbody):
+                node.finalbody.append(ast.Pass())
 
     def visit(self, node):
         self.node_stack.append(node)
-- 
2.43.0


From 6c79401ca3802be7b71e2bae9568cf05c5bc8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 02/62] fix: keep the module docstring and __future__ imports
 first when code is inserted

---
 paconvert/base.py  | 19 +++++++++++++++++++
 paconvert/utils.py | 22 ++++++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 6bf3b71..942fb97 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -117,6 +117,8 @@ class BaseTransformer(ast.NodeTransformer):
                     insert_lines.items(), key=lambda x: x[0], reverse=True
                 )
                 for index, lines in insert_lines:
+                    if scope_node is self.root and body == "body":
+                        index = max(index, self.header_num())
                     log_debug(
                         self.logger,
                         "insert extra {} lines finally".format(len(lines)),
@@ -128,6 +130,23 @@ class BaseTransformer(ast.NodeTransformer):
                         except:
                             getattr(scope_node, body).insert(0, line)
 
+    def header_num(self):
+        # docstring and 'from __future__ import' must stay at the beginning of file
+        num = 0
+        for i, node in enumerate(self.root.body):
+            if isinstance(node, ast.ImportFrom) and node.module == "__future__":
+                num = i + 1
+            elif (
+                i == 0
+                and isinstance(node, ast.Expr)
+                and isinstance(node.value, ast.Constant)
+                and isinstance(node.value.value, str)
+            ):
+                num = 1
+            else:
+                break
+        return num
+
     def record_scope(self, scope_body_index, node_list):
         if not isinstance(node_list, list):
             node_list = [node_list]
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..0c676b1 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import ast
 import collections
 import os
 import threading
@@ -85,9 +86,26 @@ class UtilsFileHelper(object):
             self.code_map[code_hash] = code
         return code_hash
 
+    def _find_docstring_end_idx(self, lines):
+        try:
+            first = ast.parse(
+                "\n".join(
+                    line[6:] if line.startswith(">>>>>>") else line for line in lines
+                )
+            ).body[0]
+        except (SyntaxError, IndexError):
+            return 0
+        if (
+            isinstance(first, ast.Expr)
+            and isinstance(first.value, ast.Constant)
+            and isinstance(first.value.value, str)
+        ):
+            return first.end_lineno
+        return 0
+
     def _find_import_insert_idx(self, lines):
-        insert_idx = 0
-        i = 0
+        # never insert before the docstring or the imports following it
+        insert_idx = i = self._find_docstring_end_idx(lines)
         n = len(lines)
 
         while i < n:
-- 
2.43.0


From 74506a60287d5a87a4f64ab77df3e5152de5f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:05 +0000
Subject: [PATCH 03/62] fix: read the converted file back as UTF-8 and split it
 only at newlines when adding helpers

---
 paconvert/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 0c676b1..d21d599 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -170,11 +170,11 @@ class UtilsFileHelper(object):
 
         # insert the new code into the existing file
         if not self.is_dir_mode:
-            with open(self.fileName, "r") as f:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
             # find a position to insert the new code
-            lines = existing_content.splitlines()
+            lines = existing_content.split("\n")
             insert_idx = self._find_import_insert_idx(lines)
 
             # insert the new code after all imports
-- 
2.43.0


From acd1019134626564251ddeeda172576fc7c3c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:09 +0000
Subject: [PATCH 04/62] fix: insert generated lines into the innermost scope,
 never into lambda, comprehension or loop conditions

---
 paconvert/base.py                             | 64 ++++++++++++-------
 .../transformer/custom_op_transformer.py      |  2 +-
 2 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 942fb97..7a0e487 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -84,29 +84,14 @@ class BaseTransformer(ast.NodeTransformer):
         lower = -1 * (len(self.node_stack) + 1)
         for i in range(-1, lower, -1):
             if self.node_stack[i] == scope_node:
-                for index, node in enumerate(scope_node.body):
-                    if node == self.node_stack[i + 1]:
-                        return scope_node, "body", index
-
-                # else in (if scope)
-                if getattr(scope_node, "orelse", None):
-                    for index, node in enumerate(scope_node.orelse):
-                        if node == self.node_stack[i + 1]:
-                            return scope_node, "orelse", index
-
-                # decorator in (function scope)
-                if getattr(scope_node, "decorator_list", None):
-                    for index, node in enumerate(scope_node.decorator_list):
-                        if node == self.node_stack[i + 1]:
-                            return scope_node, "decorator_list", index
-
-                # finnally in (try scope)
-                if getattr(scope_node, "finalbody", None):
-                    for index, node in enumerate(scope_node.finalbody):
+                # else in (if scope), finally in (try scope)
+                for body in ["body", "orelse", "finalbody"]:
+                    for index, node in enumerate(getattr(scope_node, body, [])):
                         if node == self.node_stack[i + 1]:
-                            return scope_node, "finalbody", index
+                            return scope_node, body, index
 
-        return self.scope_body_index(-2)
+        # decorator, default value, base class, condition... belong to outer scope
+        return self.scope_body_index(level - 1)
 
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
@@ -173,6 +158,26 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             self.scope_insert_lines[scope_node][body] = {index: node_list}
 
+    def can_insert_before_stmt(self):
+        # these are evaluated not exactly once when the statement is executed,
+        # so lines can not be moved out and inserted before the statement
+        for node in self.node_stack[-2::-1]:
+            if isinstance(
+                node,
+                (
+                    ast.Lambda,
+                    ast.ListComp,
+                    ast.SetComp,
+                    ast.DictComp,
+                    ast.GeneratorExp,
+                    ast.While,
+                ),
+            ):
+                return False
+            if isinstance(node, ast.stmt):
+                break
+        return True
+
     def insert_multi_node(self, node_list):
         if len(node_list) == 0:
             return True
@@ -191,7 +196,7 @@ class BaseTransformer(ast.NodeTransformer):
             self.record_scope((self.root, "body", 0), import_nodes)
 
         if len(other_nodes) > 0:
-            if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
+            if not self.can_insert_before_stmt():
                 return False
             self.record_scope(self.scope_body_index(), other_nodes)
 
@@ -306,6 +311,15 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncFunctionDef(self, node):
+        return self.visit_FunctionDef(node)
+
+    def visit_ClassDef(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_While(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
@@ -336,6 +350,12 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_AsyncFor(self, node):
+        return self.visit_For(node)
+
+    def visit_AsyncWith(self, node):
+        return self.visit_With(node)
+
     def visit_With(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..bd104fb 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -208,7 +208,7 @@ class CustomOpTransformer(BaseTransformer):
             return None
 
     def visit_ClassDef(self, node):
-        super(CustomOpTransformer, self).generic_visit(node)
+        super(CustomOpTransformer, self).visit_ClassDef(node)
         for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
             if autograd_func_node == node:
                 log_debug(
-- 
2.43.0


From bdd5c1136a0308cad422457d78bce1f5e38d82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:16 +0000
Subject: [PATCH 05/62] fix: insert generated lines before their statement even
 if earlier statements were removed

---
 paconvert/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 7a0e487..a725531 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -47,6 +47,7 @@ class BaseTransformer(ast.NodeTransformer):
         self.node_stack = []
         self.scope_stack = []
         self.scope_insert_lines = collections.defaultdict(dict)
+        self.scope_origin_body = {}
         self.logger = logger
         self.black_list = []
         self.all_api_map = all_api_map
@@ -102,6 +103,7 @@ class BaseTransformer(ast.NodeTransformer):
                     insert_lines.items(), key=lambda x: x[0], reverse=True
                 )
                 for index, lines in insert_lines:
+                    index = self.current_index(scope_node, body, index)
                     if scope_node is self.root and body == "body":
                         index = max(index, self.header_num())
                     log_debug(
@@ -115,6 +117,14 @@ class BaseTransformer(ast.NodeTransformer):
                         except:
                             getattr(scope_node, body).insert(0, line)
 
+    def current_index(self, scope_node, body, index):
+        # statements can be removed after the index is recorded
+        current_body = getattr(scope_node, body)
+        for node in self.scope_origin_body[(scope_node, body)][index:]:
+            if node in current_body:
+                return current_body.index(node)
+        return len(current_body)
+
     def header_num(self):
         # docstring and 'from __future__ import' must stay at the beginning of file
         num = 0
@@ -141,6 +151,9 @@ class BaseTransformer(ast.NodeTransformer):
         scope_node = scope_body_index[0]
         body = scope_body_index[1]
         index = scope_body_index[2]
+        self.scope_origin_body.setdefault(
+            (scope_node, body), list(getattr(scope_node, body))
+        )
 
         if body in self.scope_insert_lines[scope_node]:
             if index in self.scope_insert_lines[scope_node][body]:
-- 
2.43.0


From b507156c675d87985beda082b1573f4742a91a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 06/62] fix: mark unsupported lines by tokens, so quotes,
 f-strings and blank lines can not hide or fake a mark

---
 paconvert/converter.py | 77 +++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..858c5ee 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -17,10 +17,12 @@
 
 import ast
 import collections
+import io
 import logging
 import os
 import re
 import shutil
+import tokenize
 import black
 import isort
 import astor
@@ -487,60 +489,57 @@ class Converter:
             scan_code = self.mask_change_prefix_apis(code, file)
 
         lines = code.split("\n")
-        scan_lines = scan_code.split("\n")
+        scan_lines = self.remove_string(scan_code).split("\n")
         mark_next_line = False
-        in_str = False
-        bracket_num = 0
         for i, line in enumerate(lines):
-            if "Not Support auto convert" in line:
+            if line.strip().startswith(
+                ('"""Not Support auto convert', '"""C++ Custom OP: only convert')
+            ):
                 mark_next_line = True
                 continue
-            else:
-                # func decorator_list: @
-                if mark_next_line and line != "@":
-                    lines[i] = ">>>>>>" + line
-                    mark_next_line = False
-                    continue
-
-            # """ torch.* """
-            # " torch.* "
-            # ' torch.* '
-            # " (torch "
-            # " torch) "
-            # just remove the str, avoid str influence the torch api recognize
-            scan_source = scan_lines[i]
-            rm_str_line = re.sub(r"[\"]{3}[^\"]+[\"]{3}", "", scan_source)
-            rm_str_line = re.sub(r"[\"]{1}[^\"]+[\"]{1}", "", rm_str_line)
-            rm_str_line = re.sub(r"[\']{1}[^\']+[\']{1}", "", rm_str_line)
-
-            # """
-            # torch.*
-            # """
-            last_in_str = in_str
-            if rm_str_line.count('"""') % 2 != 0:
-                in_str = not in_str
-            if last_in_str or in_str:
+            elif mark_next_line and line.strip():
+                lines[i] = ">>>>>>" + line
+                mark_next_line = False
                 continue
 
-            scan_line = rm_str_line
+            scan_line = scan_lines[i]
             if self.mode == "min":
-                stripped_line = rm_str_line.strip()
-                if stripped_line.startswith("import ") or stripped_line.startswith(
-                    "from "
-                ):
+                if scan_line.strip().startswith(("import ", "from ")):
                     continue
 
             for torch_package in self.imports_map[file]["torch_packages"]:
-                if scan_line.startswith("%s." % torch_package):
-                    lines[i] = ">>>>>>" + line
-                    break
-
                 # model_torch.npy
                 # modeltorch.npy
                 # 1torch.npy
                 # paddleformers.transformers.*
-                if re.match(r".*[^\w\.]{1}%s\." % torch_package, scan_line):
+                if re.search(r"(?<![\w\.])%s\s*\." % torch_package, scan_line):
                     lines[i] = ">>>>>>" + line
                     break
 
         return "\n".join(lines)
+
+    def remove_string(self, code):
+        # """ torch.* """
+        # " torch.* "
+        # ' torch.* '
+        # " (torch "
+        # " torch) "
+        # just remove the str, avoid str influence the torch api recognize
+        lines = code.split("\n")
+        string_types = [tokenize.STRING, tokenize.COMMENT]
+        for name in ["FSTRING_START", "FSTRING_MIDDLE", "FSTRING_END"]:
+            if hasattr(tokenize, name):
+                string_types.append(getattr(tokenize, name))
+        try:
+            for token in tokenize.generate_tokens(io.StringIO(code).readline):
+                if token.type not in string_types:
+                    continue
+                (start_row, start_col), (end_row, end_col) = token.start, token.end
+                for row in range(start_row, end_row + 1):
+                    line = lines[row - 1]
+                    start = start_col if row == start_row else 0
+                    end = end_col if row == end_row else len(line)
+                    lines[row - 1] = line[:start] + " " * (end - start) + line[end:]
+        except (tokenize.TokenError, SyntaxError) as e:
+            log_info(self.logger, "Skip remove string due to error: {}".format(str(e)))
+        return "\n".join(lines)
-- 
2.43.0


From 2a407c94840091514a25ed8fd10df2081dd5799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 07/62] fix: keep the names after a local module in the same
 import statement

---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..328395a 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From 261687791c09b4474e5818feb6d6caaad54f2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 08/62] fix: emit imports and visit files in a fixed order,
 independent of hash seed and directory order

---
 paconvert/converter.py                      | 2 +-
 paconvert/transformer/import_transformer.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 858c5ee..68dce8a 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -43,7 +43,7 @@ from paconvert.global_var import GlobalManager
 
 
 def listdir_nohidden(path):
-    for f in os.listdir(path):
+    for f in sorted(os.listdir(path)):
         if not f.startswith("."):
             yield f
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 328395a..8cf4f31 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -507,12 +507,14 @@ class ImportTransformer(BaseTransformer):
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-        for torch_package in self.imports_map[self.file]["torch_packages"]:
+        for torch_package in sorted(self.imports_map[self.file]["torch_packages"]):
             paddle_package_list.append(
                 GlobalManager.TORCH_PACKAGE_MAPPING[torch_package]
             )
 
-        for may_torch_package in self.imports_map[self.file]["may_torch_packages"]:
+        for may_torch_package in sorted(
+            self.imports_map[self.file]["may_torch_packages"]
+        ):
             paddle_package_list.append(may_torch_package)
 
         for paddle_package in paddle_package_list:
-- 
2.43.0


From 2d8d17c15d98780b54cbbf67b111ae0b365e910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 09/62] fix: start every conversion with its own helper file
 and empty helper code

---
 paconvert/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index d21d599..72477cf 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -53,7 +53,8 @@ class UtilsFileHelper(object):
     )
 
     def __init__(self, fileName=None, is_dir_mode=False, logger=None):
-        if not hasattr(self, "initialized"):
+        if fileName is not None or not hasattr(self, "initialized"):
+            # each conversion has its own file and helper code
             super().__init__()
             self.fileName = fileName
             self.is_dir_mode = is_dir_mode
-- 
2.43.0


From dfe7efdd40fed5ad2afd0aa73bb62f88f19853d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 10/62] fix: do not convert the output project into itself when
 it lies inside the input project

---
 paconvert/converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 68dce8a..1fa0560 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -127,6 +127,7 @@ class Converter:
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
 
+        self.out_dir = out_dir
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
 
@@ -343,6 +344,9 @@ class Converter:
             for item in in_dir_item:
                 old_path = os.path.join(in_dir, item)
                 new_path = os.path.join(out_dir, item)
+                # the output project is not a part of the input project
+                if os.path.abspath(old_path) == self.out_dir:
+                    continue
 
                 is_exclude = False
                 if exclude:
-- 
2.43.0


From 508e68c2d828cf696b874b814ab1213ddcc0c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:09 +0000
Subject: [PATCH 11/62] fix: a misidentified usage must not drop the other
 usages from the API list

---
 paconvert/transformer/basic_transformer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..47a8a76 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -169,7 +169,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_one_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -344,7 +344,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_one_count(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -492,7 +492,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_one_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -693,7 +693,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_one_count(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
@@ -766,6 +766,12 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def remove_one_count(self, torch_api):
+        # other usages of this api can be valid
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From 66473cf4070106e2f0ddba696cf36e1b051babda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 12/62] fix: do not repeat the attribute name of an aligned
 class in min mode

---
 paconvert/transformer/basic_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 47a8a76..d13785f 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -205,7 +205,9 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
-                matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
+                matcher = self.get_api_matcher(
+                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                )
                 if matcher:
                     torch_api = ".".join(attr_list[:-1])
                     paddle_api = matcher.get_paddle_api()
-- 
2.43.0


From 196021ccf1b6192a2851ed4b4c1438a082feb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 13/62] fix: keep every **kwargs of a call that has several

---
 paconvert/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index a725531..93b506a 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -486,6 +486,9 @@ class BaseMatcher(object):
             if k in unsupport_args:
                 return None
             v = astor.to_source(node.value).strip("\n")
+            if k is None and k in new_kwargs:
+                # 'torch.rot90(tensor, **config1, **config2)'
+                v = "{{**{}, **{}}}".format(new_kwargs[k], v)
             new_kwargs[k] = v
 
         return new_kwargs
-- 
2.43.0


From db8738ba5148469af9b0caa1bece1627c95d9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 14/62] fix: generated variable names depend only on the file
 and never clash with its own names

---
 paconvert/converter.py |  9 +++++++--
 paconvert/utils.py     | 25 ++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 1fa0560..562640b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -35,13 +35,17 @@ from paconvert.transformer.custom_op_transformer import (
 )
 from paconvert.utils import (
     UtilsFileHelper,
-    get_unique_name,
+    UniqueNameGenerator,
+    reset_unique_name,
     log_info,
     log_warning,
 )
 from paconvert.global_var import GlobalManager
 
 
+LoggerNameGenerator = UniqueNameGenerator()
+
+
 def listdir_nohidden(path):
     for f in sorted(os.listdir(path)):
         if not f.startswith("."):
@@ -66,7 +70,7 @@ class Converter:
         self.imports_map = collections.defaultdict(dict)
         self.torch_api_count = 0
         self.success_api_count = 0
-        self.logger = logging.getLogger(name=get_unique_name("Converter"))
+        self.logger = logging.getLogger(name=LoggerNameGenerator("Converter"))
         if log_dir is None:
             self.logger.addHandler(logging.StreamHandler())
         elif log_dir == "disable":
@@ -378,6 +382,7 @@ class Converter:
                     self.line_count += len(code.splitlines())
                 root = ast.parse(code)
 
+            reset_unique_name(root)
             self.transfer_node(root, old_path)
             code = astor.to_source(root)
 
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 72477cf..54ae216 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -22,12 +22,18 @@ import isort
 
 class UniqueNameGenerator:
     def __init__(self):
+        self.reset()
+
+    def reset(self, used_names=()):
         self.ids = collections.defaultdict(int)
+        self.used_names = set(used_names)
 
     def __call__(self, key):
-        counter = self.ids[key]
-        self.ids[key] += 1
-        return "_".join([key, str(counter)])
+        while True:
+            name = "_".join([key, str(self.ids[key])])
+            self.ids[key] += 1
+            if name not in self.used_names:
+                return name
 
 
 Generator = UniqueNameGenerator()
@@ -37,6 +43,19 @@ def get_unique_name(key):
     return Generator(key)
 
 
+def reset_unique_name(root):
+    """
+    The generated names only depend on the file, and differ from the names in it
+    """
+    names = set()
+    for node in ast.walk(root):
+        for field in ("id", "arg", "name", "asname"):
+            name = getattr(node, field, None)
+            if isinstance(name, str):
+                names.add(name)
+    Generator.reset(names)
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From 37727bde29951ad2e801ae42a9553127935ddec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:51 +0000
Subject: [PATCH 15/62] fix: temporary variables of generated code never clash
 with the user's names or with each other

---
 paconvert/api_matcher.py | 80 +++++++++++++++++++++++++++++-----------
 paconvert/base.py        |  8 +++-
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..4ac76b7 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -987,6 +987,7 @@ class MakeTMatcher(BaseMatcher):
                 out
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out")
             code = API_TEMPLATE.format(
                 kwargs["shape"],
                 kwargs["dtype"],
@@ -2455,48 +2456,64 @@ class IndexCopyMatcher(BaseMatcher):
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.assign(paddle.scatter({}, temp_index, new_t).reshape(temp_shape), {})
+                temp_x, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                for temp_i in range(1, times):
+                    temp_index = paddle.concat([temp_index, {index}+len({index})*temp_i])
+                paddle.assign(paddle.scatter(temp_x, temp_index, new_t).reshape(temp_shape), {})
                 """
             )
 
+            API_TEMPLATE = self.unique_temp(
+                API_TEMPLATE,
+                "times",
+                "temp_shape",
+                "temp_index",
+                "temp_x",
+                "new_t",
+                "temp_i",
+            )
             code = API_TEMPLATE.format(
                 kwargs["input"],
                 kwargs["dim"],
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
                 out_v,
+                index=kwargs["index"],
             )
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.scatter({}, temp_index, new_t).reshape(temp_shape)
+                temp_x, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                for temp_i in range(1, times):
+                    temp_index = paddle.concat([temp_index, {index}+len({index})*temp_i])
+                paddle.scatter(temp_x, temp_index, new_t).reshape(temp_shape)
                 """
             )
 
+            API_TEMPLATE = self.unique_temp(
+                API_TEMPLATE,
+                "times",
+                "temp_shape",
+                "temp_index",
+                "temp_x",
+                "new_t",
+                "temp_i",
+            )
             code = API_TEMPLATE.format(
                 kwargs["input"],
                 kwargs["dim"],
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
+                index=kwargs["index"],
             )
 
         return code
@@ -3424,6 +3441,7 @@ class SLogDetMatcher(BaseMatcher):
                 paddle.assign(res[0], {}[0]), paddle.assign(res[1], {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "res")
             code = API_TEMPLATE.format(x_v, out_v, out_v)
         else:
             API_TEMPLATE = textwrap.dedent(
@@ -3432,6 +3450,7 @@ class SLogDetMatcher(BaseMatcher):
                 res[0], res[1].astype("float32")
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "res")
             code = API_TEMPLATE.format(x_v)
 
         return code
@@ -3499,6 +3518,7 @@ class LinalgInvExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(kwargs["A"], kwargs["A"], out_v, out_v)
             return code
         else:
@@ -3524,6 +3544,7 @@ class LinalgCholeskyExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 kwargs["input"], kwargs["upper"], kwargs["input"], out_v, out_v
             )
@@ -3631,6 +3652,7 @@ class DoubleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -3651,6 +3673,7 @@ class TripleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1]), paddle.assign(out3, {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2", "out3")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v, out_v
             )
@@ -3912,6 +3935,7 @@ class SortMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(kwargs), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -4131,6 +4155,7 @@ class LRSchedulerMatcher(BaseMatcher):
             tmp_lr
             """
         )
+        API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_lr")
         code = API_TEMPLATE.format(
             self.get_paddle_api(), self.kwargs_to_str(kwargs), optimizer
         )
@@ -4257,6 +4282,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1]), paddle.assign(tmp_info, {}[2])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_lu", "tmp_p", "tmp_info")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(),
                     self.kwargs_to_str(new_kwargs),
@@ -4271,6 +4297,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_lu", "tmp_p")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(new_kwargs), out_v, out_v
                 )
@@ -4295,6 +4322,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.assign(P, {}[0]), paddle.assign(L, {}[1]), paddle.assign(U, {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_lu", "tmp_p", "P", "L", "U")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
                 out_v,
@@ -4308,6 +4336,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.linalg.lu_unpack(tmp_lu, tmp_p)
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_lu", "tmp_p")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
             )
@@ -4339,6 +4368,7 @@ class QrMatcher(BaseMatcher):
                 paddle.assign(tmp_q, {}[0]), paddle.assign(tmp_r, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_q", "tmp_r")
 
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
@@ -4369,6 +4399,7 @@ class SvdMatcher(BaseMatcher):
                 paddle.assign(tmp_u, {}[0]), paddle.assign(tmp_s, {}[1]), paddle.assign(tmp_v.conj().t(), {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4383,6 +4414,7 @@ class SvdMatcher(BaseMatcher):
                 tmp_u, tmp_s, tmp_v.conj().t()
                 """
             )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4688,6 +4720,7 @@ class TensorInplaceReserveTypeMatcher(BaseMatcher):
             {}({}).cast_(_x_dtype_)
             """
         )
+        API_TEMPLATE = self.unique_temp(API_TEMPLATE, "_x_dtype_")
 
         convert_tensor = self.api_mapping_dict.get("convert_tensor", {})
 
@@ -5002,9 +5035,8 @@ class Lu_unpackMatcher(BaseMatcher):
 
         out_v = kwargs.pop("out", "None")
         if out_v != "None":
-            out1 = "out1"
-            out2 = "out2"
-            out3 = "out3"
+            temp_outs = [get_unique_name(k) for k in ["out1", "out2", "out3"]]
+            out1, out2, out3 = temp_outs
             if "unpack_ludata" in kwargs and kwargs["unpack_ludata"] == "(False)":
                 out2 = "paddle.paddle.to_tensor([])"
                 out3 = "paddle.paddle.to_tensor([])"
@@ -5012,11 +5044,12 @@ class Lu_unpackMatcher(BaseMatcher):
                 out1 = "paddle.paddle.to_tensor([])"
             API_TEMPLATE = textwrap.dedent(
                 """
-                out1, out2, out3 = {}({})
+                {} = {}({})
                 paddle.assign({}, {}[0]), paddle.assign({}, {}[1]), paddle.assign({}, {}[2])
                 """
             )
             code = API_TEMPLATE.format(
+                ", ".join(temp_outs),
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
                 out1,
@@ -5046,6 +5079,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5062,6 +5096,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5098,6 +5133,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     paddleclass=self.paddleClass,
                     kwargs=self.kwargs_to_str(kwargs),
@@ -5111,6 +5147,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     kwargs=self.kwargs_to_str(kwargs),
                     kwargs_bin_edges=self.kwargs_to_str(kwargs_bin_edges),
@@ -5137,13 +5174,14 @@ class FromBufferMatcher(BaseMatcher):
         API_TEMPLATE = textwrap.dedent(
             """
             import numpy as np
-            buffer = {0}
-            dtype = {1}
-            if isinstance(dtype, paddle.base.core.DataType):
-                dtype = dtype.name.lower()
-            paddle.to_tensor(np.frombuffer(np.array(buffer), dtype=dtype))
+            tmp_buffer = {0}
+            tmp_dtype = {1}
+            if isinstance(tmp_dtype, paddle.base.core.DataType):
+                tmp_dtype = tmp_dtype.name.lower()
+            paddle.to_tensor(np.frombuffer(np.array(tmp_buffer), dtype=tmp_dtype))
             """
         )
+        API_TEMPLATE = self.unique_temp(API_TEMPLATE, "tmp_buffer", "tmp_dtype")
         code = API_TEMPLATE.format(kwargs["buffer"], kwargs["dtype"])
 
         return code
diff --git a/paconvert/base.py b/paconvert/base.py
index 93b506a..c6011c0 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -22,7 +22,7 @@ from itertools import groupby
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, log_debug
+from paconvert.utils import UtilsFileHelper, get_unique_name, log_debug
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -573,6 +573,12 @@ class BaseMatcher(object):
 
         return kwargs
 
+    def unique_temp(self, template, *names):
+        # temporary variables must not clash with user's code or with each other
+        for name in names:
+            template = re.sub(rf"\b{name}\b", get_unique_name(name), template)
+        return template
+
     def generate_utils_code(self):
         return None
 
-- 
2.43.0


From c699c96a453d22156a64422b03b26ca994e9453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 16/62] fix: keep the import of a C++ extension that is still
 used and forget the extensions of earlier projects

---
 paconvert/converter.py                        |  2 +
 .../transformer/custom_op_transformer.py      | 42 +++++++------------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 562640b..68461a9 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -32,6 +32,7 @@ from paconvert.transformer.import_transformer import ImportTransformer
 from paconvert.transformer.custom_op_transformer import (
     PreCustomOpTransformer,
     CustomOpTransformer,
+    reset_cpp_extension,
 )
 from paconvert.utils import (
     UtilsFileHelper,
@@ -132,6 +133,7 @@ class Converter:
             )
 
         self.out_dir = out_dir
+        reset_cpp_extension()
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
 
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index bd104fb..439753c 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -21,6 +21,12 @@ CPP_EXTENSION_LIST = []
 AUTOGRAD_FUNC_NODES = {}
 
 
+def reset_cpp_extension():
+    # they belong to the current project
+    CPP_EXTENSION_LIST.clear()
+    AUTOGRAD_FUNC_NODES.clear()
+
+
 class PreCustomOpTransformer(BaseTransformer):
     def __init__(
         self,
@@ -45,40 +51,20 @@ class PreCustomOpTransformer(BaseTransformer):
         self.cpp_ext_load_names = []
 
     def visit_Import(self, node):
-        new_node_names = []
+        # the module can also be used outside of torch.autograd.Function, so remain the import
         for alias_node in node.names:
             if alias_node.name in CPP_EXTENSION_LIST:
-                if alias_node.asname:
-                    log_info(
-                        self.logger,
-                        "remove 'import {} as {}' ".format(
-                            alias_node.name, alias_node.asname
-                        ),
-                        self.file_name,
-                        node.lineno,
-                    )
-                    self.cpp_ext_import_names[alias_node.asname] = alias_node.name
-                else:
-                    log_info(
-                        self.logger,
-                        "remove 'import {}' ".format(alias_node.name),
-                        self.file_name,
-                        node.lineno,
-                    )
-                    self.cpp_ext_import_names[alias_node.name] = alias_node.name
-            else:
-                new_node_names.append(alias_node)
-
-        if len(new_node_names) > 0:
-            node.names = new_node_names
-            return node
-        else:
-            return None
+                self.cpp_ext_import_names[
+                    alias_node.asname or alias_node.name
+                ] = alias_node.name
+        return node
 
     def visit_Assign(self, node):
         super(PreCustomOpTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Call):
-            if "paddle.utils.cpp_extension.load" == self.get_full_attr(node.value.func):
+            if "paddle.utils.cpp_extension.load" == self.get_full_attr(
+                node.value.func
+            ) and isinstance(node.targets[0], ast.Name):
                 self.cpp_ext_load_names.append(node.targets[0].id)
         return node
 
-- 
2.43.0


From 6390885b706397cb3f6c56bdcc725f9eda75ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:49 +0000
Subject: [PATCH 17/62] fix: check every keyword for unsupported parameters,
 also the one after a None

---
 paconvert/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index c6011c0..46b9bdb 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -412,6 +412,7 @@ class BaseMatcher(object):
         posion_args_list = group_list[0] if len(group_list) > 0 else []
         force_kwargs_list = group_list[1] if len(group_list) > 1 else []
         force_kwargs_num = 0
+        none_kwargs = []
         for node in args:
             # not support 'torch.rot90(tensor, *config)'
             if isinstance(node, ast.Starred) and not allow_starred:
@@ -425,7 +426,7 @@ class BaseMatcher(object):
             if k in unsupport_args:
                 if isinstance(node.value, ast.Constant):
                     if node.value.value is None:
-                        kwargs.remove(node)
+                        none_kwargs.append(node)
                         continue
                 return None
             if k not in args_list + overload_args_list:
@@ -433,7 +434,9 @@ class BaseMatcher(object):
             if k in force_kwargs_list:
                 force_kwargs_num += 1
 
-        posion_args_num = len(args) + len(kwargs) - force_kwargs_num
+        posion_args_num = (
+            len(args) + len(kwargs) - len(none_kwargs) - force_kwargs_num
+        )
         if posion_args_num < min_input_args_num:
             return "misidentify"
         if posion_args_num > len(posion_args_list):
@@ -449,6 +452,9 @@ class BaseMatcher(object):
             # v = ast.unparse(node)
             new_kwargs[k] = v
 
+        for node in none_kwargs:
+            kwargs.remove(node)
+
         for node in kwargs:
             k = node.arg
             if k in new_kwargs:
-- 
2.43.0


From af1c22a69cd7271c62d0eb2c5df55c99c0c0f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:03 +0000
Subject: [PATCH 18/62] fix: a call that its rule can not handle is marked
 instead of aborting the conversion

---
 paconvert/api_mapping.json                 | 14 ++------------
 paconvert/transformer/basic_transformer.py | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 135abe6..0988ed4 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -2985,15 +2985,8 @@
     "Matcher": "ChangePrefixMatcher"
   },
   "torch.autograd.Function.backward": {
-    "Matcher": "GenericMatcher",
-    "args_list": [
-      "ctx",
-      "*grad_outputs"
-    ],
-    "kwargs_change": {
-      "grad_outputs": "args"
-    },
-    "abstract": true,
+    "Matcher": "ChangeAPIMatcher",
+    "paddle_api": "paddle.autograd.PyLayer.backward",
     "min_input_args": 1
   },
   "torch.autograd.Function.forward": {
@@ -10162,9 +10155,6 @@
   "torch.utils.data._utils.collate.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-  "torch.utils.data.dataloader.DataLoader": {
-    "Matcher": "ChangePrefixMatcher"
-  },
   "torch.utils.data.dataloader.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index d13785f..ded541e 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -321,7 +321,7 @@ class BasicTransformer(BaseTransformer):
             self.all_api_map[torch_api]["paddle_api"] = (
                 matcher.get_paddle_api() if matcher.get_paddle_api() else ""
             )
-            node_list = matcher.get_paddle_class_attribute_nodes(node)
+            node_list = self.try_match(matcher.get_paddle_class_attribute_nodes, node)
             if node_list == "delete":
                 if isinstance(self.parent_node, ast.Expr):
                     self.success_api_count += 1
@@ -480,7 +480,9 @@ class BasicTransformer(BaseTransformer):
                 self.all_api_map[torch_api]["paddle_api"] = (
                     matcher.get_paddle_api() if matcher.get_paddle_api() else ""
                 )
-                node_list = matcher.get_paddle_nodes(node.args, node.keywords)
+                node_list = self.try_match(
+                    matcher.get_paddle_nodes, node.args, node.keywords
+                )
                 if node_list == "delete":
                     if isinstance(self.parent_node, ast.Expr):
                         self.success_api_count += 1
@@ -669,8 +671,8 @@ class BasicTransformer(BaseTransformer):
             self.all_api_map[torch_api]["paddle_api"] = (
                 matcher.get_paddle_api() if matcher.get_paddle_api() else ""
             )
-            node_list = matcher.get_paddle_class_nodes(
-                node.func, node_args, node.keywords
+            node_list = self.try_match(
+                matcher.get_paddle_class_nodes, node.func, node_args, node.keywords
             )
             if node_list == "delete":
                 if isinstance(self.parent_node, ast.Expr):
@@ -768,6 +770,15 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def try_match(self, func, *args):
+        # a call which the matcher can not handle is not supported, it must not stop
+        # the conversion of the whole project
+        try:
+            return func(*args)
+        except Exception as e:
+            log_debug(self.logger, "Matcher error: {}".format(repr(e)), self.file_name)
+            return None
+
     def remove_one_count(self, torch_api):
         # other usages of this api can be valid
         self.all_api_map[torch_api]["count"] -= 1
-- 
2.43.0


From 294ce5565a0447e59f19fce9167dc470adc88a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:06 +0000
Subject: [PATCH 19/62] fix: a user variable named like an internal key of the
 import map must not abort the conversion

---
 paconvert/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 46b9bdb..ecaa07a 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -227,8 +227,8 @@ class BaseTransformer(ast.NodeTransformer):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             torch_api = ".".join(attr_list)
             return torch_api
@@ -284,8 +284,8 @@ class BaseTransformer(ast.NodeTransformer):
 
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             full_attr = ".".join(attr_list)
         return full_attr, origin_attr
-- 
2.43.0


From d6313326171dd11a2437f3acc398ac338b950719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:15 +0000
Subject: [PATCH 20/62] fix: convert an imported name wherever it is used, and
 an alias only when it surely is that API

---
 paconvert/transformer/import_transformer.py | 51 +++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 8cf4f31..82b9b76 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -15,7 +15,7 @@
 
 import ast
 import os
-from collections import defaultdict
+from collections import Counter, defaultdict
 
 from paconvert.base import BaseTransformer
 from paconvert.global_var import GlobalManager
@@ -46,6 +46,36 @@ class ImportTransformer(BaseTransformer):
         self.imports_map[self.file]["api_alias_name_map"] = {}
         self.insert_pass_node = set()
         self.change_prefix_api_map = defaultdict(set)
+        self.bound_names = self.count_bound_names(root)
+
+    def count_bound_names(self, root):
+        # names bound by the user's code, except by import
+        names = Counter()
+        for node in ast.walk(root):
+            if isinstance(node, ast.Name):
+                if not isinstance(node.ctx, ast.Load):
+                    names[node.id] += 1
+            elif isinstance(node, ast.arg):
+                names[node.arg] += 1
+            elif isinstance(node, ast.alias):
+                continue
+            elif isinstance(getattr(node, "name", None), str):
+                # function, class, except handler...
+                names[node.name] += 1
+            elif isinstance(getattr(node, "rest", None), str):
+                names[node.rest] += 1
+        return names
+
+    def is_definite_alias(self, name):
+        # if it is assigned repeatedly in branch or function, which one is called is unknown
+        top_level_num = 0
+        for node in self.root.body:
+            if isinstance(node, ast.Assign):
+                top_level_num += sum(
+                    isinstance(target, ast.Name) and target.id == name
+                    for target in node.targets
+                )
+        return self.bound_names[name] in (1, top_level_num)
 
     def visit_Import(self, node):
         """
@@ -408,7 +438,13 @@ class ImportTransformer(BaseTransformer):
             16. super(Dataset).__init__()
             17. functools.partial(torch.abs, x)
             18. partial(torch.abs, x)
+            19. return Tensor
         """
+        if isinstance(node.ctx, ast.Store):
+            # it is no longer the alias which is assigned before
+            self.imports_map[self.file]["api_alias_name_map"].pop(node.id, None)
+            return node
+
         maybe_torch = False
         maybe_alias_name = False
         if isinstance(
@@ -482,12 +518,21 @@ class ImportTransformer(BaseTransformer):
         elif isinstance(self.parent_node, ast.Index) and self.parent_node.value == node:
             maybe_torch = True  # 13. Union[List[str], List[AddedToken]]
 
+        # 19. other usages, such as 'return Tensor', the name is always the imported one
+        if (
+            self.bound_names[node.id] == 0
+            and node.id not in self.imports_map[self.file]["other_packages"]
+        ):
+            maybe_torch = True
+
         if maybe_torch:
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
                 if maybe_alias_name:
-                    if len(self.parent_node.targets) == 1 and isinstance(
-                        self.parent_node.targets[0], ast.Name
+                    if (
+                        len(self.parent_node.targets) == 1
+                        and isinstance(self.parent_node.targets[0], ast.Name)
+                        and self.is_definite_alias(self.parent_node.targets[0].id)
                     ):
                         self.imports_map[self.file]["api_alias_name_map"][
                             self.parent_node.targets[0].id
-- 
2.43.0


From 8fdeb82528453f6afd100e19f935d6a9c7cdf1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:59 +0000
Subject: [PATCH 21/62] fix: convert a reference to the package itself and keep
 star imports of packages that are not PyTorch

---
 paconvert/transformer/import_transformer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 82b9b76..e72d18b 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -265,6 +265,9 @@ class ImportTransformer(BaseTransformer):
         ):
             if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 if pkg_name in GlobalManager.MAY_TORCH_PACKAGE_LIST:
+                    if node.names[0].name == "*":
+                        # the imported names are unknown, from os import *
+                        break
                     self.imports_map[self.file]["may_torch_packages"].add(pkg_name)
                 else:
                     self.imports_map[self.file]["torch_packages"].add(pkg_name)
@@ -439,6 +442,7 @@ class ImportTransformer(BaseTransformer):
             17. functools.partial(torch.abs, x)
             18. partial(torch.abs, x)
             19. return Tensor
+            20. getattr(torch, name)
         """
         if isinstance(node.ctx, ast.Store):
             # it is no longer the alias which is assigned before
@@ -527,6 +531,15 @@ class ImportTransformer(BaseTransformer):
 
         if maybe_torch:
             torch_api = self.get_torch_api_from_node(node)
+            if (
+                self.mode != "min"
+                and torch_api in GlobalManager.TORCH_PACKAGE_MAPPING
+                and self.bound_names[node.id] == 0
+            ):
+                # 20. the package itself
+                return ast.Name(
+                    id=GlobalManager.TORCH_PACKAGE_MAPPING[torch_api], ctx=ast.Load()
+                )
             if torch_api:
                 if maybe_alias_name:
                     if (
-- 
2.43.0


From a33e7d237920da7d4265a4fc84c7dcae5ccd6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:33 +0000
Subject: [PATCH 22/62] fix: keep the whole expression of requires_grad,
 non_blocking, some and of the shape of make_tensor

---
 paconvert/api_matcher.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 4ac76b7..c5ba44c 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -122,7 +122,7 @@ class GenericMatcher(BaseMatcher):
 
         stop_gradient_v = "None"
         if "requires_grad" in kwargs and "requires_grad" not in kwargs_change_value:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         out_v = "None"
         if "out" in kwargs and "out" not in kwargs_change_value:
@@ -950,12 +950,12 @@ class MakeTMatcher(BaseMatcher):
         kwargs = self.parse_kwargs(kwargs)
         if "shape" not in kwargs:
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
-                shape = self.parse_args(args)
+                shape = "[{}]".format(self.args_to_str(self.parse_args(args)))
             elif isinstance(args[0], ast.Starred):
                 shape = astor.to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            kwargs = {"shape": shape, **kwargs}
 
         if "dtype" not in kwargs:
             kwargs["dtype"] = "float32"
@@ -1827,7 +1827,7 @@ class TensorNew_Matcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1871,7 +1871,7 @@ class TensorNewFullMatcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1910,7 +1910,7 @@ class TensorNewTensorMatcher(BaseMatcher):
             kwargs.pop("device")
 
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -1930,7 +1930,7 @@ class TorchTensorMatcher(BaseMatcher):
             if "cuda" in kwargs["place"]:
                 kwargs["place"] = kwargs["place"].replace("cuda", "gpu")
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -2580,7 +2580,7 @@ class TensorToMatcher(BaseMatcher):
         if "memory_format" in new_kwargs:
             new_kwargs.pop("memory_format")
         if "non_blocking" in new_kwargs:
-            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking").strip("()")
+            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking")
         if "device" in new_kwargs:
             if "cuda" in new_kwargs["device"]:
                 new_kwargs["device"] = new_kwargs["device"].replace("cuda", "gpu")
@@ -4389,7 +4389,7 @@ class SvdMatcher(BaseMatcher):
             kwargs["x"] = self.paddleClass
 
         if "some" in kwargs:
-            kwargs["full_matrices"] = "not " + kwargs.pop("some").strip("()")
+            kwargs["full_matrices"] = "not " + kwargs.pop("some")
 
         if "out" in kwargs and kwargs["out"] != "None":
             out_v = kwargs.pop("out")
-- 
2.43.0


From 58db9c88cf0760f9208fd8aad991525b2664ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:39 +0000
Subject: [PATCH 23/62] fix: print syntax that astor can not print, and never a
 tuple without its parentheses

---
 paconvert/converter.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 68461a9..8b6bcc8 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -373,6 +373,23 @@ class Converter:
         else:
             raise ValueError(" the input 'in_dir' must be a exist file or directory! ")
 
+    def generate_code(self, root):
+        """
+        astor prints some syntax wrongly or not at all, such as 'match x:' or
+        'if (x, y):', so its code is only used when it means the same.
+        """
+        if not hasattr(ast, "unparse"):
+            return astor.to_source(root)
+
+        raw_code = ast.unparse(ast.fix_missing_locations(root)) + "\n"
+        try:
+            code = astor.to_source(root)
+            if ast.dump(ast.parse(code)) == ast.dump(ast.parse(raw_code)):
+                return code
+        except Exception as e:
+            log_info(self.logger, "Skip astor due to error: {}".format(str(e)))
+        return raw_code
+
     def transfer_file(self, old_path, new_path):
         if old_path.endswith(".py"):
             log_info(
@@ -386,7 +403,7 @@ class Converter:
 
             reset_unique_name(root)
             self.transfer_node(root, old_path)
-            code = astor.to_source(root)
+            code = self.generate_code(root)
 
             # format code
             if not self.no_format:
-- 
2.43.0


From c541a339ce6b34c45ef36d9e7c1703455c45256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:19 +0000
Subject: [PATCH 24/62] fix: quote the default device of decode_jpeg

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c5ba44c..c5103f4 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5441,7 +5441,7 @@ class VOCDetectionMatcher(BaseMatcher):
 class DecodeJpegMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         kwargs["x"] = kwargs.pop("input")
-        device = kwargs.pop("device", "cpu")
+        device = kwargs.pop("device", "'cpu'")
         API_TEMPLATE = textwrap.dedent(
             """
             {}({}).to({})
-- 
2.43.0


From 60e56691af25bf11539e089e6706be249aba6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:19 +0000
Subject: [PATCH 25/62] fix: excluding an unknown package must not abort the
 conversion

---
 paconvert/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index e9e066a..9a6312b 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -137,7 +137,7 @@ def main():
     if args.exclude_packages:
         exclude_packages = args.exclude_packages.split(",")
         for package in exclude_packages:
-            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package)
+            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package.strip(), None)
 
     if args.separate_convert:
         project_num_100 = 0
-- 
2.43.0


From f5a15aee72047fe524c2c644cb9678f2b26aae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:59 +0000
Subject: [PATCH 26/62] fix: treat match cases and 'except*' as blocks and mark
 the line after any quoting of the annotation

---
 paconvert/base.py      | 10 ++++++++++
 paconvert/converter.py |  5 +++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index ecaa07a..dbce4e0 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -184,6 +184,7 @@ class BaseTransformer(ast.NodeTransformer):
                     ast.DictComp,
                     ast.GeneratorExp,
                     ast.While,
+                    getattr(ast, "match_case", ast.While),
                 ),
             ):
                 return False
@@ -351,6 +352,15 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    def visit_TryStar(self, node):
+        return self.visit_Try(node)
+
+    def visit_match_case(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_TryFinally(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
diff --git a/paconvert/converter.py b/paconvert/converter.py
index 8b6bcc8..fb8fee5 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -520,8 +520,9 @@ class Converter:
         scan_lines = self.remove_string(scan_code).split("\n")
         mark_next_line = False
         for i, line in enumerate(lines):
-            if line.strip().startswith(
-                ('"""Not Support auto convert', '"""C++ Custom OP: only convert')
+            if re.match(
+                r"\s*(\"\"\"|\"|')(Not Support auto convert|C\+\+ Custom OP: only convert)",
+                line,
             ):
                 mark_next_line = True
                 continue
-- 
2.43.0


From c2ab82c4d005db3a2588f4a3a006a4f4483b3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:11 +0000
Subject: [PATCH 27/62] fix: 'import torch.nn' also binds torch, and a marked
 call is always counted as not supported

---
 paconvert/transformer/basic_transformer.py  | 3 +++
 paconvert/transformer/import_transformer.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index ded541e..a35f770 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -483,6 +483,9 @@ class BasicTransformer(BaseTransformer):
                 node_list = self.try_match(
                     matcher.get_paddle_nodes, node.args, node.keywords
                 )
+                if node_list == "misidentify" and self.start_with_torch(full_attr):
+                    # it is written as Pytorch API and will be marked, so count it
+                    node_list = None
                 if node_list == "delete":
                     if isinstance(self.parent_node, ast.Expr):
                         self.success_api_count += 1
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index e72d18b..bb793ff 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -127,6 +127,8 @@ class ImportTransformer(BaseTransformer):
                             )
                     else:
                         self.imports_map[self.file][alias_node.name] = alias_node.name
+                        # 'import torch.nn' also binds 'torch'
+                        self.imports_map[self.file][pkg_name] = pkg_name
                         if self.mode == "min":
                             new_node_names.append(alias_node)
                         else:
-- 
2.43.0


From c3dfe3e5b80929a188f491eac6dc5a5ccdc43e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:35 +0000
Subject: [PATCH 28/62] fix: torch.distributed.Backend has no Paddle
 counterpart as value

---
 paconvert/api_mapping.json | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 0988ed4..6eb156b 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -3755,7 +3755,6 @@
   },
   "torch.distributed.Backend": {
     "Matcher": "DistributedBackendMatcher",
-    "paddle_api": "torch.distributed.Backend",
     "min_input_args": 1,
     "args_list": [
       "name"
-- 
2.43.0


From 17e2b87a56c5bd7b79901f3d5b37baa05d472933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:04 +0000
Subject: [PATCH 29/62] fix: convert the uses inside any expression whose
 attribute is taken, such as {'a': nn.ReLU()}.items()

---
 paconvert/base.py                           |  5 +++++
 paconvert/transformer/basic_transformer.py  | 15 ++-------------
 paconvert/transformer/import_transformer.py | 15 ++-------------
 3 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index dbce4e0..70ce33a 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -224,6 +224,11 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "None"
 
+    def get_attr_root(self, node):
+        while isinstance(node, ast.Attribute):
+            node = node.value
+        return node
+
     def get_torch_api_from_node(self, node):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index a35f770..d69b414 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -74,22 +74,11 @@ class BasicTransformer(BaseTransformer):
         # 4. (-x).transpose(1, 0)
         # 5. x[0].transpose(1, 0)
         # 6. (x if flag else y).transpose(1, 0)
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        if not isinstance(self.get_attr_root(node), ast.Name):
             super(BasicTransformer, self).generic_visit(node)
 
         # 6. torch.tensor(features_A).T.cuda()
-        if isinstance(node.value, ast.Attribute):
+        elif isinstance(node.value, ast.Attribute):
             if node.value.attr in [
                 "T",
                 "real",
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index bb793ff..ef5f775 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -377,20 +377,9 @@ class ImportTransformer(BaseTransformer):
         eg.
             nn.Module -> torch.nn.Module
         """
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        if not isinstance(self.get_attr_root(node), ast.Name):
             super(ImportTransformer, self).generic_visit(node)
-        if isinstance(node.value, ast.Attribute):
+        elif isinstance(node.value, ast.Attribute):
             if node.value.attr in [
                 "T",
                 "real",
-- 
2.43.0


From f80d46751d9f60fb70c43e58f4df2ba7cefad38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 30/62] fix: an alias of another package, as
 timm.models.layers.trunc_normal_, is converted or marked

---
 paconvert/transformer/import_transformer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index ef5f775..c37788b 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -371,6 +371,14 @@ class ImportTransformer(BaseTransformer):
             else:
                 self.imports_map[self.file]["other_packages"].add(node.name)
 
+    def get_canonical_node(self, torch_api):
+        torch_api = self.get_canonical_torch_api(torch_api)
+        # timm.models.layers.trunc_normal_ is the alias of torch.nn.init.trunc_normal_
+        torch_package = torch_api.split(".")[0]
+        if torch_package in GlobalManager.TORCH_PACKAGE_MAPPING:
+            self.imports_map[self.file]["torch_packages"].add(torch_package)
+        return ast.parse(torch_api).body[0].value
+
     def visit_Attribute(self, node):
         """
         change torch api to full api according to import info.
@@ -400,7 +408,7 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            return self.get_canonical_node(torch_api)
         return node
 
     def visit_Name(self, node):
@@ -467,9 +475,7 @@ class ImportTransformer(BaseTransformer):
                     if self.in_min_mode(torch_api):
                         self.change_prefix_api_map[self.file].add(torch_api)
                         return node
-                    return (
-                        ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-                    )
+                    return self.get_canonical_node(torch_api)
 
                 elif self.parent_node.func.id in [
                     "isinstance",
@@ -546,7 +552,7 @@ class ImportTransformer(BaseTransformer):
                     self.change_prefix_api_map[self.file].add(torch_api)
                     return node
 
-                return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+                return self.get_canonical_node(torch_api)
         return node
 
     def visit_Module(self, node):
-- 
2.43.0


From a074e1fd818b0095ec5feb0123723fed4ff18ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:54 +0000
Subject: [PATCH 31/62] fix: refuse an output location whose files would
 overwrite or replace the input

---
 paconvert/converter.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index fb8fee5..d88d570 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -132,6 +132,7 @@ class Converter:
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
 
+        self.in_dir = in_dir
         self.out_dir = out_dir
         reset_cpp_extension()
         self.transfer_dir(in_dir, out_dir, exclude)
@@ -327,6 +328,25 @@ class Converter:
         except:
             pass
 
+    def check_out_path(self, path):
+        """
+        The input must never be overwritten, eg: the output is the directory of the input
+        """
+
+        def is_inside(path, root):
+            return path == root or path.startswith(os.path.join(root, ""))
+
+        in_dir = os.path.realpath(self.in_dir)
+        out_dir = os.path.realpath(self.out_dir)
+        if is_inside(os.path.realpath(path), in_dir):
+            is_sub_dir = out_dir != in_dir and is_inside(out_dir, in_dir)
+            if not (
+                is_sub_dir and os.path.isdir(in_dir) and not os.path.isfile(out_dir)
+            ):
+                raise ValueError(
+                    "--out_dir must not overwrite --in_dir: {}".format(path)
+                )
+
     def transfer_dir(self, in_dir, out_dir, exclude):
         if os.path.isfile(in_dir):
             old_path = in_dir
@@ -339,6 +359,7 @@ class Converter:
                 new_path = os.path.join(out_dir, os.path.basename(old_path))
             else:
                 new_path = out_dir
+            self.check_out_path(new_path)
             if not os.path.exists(os.path.dirname(new_path)):
                 os.makedirs(os.path.dirname(new_path))
             if not os.path.isdir(os.path.dirname(new_path)):
@@ -363,6 +384,7 @@ class Converter:
                     continue
 
                 if os.path.isdir(old_path):
+                    self.check_out_path(new_path)
                     if not os.path.exists(new_path):
                         os.makedirs(new_path)
 
-- 
2.43.0


From 126af30149e153d16b493c47df4fc0a64ee4bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:54 +0000
Subject: [PATCH 32/62] fix: read Python sources with a byte order mark or a
 declared encoding

---
 paconvert/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index d88d570..fa65964 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -417,7 +417,8 @@ class Converter:
             log_info(
                 self.logger, "Start convert file: {} --> {}".format(old_path, new_path)
             )
-            with open(old_path, "r", encoding="UTF-8") as f:
+            # UTF-8, unless the file declares another encoding
+            with tokenize.open(old_path) as f:
                 code = f.read()
                 if self.calculate_speed:
                     self.line_count += len(code.splitlines())
-- 
2.43.0


From 249c06eb3254150348814722ebdee834946b0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:54 +0000
Subject: [PATCH 33/62] fix: replace only the package audiotools itself, not
 packages whose name ends with it

---
 paconvert/transformer/import_transformer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index c37788b..29f9d63 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -145,13 +145,16 @@ class ImportTransformer(BaseTransformer):
 
             # 3. import form IMPORT_PACKAGE_MAPPING (which means replace api by all)
             for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-                if f"{pkg_name}." in alias_node.name or pkg_name == alias_node.name:
+                if (
+                    alias_node.name.startswith(f"{pkg_name}.")
+                    or pkg_name == alias_node.name
+                ):
                     replace_pkg_name = GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
                     if alias_node.asname:
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
                         # case 2: 'import audiotools.ml as ml' -> 'import paddlespeech.audiotools.ml as ml'
                         replace_pkg_name = alias_node.name.replace(
-                            pkg_name, replace_pkg_name
+                            pkg_name, replace_pkg_name, 1
                         )
                         log_info(
                             self.logger,
@@ -332,13 +335,13 @@ class ImportTransformer(BaseTransformer):
 
         # 3. import form GlobalManager.IMPORT_PACKAGE_MAPPING (which means replace api by all)
         for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-            if f"{pkg_name}." in node.module or pkg_name == node.module:
+            if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 # case 1: 'from audiotools import AudioSignal' -> 'from paddlespeech.audiotools import AudioSignal'
                 # case 2: 'from audiotools.ml import BaseModel' -> 'from paddlespeech.audiotools.ml import BaseModel'
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
                 origin_module = node.module
                 node.module = origin_module.replace(
-                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
+                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1
                 )
                 log_info(
                     self.logger,
-- 
2.43.0


From af07d5e31da463f6f719c8c47ce59eb839c0c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:33 +0000
Subject: [PATCH 34/62] fix: do not overwrite the project's own paddle_utils.py
 with the helper code

---
 paconvert/base.py      | 5 +++--
 paconvert/converter.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 70ce33a..13e369c 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -618,11 +618,12 @@ class BaseMatcher(object):
                     """
                     import sys
                     sys.path.append(r'{}')
-                    from paddle_utils import * # noqa: F403
+                    from {} import * # noqa: F403
                     """
                 )
                 # TODO: change sys.path.append to relative import
-                code = CODE_TEMPLATE.format(os.path.dirname(utils_file_helper.fileName))
+                utils_dir, utils_file = os.path.split(utils_file_helper.fileName)
+                code = CODE_TEMPLATE.format(utils_dir, utils_file[: -len(".py")])
                 self.transformer.insert_multi_node(ast.parse(code).body)
 
             utils_file_helper.add_code(utils_code)
diff --git a/paconvert/converter.py b/paconvert/converter.py
index fa65964..02876ea 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -128,8 +128,12 @@ class Converter:
                 out_file, is_dir_mode=False, logger=self.logger
             )
         elif os.path.isdir(in_dir):
+            # the project can have its own paddle_utils.py
+            utils_file = "paddle_utils.py"
+            while os.path.exists(os.path.join(in_dir, utils_file)):
+                utils_file = "_" + utils_file
             utils_file_helper = UtilsFileHelper(
-                out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
+                out_dir + "/" + utils_file, is_dir_mode=True, logger=self.logger
             )
 
         self.in_dir = in_dir
-- 
2.43.0


From cdc7599f9299acf7e8a30bf68a454115af88030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:30 +0000
Subject: [PATCH 35/62] fix: convert a use that stands before the import of its
 name, as in a function above it

---
 paconvert/transformer/import_transformer.py | 44 +++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 29f9d63..fc5ec88 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -77,6 +77,49 @@ class ImportTransformer(BaseTransformer):
                 )
         return self.bound_names[name] in (1, top_level_num)
 
+    def is_torch_module(self, module):
+        import_path = os.path.join(os.path.dirname(self.file), module.replace(".", "/"))
+        if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
+            return False
+        return module.split(".")[0] in (
+            list(GlobalManager.TORCH_PACKAGE_MAPPING.keys())
+            + GlobalManager.MAY_TORCH_PACKAGE_LIST
+        )
+
+    def record_module_imports(self):
+        # a function can use the name which is imported below it:
+        # def func():
+        #     return nn.ReLU()
+        # from torch import nn
+        import_names = Counter()
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.alias):
+                import_names[node.asname or node.name] += 1
+
+        for node in self.root.body:
+            if isinstance(node, ast.Import):
+                imports = [
+                    (alias.asname, alias.name, alias.name) for alias in node.names
+                ]
+            elif isinstance(node, ast.ImportFrom) and node.level == 0:
+                imports = [
+                    (
+                        alias.asname or alias.name,
+                        node.module,
+                        node.module + "." + alias.name,
+                    )
+                    for alias in node.names
+                ]
+            else:
+                continue
+            for name, module, torch_api in imports:
+                if (
+                    import_names[name] == 1
+                    and self.bound_names[name] == 0
+                    and self.is_torch_module(module)
+                ):
+                    self.imports_map[self.file][name] = torch_api
+
     def visit_Import(self, node):
         """
         1. remove import torch.nn
@@ -562,6 +605,7 @@ class ImportTransformer(BaseTransformer):
         """
         'import torch_package' has been removed already, add 'import paddle_package'
         """
+        self.record_module_imports()
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-- 
2.43.0


From d3b74a588845949393f2c1f08e44b776e10bf79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 36/62] fix: arguments after a leading '*' can not be passed by
 position

---
 paconvert/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 13e369c..eb68541 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -17,7 +17,6 @@ import collections
 import os
 import re
 import textwrap
-from itertools import groupby
 
 import astor
 
@@ -421,11 +420,10 @@ class BaseMatcher(object):
         min_input_args_num = self.api_mapping_dict.get("min_input_args") or 0
         unsupport_args = self.api_mapping_dict.get("unsupport_args") or []
 
-        group_list = [
-            list(v) for k, v in groupby(args_list, lambda x: x == "*") if not k
-        ]
-        posion_args_list = group_list[0] if len(group_list) > 0 else []
-        force_kwargs_list = group_list[1] if len(group_list) > 1 else []
+        # the args after '*' can only be passed by keyword, '*' can be the first
+        force_index = args_list.index("*") if "*" in args_list else len(args_list)
+        posion_args_list = args_list[:force_index]
+        force_kwargs_list = args_list[force_index + 1 :]
         force_kwargs_num = 0
         none_kwargs = []
         for node in args:
-- 
2.43.0


From 4c0225029cceed7f2c1001678871bdb24f76b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:31 +0000
Subject: [PATCH 37/62] fix: a positional return_complex of Tensor.stft is
 handled like the keyword

---
 paconvert/api_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c5103f4..b7af4db 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5593,6 +5593,8 @@ class TensorStftMatcher(BaseMatcher):
         kwargs = self.parse_kwargs(kwargs, allow_none=True)
 
         return_complex = kwargs.pop("return_complex", None)
+        if len(args) == len(self.api_mapping_dict["args_list"]):
+            return_complex = args.pop()
         code = "{}({})".format(
             self.get_paddle_api(), self.args_and_kwargs_to_str(args, kwargs)
         )
-- 
2.43.0


From b68fd93f04fde5f7ddfaab2131c1357401ab9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 38/62] fix: an output path with a quote broke the import of
 paddle_utils

---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index eb68541..daaf7db 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -615,7 +615,7 @@ class BaseMatcher(object):
                 CODE_TEMPLATE = textwrap.dedent(
                     """
                     import sys
-                    sys.path.append(r'{}')
+                    sys.path.append({!r})
                     from {} import * # noqa: F403
                     """
                 )
-- 
2.43.0


From c13ee49ba2474d084350b21a31e9a5b1c9a9960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 39/62] fix: the order of imports depended on the files in the
 current directory

---
 paconvert/converter.py | 4 ++--
 paconvert/utils.py     | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 02876ea..59740f3 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -24,7 +24,6 @@ import re
 import shutil
 import tokenize
 import black
-import isort
 import astor
 
 from paconvert.transformer.basic_transformer import BasicTransformer
@@ -38,6 +37,7 @@ from paconvert.utils import (
     UtilsFileHelper,
     UniqueNameGenerator,
     reset_unique_name,
+    sort_imports,
     log_info,
     log_warning,
 )
@@ -443,7 +443,7 @@ class Converter:
                     )
 
                 try:
-                    code = isort.code(code)
+                    code = sort_imports(code)
                 except Exception as e:
                     log_info(
                         self.logger,
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 54ae216..e86d3e0 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -56,6 +56,11 @@ def reset_unique_name(root):
     Generator.reset(names)
 
 
+def sort_imports(code):
+    # by default isort searches the modules in the current directory
+    return isort.code(code, config=isort.Config(src_paths=()))
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
@@ -211,7 +216,7 @@ class UtilsFileHelper(object):
 
         # remove redundant import
         try:
-            new_content = isort.code(new_content)
+            new_content = sort_imports(new_content)
         except Exception as e:
             log_info(
                 self.logger,
-- 
2.43.0


From 74ddd13bb0ef46e148339c9cd5a3e977833cff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:23 +0000
Subject: [PATCH 40/62] fix: an alias of torch.utils does not count an extra
 API for alias.data.*

---
 paconvert/transformer/basic_transformer.py  | 4 +++-
 paconvert/transformer/import_transformer.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index d69b414..4f94c43 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -89,7 +89,9 @@ class BasicTransformer(BaseTransformer):
                 super(BasicTransformer, self).generic_visit(node)
             # 7.  x.data.cuda()  / avoid  torch.utils.data.*
             elif node.value.attr == "data":
-                full_attr = self.get_full_attr_strict(node.value)
+                full_attr, _ = self.replace_torch_module(
+                    self.get_full_attr_strict(node.value)
+                )
                 if "utils.data" not in full_attr:
                     super(BasicTransformer, self).generic_visit(node)
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index fc5ec88..4855c35 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -444,7 +444,9 @@ class ImportTransformer(BaseTransformer):
                 super(ImportTransformer, self).generic_visit(node)
             # 7.  x.data.cuda()  / avoid  torch.utils.data.*
             elif node.value.attr == "data":
-                full_attr = self.get_full_attr_strict(node.value)
+                full_attr = self.get_torch_api_from_node(
+                    node.value
+                ) or self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(ImportTransformer, self).generic_visit(node)
 
-- 
2.43.0


From 651bc1a379c56ec5ad772873b5146b65a0e54afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:23 +0000
Subject: [PATCH 41/62] fix: an attribute of an aligned class is converted, not
 kept and marked, in min mode

---
 paconvert/transformer/basic_transformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 4f94c43..70a3a46 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -196,8 +196,13 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
+                # it has no mapping, so it can not be kept in min mode
+                paddle_attr = attr_list[:-1]
+                paddle_attr[0] = GlobalManager.TORCH_PACKAGE_MAPPING.get(
+                    attr_list[0], attr_list[0]
+                )
                 matcher = self.get_api_matcher(
-                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                    ".".join(attr_list[:-1]), ".".join(paddle_attr)
                 )
                 if matcher:
                     torch_api = ".".join(attr_list[:-1])
-- 
2.43.0


From 82aca3ddb17287b2072ab48bea814366fb3bdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 42/62] fix: helper functions whose name starts with '_' are
 not seen by 'from paddle_utils import *'

---
 paconvert/api_matcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b7af4db..70cad34 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3032,7 +3032,7 @@ class FSoftMinMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
-            def _get_softmin_dim(axis: int) -> int:
+            def get_softmin_dim(axis: int) -> int:
                 if axis == 0 or axis == 1 or axis == 3:
                     return 0
                 else:
@@ -3045,7 +3045,7 @@ class FSoftMinMatcher(BaseMatcher):
         kwargs["input"] = f"-{kwargs['input']}"
         if "dim" not in kwargs or kwargs["dim"] == "None":
             self.enable_utils_code()
-            kwargs["dim"] = "_get_softmin_dim({}.ndim)".format(kwargs["input"])
+            kwargs["dim"] = "get_softmin_dim({}.ndim)".format(kwargs["input"])
             return GenericMatcher.generate_code(self, kwargs)
         else:
             return GenericMatcher.generate_code(self, kwargs)
@@ -5242,7 +5242,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_interop_threads(int):
+            def set_num_interop_threads(int):
                 os.environ['OMP_NUM_THREADS'] = str(int)
             """
         )
@@ -5252,7 +5252,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_interop_threads({})
+            set_num_interop_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
@@ -5265,7 +5265,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_threads(int):
+            def set_num_threads(int):
                 os.environ['CPU_NUM'] = str(int)
             """
         )
@@ -5275,7 +5275,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_threads({})
+            set_num_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
-- 
2.43.0


From ebe75c8a6c0e33047d7829af2227ced322386523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:40 +0000
Subject: [PATCH 43/62] fix: default dim of softmin was derived from minus the
 number of dimensions

---
 paconvert/api_matcher.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 70cad34..64d058c 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3042,13 +3042,11 @@ class FSoftMinMatcher(BaseMatcher):
         return CODE_TEMPLATE
 
     def generate_code(self, kwargs):
-        kwargs["input"] = f"-{kwargs['input']}"
         if "dim" not in kwargs or kwargs["dim"] == "None":
             self.enable_utils_code()
-            kwargs["dim"] = "get_softmin_dim({}.ndim)".format(kwargs["input"])
-            return GenericMatcher.generate_code(self, kwargs)
-        else:
-            return GenericMatcher.generate_code(self, kwargs)
+            kwargs["dim"] = "get_softmin_dim(({}).ndim)".format(kwargs["input"])
+        kwargs["input"] = f"-({kwargs['input']})"
+        return GenericMatcher.generate_code(self, kwargs)
 
 
 class MSortMatcher(BaseMatcher):
-- 
2.43.0


From 2a7e828620929cb7ab637a3114c57baad50ab693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:40 +0000
Subject: [PATCH 44/62] fix: helper code of get_enum used warnings without
 importing it

---
 paconvert/api_matcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 64d058c..c3efc9f 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3996,6 +3996,7 @@ class Get_EnumMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
+            import warnings
             def get_enum(reduction: str) -> int:
                 if reduction == "none":
                     ret = 0
-- 
2.43.0


From e8c3338b358e7a2a72031e1264430344ca19b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:40 +0000
Subject: [PATCH 45/62] fix: helper code of PreTrainedModel used paddle without
 importing it

---
 paconvert/api_matcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c3efc9f..d024720 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -582,6 +582,7 @@ class TRFMPreTrainedModelMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             from typing import Optional
+            import paddle
             import paddleformers
             def _convert_head_mask_to_5d(head_mask, num_hidden_layers):
                 if head_mask.dim() == 1:
-- 
2.43.0


From 681aa15bff1729af28e7cd0186e4eec01595cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:40 +0000
Subject: [PATCH 46/62] fix: default dtype of make_tensor was inserted without
 quotes

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d024720..5198a61 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -959,7 +959,7 @@ class MakeTMatcher(BaseMatcher):
             kwargs = {"shape": shape, **kwargs}
 
         if "dtype" not in kwargs:
-            kwargs["dtype"] = "float32"
+            kwargs["dtype"] = "'float32'"
 
         if "low" not in kwargs:
             kwargs["low"] = 0
-- 
2.43.0


From d748450ef28ebec0e4277856cd0f1dcfc91b6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:05 +0000
Subject: [PATCH 47/62] fix: np_str_obj_array_pattern was converted to
 re.compile without importing re

---
 paconvert/api_matcher.py         | 6 ++++++
 paconvert/attribute_mapping.json | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 5198a61..b503e50 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -487,6 +487,12 @@ class PaddleFlagMatcher(BaseMatcher):
         return CODE_TEMPLATE
 
 
+class NpStrObjArrayPatternMatcher(BaseMatcher):
+    def get_paddle_api(self):
+        self.transformer.insert_multi_node(ast.parse("import re").body)
+        return super().get_paddle_api()
+
+
 class SetTrueMatcher(BaseMatcher):
     def get_paddle_api(self):
         return "True"
diff --git a/paconvert/attribute_mapping.json b/paconvert/attribute_mapping.json
index 5fc3f25..386ca9a 100644
--- a/paconvert/attribute_mapping.json
+++ b/paconvert/attribute_mapping.json
@@ -273,7 +273,7 @@
     "paddle_api": "'default_collate: batch must contain tensors, numpy arrays, numbers, dicts or lists; found {}'"
   },
   "torch.utils.data._utils.collate.np_str_obj_array_pattern": {
-    "Matcher": "GenericMatcher",
+    "Matcher": "NpStrObjArrayPatternMatcher",
     "paddle_api": "re.compile(r'[SaUO]')"
   }
 }
-- 
2.43.0


From 24576010cbfbe13940e4839ca09964f4ae761a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 48/62] fix: an argument that merely contains 'None' was taken
 for None (OneCycleLR, sparse.sum)

---
 paconvert/api_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b503e50..b976eb9 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4197,7 +4197,7 @@ class ConstantLRMatcher(LRSchedulerMatcher):
 
 class OneCycleLRMatcher(LRSchedulerMatcher):
     def generate_code(self, kwargs):
-        if "total_steps" in kwargs and "None" not in kwargs["total_steps"]:
+        if "total_steps" in kwargs and kwargs["total_steps"] != "None":
             pass
         else:
             steps_per_epoch = kwargs.pop("steps_per_epoch")
@@ -4217,7 +4217,7 @@ class OneCycleLRMatcher(LRSchedulerMatcher):
 
 class RequireDimMatcher(BaseMatcher):
     def generate_code(self, kwargs):
-        if "dim" not in kwargs or "None" in kwargs["dim"]:
+        if "dim" not in kwargs or kwargs["dim"] == "None":
             return None
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From c617f0ff1912019fb864898251bf3d3ede9a429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 49/62] fix: backslashes in the receiver of a method call were
 dropped

---
 paconvert/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index daaf7db..a5b27a3 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -517,14 +517,11 @@ class BaseMatcher(object):
         self.paddleClass = func_str[0 : func_str.rfind(".")]
         class_str = "paddle.Tensor|paddle.nn.Module|paddle.optimizer.Optimizer|paddle.optim.Optimizer|paddle.distribution.Distribution|paddle.distributions.distribution.Distribution|paddle.autograd.function.FunctionCtx|paddle.profiler.Profiler"
         if self.get_paddle_api():
-            new_paddle_api = re.sub(
+            self.paddle_api = re.sub(
                 class_str,
-                re.escape(self.paddleClass),
+                lambda _: self.paddleClass,
                 self.get_paddle_api(),
             )
-            # reverse escape
-            new_paddle_api = re.sub(r"\\(.)", r"\1", new_paddle_api)
-            self.paddle_api = new_paddle_api
 
     def args_to_str(self, args):
         str_list = []
-- 
2.43.0


From 55a6a57a8171d4bfd64b7fb19af13d92dbf212aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 50/62] fix: torch.autograd.Variable(expr, requires_grad=...)
 set the flag on another object than it returned

---
 paconvert/api_matcher.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b976eb9..056563d 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -1114,15 +1114,15 @@ class ADVariableMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         API_TEMPLATE = textwrap.dedent(
             """
-            {}.stop_gradient = not {}
-            {}
+            out = {}
+            out.stop_gradient = not {}
+            out
             """
         )
 
         if "requires_grad" in kwargs:
-            return API_TEMPLATE.format(
-                kwargs["data"], kwargs["requires_grad"], kwargs["data"]
-            )
+            API_TEMPLATE = self.unique_temp(API_TEMPLATE, "out")
+            return API_TEMPLATE.format(kwargs["data"], kwargs["requires_grad"])
         return kwargs["data"]
 
 
-- 
2.43.0


From ae661a87d10b7595b8931b7c720e12654e307ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 51/62] fix: --show_unalign_api failed for an aligned API of
 another package than torch

---
 paconvert/converter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 59740f3..7dd5928 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -178,9 +178,7 @@ class Converter:
 
             unalign_api_map = self.all_api_map.copy()
             for k, v in self.all_api_map.items():
-                if not k.startswith("torch."):
-                    unalign_api_map.pop(k)
-                if k in GlobalManager.CHANGE_PREFIX_API:
+                if not k.startswith("torch.") or k in GlobalManager.CHANGE_PREFIX_API:
                     unalign_api_map.pop(k)
 
             if len(unalign_api_map) == 0:
-- 
2.43.0


From d6909e1a0b40d21ad915766f4677dfae3830b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 52/62] fix: a name imported from another package hid every
 PyTorch API with a component of that name

---
 paconvert/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a5b27a3..9aed3c1 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -245,9 +245,13 @@ class BaseTransformer(ast.NodeTransformer):
             return "NonTorchClass"
         # x.abs() -> 'abs'
         if isinstance(node, ast.Attribute):
-            for item in self.black_list:
-                if item == node.attr:
-                    return "NonTorchClass"
+            # self.np.abs() is not torch. But torch.nn.Linear() is, even if 'nn' is
+            # imported from other package
+            if isinstance(node.value, ast.Attribute):
+                root = self.get_full_attr(node).split(".")[0]
+                if root not in self.imports_map[self.file]["torch_packages"]:
+                    if node.value.attr in self.black_list:
+                        return "NonTorchClass." + node.attr
             return self.get_full_attr_strict(node.value) + "." + node.attr
         # x.abs() -> 'x'
         elif isinstance(node, ast.Name):
-- 
2.43.0


From a8e478d63458ce242f630a407474a544c4b830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 53/62] fix: methods of a value were skipped when an argument
 came from another package, and converted for operators on values of other
 packages

---
 paconvert/base.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 9aed3c1..aacd315 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -271,23 +271,43 @@ class BaseTransformer(ast.NodeTransformer):
             node,
             (ast.Call, ast.Compare, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Assert),
         ):
-            node_str = astor.to_source(node).strip("\n")
-            for item in self.black_list:
-                # (array(1.) + array(2.)).abs() ...
-                if re.match(".*[^A-Za-z_]{1}%s\(" % item, node_str):
-                    return "NonTorchClass"
-                # np.array(1.).abs() ...
-                if re.match("%s\." % item, node_str):
-                    return "NonTorchClass"
-                # array(1.).abs() ...
-                if re.match("%s\(" % item, node_str):
-                    return "NonTorchClass"
+            if self.is_other_package(node):
+                return "NonTorchClass"
 
             return "TorchClass"
         # others not torch, such as 'str'.split
         else:
             return "NonTorchClass"
 
+    def is_other_package(self, node):
+        # array(1.), np.array(1.)
+        if isinstance(node, ast.Call):
+            if isinstance(node.func, ast.Name):
+                return node.func.id in self.black_list
+            return self.is_other_package(node.func)
+        # np.pi, self.np.pi
+        elif isinstance(node, ast.Attribute):
+            if isinstance(node.value, ast.Name):
+                return node.value.id in self.black_list
+            if isinstance(node.value, ast.Attribute):
+                if node.value.attr in self.black_list:
+                    return True
+            return self.is_other_package(node.value)
+        # np.array(1.)[0]
+        elif isinstance(node, ast.Subscript):
+            return self.is_other_package(node.value)
+        # -np.array(1.)
+        elif isinstance(node, ast.UnaryOp):
+            return self.is_other_package(node.operand)
+        # array(1.) + array(2.), but not x / sqrt(2.)
+        elif isinstance(node, (ast.BinOp, ast.Compare)):
+            operands = [node.left] + (
+                [node.right] if isinstance(node, ast.BinOp) else node.comparators
+            )
+            operands = [i for i in operands if not isinstance(i, ast.Constant)]
+            return bool(operands) and all(self.is_other_package(i) for i in operands)
+        return False
+
     def replace_torch_module(self, origin_attr):
         full_attr = origin_attr
 
-- 
2.43.0


From b9838937c6e32fd7f0452eb99e544c8768c6e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 54/62] fix: Tensor.split returned wrong pieces if the size
 does not divide the dimension

---
 paconvert/api_matcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 056563d..e3136a4 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3779,9 +3779,10 @@ class TensorSplitMatcher(BaseMatcher):
             """
             def _Tensor_split(self, split_size, dim=0):
                 if isinstance(split_size, int):
-                    return paddle.split(self, self.shape[dim] // split_size, dim)
-                else:
-                    return paddle.split(self, split_size, dim)
+                    # split_size may not divide the dimension, then the last one is smaller
+                    num, rest = divmod(self.shape[dim], split_size)
+                    split_size = [split_size] * num + [rest] * (rest > 0 or num == 0)
+                return paddle.split(self, split_size, dim)
 
             setattr(paddle.Tensor, "split", _Tensor_split)
             """
-- 
2.43.0


From 1b206fea20fccfd33393968f0212741d4fd4c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 55/62] fix: bidirectional of RNN and LSTM was dropped unless
 it is a literal

---
 paconvert/api_matcher.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index e3136a4..dabbdf4 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3728,9 +3728,11 @@ class RNNMatcher(BaseMatcher):
         kwargs["time_major"] = f"not {batch_first}"
 
         if "bidirectional" in kwargs:
-            if "(True)" == kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if bidirectional == "(True)":
                 kwargs["direction"] = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif bidirectional != "(False)":
+                kwargs["direction"] = f"'bidirect' if {bidirectional} else 'forward'"
 
         return GenericMatcher.generate_code(self, kwargs)
 
@@ -3745,9 +3747,11 @@ class RNNBaseMatcher(BaseMatcher):
 
         direction = "'forward'"
         if "bidirectional" in kwargs:
-            if "True" in kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if bidirectional == "(True)":
                 direction = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif bidirectional != "(False)":
+                direction = f"'bidirect' if {bidirectional} else 'forward'"
         kwargs["direction"] = direction
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From b4e525ccdeafbf4414a392cc9789d65701497634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 56/62] fix: return_complex of stft was ignored unless it is a
 literal

---
 paconvert/api_matcher.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index dabbdf4..3f9b139 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5597,6 +5597,23 @@ class RNNCellMatcher(BaseMatcher):
         return GenericMatcher.generate_code(self, kwargs)
 
 
+def stft_code(matcher, code, return_complex):
+    if return_complex == "(False)":
+        return code + ".as_real()"
+    if return_complex in [None, "None", "(None)", "(True)"]:
+        return code
+    # only known at run time
+    API_TEMPLATE = textwrap.dedent(
+        """
+        stft_out = {}
+        stft_out = stft_out if {} else stft_out.as_real()
+        stft_out
+        """
+    )
+    API_TEMPLATE = matcher.unique_temp(API_TEMPLATE, "stft_out")
+    return API_TEMPLATE.format(code, return_complex).strip("\n")
+
+
 class TensorStftMatcher(BaseMatcher):
     def get_paddle_class_nodes(self, func, args, kwargs):
         self.parse_func(func)
@@ -5609,9 +5626,7 @@ class TensorStftMatcher(BaseMatcher):
         code = "{}({})".format(
             self.get_paddle_api(), self.args_and_kwargs_to_str(args, kwargs)
         )
-        if return_complex and return_complex == "(False)":
-            code += ".as_real()"
-        return ast.parse(code).body
+        return ast.parse(stft_code(self, code, return_complex)).body
 
     def get_paddle_class_attribute_nodes(self, node):
         return "unchange"
@@ -5621,10 +5636,7 @@ class StftMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         return_complex = kwargs.pop("return_complex", None)
         code = GenericMatcher.generate_code(self, kwargs)
-        if return_complex and return_complex == "(False)":
-            return code + ".as_real()"
-        else:
-            return code
+        return stft_code(self, code, return_complex)
 
 
 class Fractional_Max_pool2dMatcher(BaseMatcher):
-- 
2.43.0


From a770e736677f01f4d3ad1e241d7dee8e46af8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 57/62] fix: Tensor.qr exchanged the two values of 'some'

---
 paconvert/api_matcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 3f9b139..43bb538 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4368,8 +4368,12 @@ class QrMatcher(BaseMatcher):
         some_v = kwargs.pop("some") if "some" in kwargs else None
         out_v = kwargs.pop("out") if "out" in kwargs else None
 
-        if some_v:
-            kwargs["mode"] = "'complete'" if some_v != "(False)" else "'reduced'"
+        if some_v == "(True)":
+            kwargs["mode"] = "'reduced'"
+        elif some_v == "(False)":
+            kwargs["mode"] = "'complete'"
+        elif some_v:
+            kwargs["mode"] = f"'reduced' if {some_v} else 'complete'"
 
         if out_v:
             kwargs["x"] = kwargs.pop("input")
-- 
2.43.0


From 81305a26ff22b39175b3353f3708f4780d432333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 58/62] fix: lu and lu_unpack with 'out' guessed a flag that is
 only known at run time

---
 paconvert/api_matcher.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 43bb538..6aa1722 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4281,7 +4281,11 @@ class LuMatcher(BaseMatcher):
         out_v = kwargs.pop("out") if "out" in kwargs else None
 
         if out_v:
-            get_infos_v = "get_infos" in kwargs and kwargs["get_infos"] != "(False)"
+            get_infos_v = kwargs.get("get_infos", "(False)")
+            if get_infos_v not in ["(True)", "(False)"]:
+                # number of results is unknown
+                return None
+            get_infos_v = get_infos_v == "(True)"
             new_kwargs = {}
             new_kwargs["x"] = kwargs.pop("A")
             new_kwargs.update(kwargs)
@@ -5050,6 +5054,10 @@ class Lu_unpackMatcher(BaseMatcher):
 
         out_v = kwargs.pop("out", "None")
         if out_v != "None":
+            for k in ["unpack_ludata", "unpack_pivots"]:
+                # which results are valid is unknown
+                if kwargs.get(k, "(True)") not in ["(True)", "(False)"]:
+                    return None
             temp_outs = [get_unique_name(k) for k in ["out1", "out2", "out3"]]
             out1, out2, out3 = temp_outs
             if "unpack_ludata" in kwargs and kwargs["unpack_ludata"] == "(False)":
-- 
2.43.0


From a341f09f0c5991e3b7a21362e110328f1018f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:03 +0000
Subject: [PATCH 59/62] fix: InstanceNorm without affine got trainable scale
 and bias

---
 paconvert/api_mapping.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 6eb156b..6642de6 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -6516,6 +6516,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": false,
+      "bias_attr": false
     }
   },
   "torch.nn.InstanceNorm2d": {
@@ -6540,6 +6544,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": false,
+      "bias_attr": false
     }
   },
   "torch.nn.InstanceNorm3d": {
@@ -6564,6 +6572,10 @@
       "track_running_stats": "",
       "device": "",
       "dtype": ""
+    },
+    "paddle_default_kwargs": {
+      "weight_attr": false,
+      "bias_attr": false
     }
   },
   "torch.nn.KLDivLoss": {
-- 
2.43.0


From fca1fd5e57fdd2349d69510bd407d8f73a88865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 60/62] fix: an attribute of an API without a Paddle name ended
 the conversion with TypeError

---
 paconvert/transformer/basic_transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 70a3a46..644111f 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -204,9 +204,10 @@ class BasicTransformer(BaseTransformer):
                 matcher = self.get_api_matcher(
                     ".".join(attr_list[:-1]), ".".join(paddle_attr)
                 )
-                if matcher:
+                # its name may not exist in Paddle: no API, or one that is removed
+                paddle_api = matcher.get_paddle_api() if matcher else None
+                if paddle_api and paddle_api != "delete":
                     torch_api = ".".join(attr_list[:-1])
-                    paddle_api = matcher.get_paddle_api()
                     if paddle_api == "unchange":
                         self.success_api_count += 1
                         log_info(
-- 
2.43.0


From 0981df31960cb630679b8db860deb4321def11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 61/62] fix: a name that continues on the next line was marked
 or left unmarked by its second part

---
 paconvert/converter.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 7dd5928..23ff843 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -542,7 +542,7 @@ class Converter:
             scan_code = self.mask_change_prefix_apis(code, file)
 
         lines = code.split("\n")
-        scan_lines = self.remove_string(scan_code).split("\n")
+        scan_lines = self.join_dotted_names(self.remove_string(scan_code).split("\n"))
         mark_next_line = False
         for i, line in enumerate(lines):
             if re.match(
@@ -572,6 +572,21 @@ class Converter:
 
         return "\n".join(lines)
 
+    def join_dotted_names(self, lines):
+        # paddleformers.
+        #     transformers.AddedToken
+        # torch
+        #     .add(x)
+        # a name that continues on the next line is looked at as a whole
+        joined = list(lines)
+        for i in range(1, len(lines)):
+            line, last = lines[i].strip(), lines[i - 1].rstrip()
+            if re.search(r"((?<!\w)[^\W\d]\w*|[\)\]])\s*\.$", last):
+                joined[i] = "." + line
+            elif re.match(r"\.[^\W\d]", line) and re.search(r"\w$", last):
+                joined[i - 1] += "."
+        return joined
+
     def remove_string(self, code):
         # """ torch.* """
         # " torch.* "
-- 
2.43.0


From 97e35f8ca6639b9cdbc2928d2684bc3a9481851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:09 +0000
Subject: [PATCH 62/62] fix: an assignment to an API or an attribute that
 becomes an expression gave invalid Python

---
 paconvert/transformer/basic_transformer.py  | 12 ++++++++++--
 paconvert/transformer/import_transformer.py |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 644111f..ddabb1b 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -177,7 +177,9 @@ class BasicTransformer(BaseTransformer):
                         node.lineno,
                     )
                     return node
-                elif paddle_api:
+                elif paddle_api and self.can_replace(
+                    node, ast.parse(paddle_api).body[0].value
+                ):
                     self.all_api_map[torch_api]["paddle_api"] = (
                         paddle_api if paddle_api else ""
                     )
@@ -312,6 +314,12 @@ class BasicTransformer(BaseTransformer):
         # 3) Others
         return node
 
+    def can_replace(self, node, new_node):
+        # x.real = y / del x.real, only a name can be assigned or deleted
+        return isinstance(node.ctx, ast.Load) or isinstance(
+            new_node, (ast.Attribute, ast.Name, ast.Subscript)
+        )
+
     def trans_class_attribute(self, node, torch_api, origin_attr):
         matcher = self.get_attribute_matcher(torch_api, origin_attr)
         if matcher:
@@ -356,7 +364,7 @@ class BasicTransformer(BaseTransformer):
                 if isinstance(new_node, ast.Expr):
                     new_node = new_node.value
 
-                if isinstance(
+                if self.can_replace(node, new_node) and isinstance(
                     new_node,
                     (
                         ast.Call,
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 4855c35..e219674 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -456,7 +456,9 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            return self.get_canonical_node(torch_api)
+            new_node = self.get_canonical_node(torch_api)
+            new_node.ctx = node.ctx
+            return new_node
         return node
 
     def visit_Name(self, node):
-- 
2.43.0

