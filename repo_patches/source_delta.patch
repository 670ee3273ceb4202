From 5e2224bf58b7a1c33765f593d962ac0fce4afe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 01/81] fix: publish plain content files atomically

---
 .../noworkflow/now/persistence/content/plain_engine.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..18d36ad 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,5 +1,6 @@
 import hashlib
 import os
+import threading
 from os.path import join, isdir, isfile
 
 from .base import ContentDatabaseEngine
@@ -31,8 +32,13 @@ class PlainEngine(ContentDatabaseEngine):
             os.makedirs(content_dirname)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
+            # Publish complete files only: an interrupted write must not leave
+            # a truncated file under the hash
+            temp_filename = "{}.{}.{}.tmp".format(
+                content_path, os.getpid(), threading.get_ident())
+            with safeopen.std_open(temp_filename, "wb") as content_file:
                 content_file.write(content)
+            os.replace(temp_filename, content_filename)
         return content_hash
 
     def put_attr(self, content, filename):
-- 
2.43.0


From 3bfb4b5d60831dd4f71fe623cb10f21d6452a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 02/81] fix: run garbage collection on every content engine and
 honour --aggressive

---
 capture/noworkflow/now/cmd/cmd_gc.py                         | 2 +-
 capture/noworkflow/now/persistence/content/base.py           | 2 +-
 capture/noworkflow/now/persistence/content/git_system.py     | 4 ++--
 capture/noworkflow/now/persistence/content/plain_engine.py   | 2 +-
 capture/noworkflow/now/persistence/content/puregit_engine.py | 3 ---
 5 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_gc.py b/capture/noworkflow/now/cmd/cmd_gc.py
index ec4b037..0d587fc 100644
--- a/capture/noworkflow/now/cmd/cmd_gc.py
+++ b/capture/noworkflow/now/cmd/cmd_gc.py
@@ -32,4 +32,4 @@ class GC(Command):
     def execute(self, args):
         persistence_config.content_engine = args.content_engine
         persistence_config.connect_existing(args.dir or os.getcwd())
-        content.gc()
+        content.gc(args.aggressive)
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index a14a8ce..5a2d1c8 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,7 +56,7 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
 
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..b830d22 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -85,10 +85,10 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git gc", "--quiet"]
+    cmd = ["git", "gc", "--quiet"]
     if aggressive:
         cmd.append("--aggressive")
-    execute(cmd, cwd=git_path, shell=True)
+    execute(cmd, cwd=git_path)
 
 
 def count_loose_objects(git_path):
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 18d36ad..544e961 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -70,7 +70,7 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
 
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..6a69e32 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -41,9 +41,6 @@ class PureGitEngine(GitContentDatabaseEngine):
         """Get content from the content database"""
         return git_system.get(content_hash, self.content_path)
  
-    def gc(self):
-        git_system.garbage_collection(self.content_path)
-
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
-- 
2.43.0


From 5c7859560ca9936246d19e326f6312922155700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 03/81] fix: accept unnamed content in the plain engine as the
 other engines do

---
 capture/noworkflow/now/persistence/content/plain_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 544e961..7100026 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -45,7 +45,7 @@ class PlainEngine(ContentDatabaseEngine):
         """Return attributes for the do_put operation"""
         return (self.content_path, content)
 
-    def put(self, content, filename):  # pylint: disable=method-hidden
+    def put(self, content, filename="generic"):  # pylint: disable=method-hidden
         """Put content in the content database"""
         return self.do_put(*self.put_attr(content, filename))
 
-- 
2.43.0


From 0b0d946da02bac66141d40a3af19e5b6ad6b99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 04/81] fix: resolve abbreviated hashes to text in the pure git
 engine

---
 .../now/persistence/content/puregit_engine.py          | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 6a69e32..18a116f 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -43,13 +43,9 @@ class PureGitEngine(GitContentDatabaseEngine):
  
     def find_subhash(self, content_hash):
         """Find hash in database"""
-        bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
-        objects = git_system.all_objects(self.content_path)
-        print(objects)
-        for obj in objects:
-            print(obj)
-            if obj.startswith(bytes_content_hash):
+        for obj in git_system.all_objects(self.content_path):
+            obj = obj.decode("utf-8", "replace")
+            if obj.startswith(content_hash):
                 return obj
         return None
 
-- 
2.43.0


From 0afb35cacce8ceebbedc83a6b89249e7a24e9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 05/81] fix: shut the storage workers down when the interpreter
 exits

---
 capture/noworkflow/now/persistence/content/parallel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 61b1579..1956856 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -3,6 +3,7 @@
 # This file is part of noWorkflow.
 # Please, consult the license terms in the LICENSE file.
 """Content database engine parallel generics"""
+import atexit
 
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
@@ -52,6 +53,8 @@ def create_distributed(cls, name=None):
                     consumer = Worker(self.tasks, self)
                     self.consumers.append(consumer)
                     consumer.start()
+            # Without the shutdown, the interpreter waits for the workers forever
+            atexit.register(self.close)
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
@@ -97,6 +100,8 @@ def create_pool(cls, name=None):
                 self.object_hashes = self.manager.dict()
                 self.pool = Pool(cpu_count())
                 self.processes_started = True
+            # Without the shutdown, the interpreter discards the pending tasks
+            atexit.register(self.close)
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-- 
2.43.0


From 78bb1b80b0bc2d6f8231b247f9cd4f6a92c7e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 06/81] fix: commit the content that pull and import bring in

---
 capture/noworkflow/now/cmd/cmd_import.py | 1 +
 capture/noworkflow/now/cmd/cmd_pull.py   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_import.py b/capture/noworkflow/now/cmd/cmd_import.py
index e7b3b4a..2f6eb68 100644
--- a/capture/noworkflow/now/cmd/cmd_import.py
+++ b/capture/noworkflow/now/cmd/cmd_import.py
@@ -51,6 +51,7 @@ class Import(Command):
         sourceFiles=self.sourceContent.listAll()
         
         [self.addFile(x) for x in sourceFiles if x not in targetFiles]
+        self.targetContent.commit_content("Import")
     
     def addFile(self,name):
         content=self.sourceContent.get(name)
diff --git a/capture/noworkflow/now/cmd/cmd_pull.py b/capture/noworkflow/now/cmd/cmd_pull.py
index 016de33..37e2c0a 100644
--- a/capture/noworkflow/now/cmd/cmd_pull.py
+++ b/capture/noworkflow/now/cmd/cmd_pull.py
@@ -71,7 +71,7 @@ class Pull(Command):
         print("Importing file: "+url)
         headers = {'Accept-Encoding': 'gzip'}
         response=requests.get(url, headers=headers)
-        content.put(response.content, None)
+        content.put(response.content)
 
     def importFiles(self,url):
         filesUrl=self.url+"/collab/files"
@@ -82,6 +82,7 @@ class Pull(Command):
         targetFiles=content.listAll()
         filesToImport=[x for x in sourceFiles if x not in targetFiles]
         [self.importFile(filesUrl+"/"+x) for x in filesToImport]
+        content.commit_content("Pull from {}".format(self.url))
         
         return True
 
-- 
2.43.0


From 781124108f58a8765a956bb7f7da3e3bd6352848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 07/81] fix: capture the files that a captured module accesses
 while it is imported

---
 .../now/collection/prov_deployment/py3module.py          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 2024d2c..7929365 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -141,6 +141,7 @@ def create_source_loader(metascript, loader):
             return loader.create_module(spec)
 
         def exec_module(self, module):
+            code = None
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
@@ -151,7 +152,6 @@ def create_source_loader(metascript, loader):
                     code, id_, transformed = metascript.definition.collect(
                         None, source_path, "exec"
                     )
-                    exec(code, module.__dict__)
                     create_module = True # Override bypass_modules
                 else:
                     if create_module:
@@ -161,7 +161,12 @@ def create_source_loader(metascript, loader):
                         )[1]
                     loader.exec_module(module)
 
-                if create_module:
+            if code is not None:
+                # The body of a captured module can access files
+                exec(code, module.__dict__)
+
+            if create_module:
+                with content.use_safe_open():
                     # To get version, the module must execute first
                     metascript.deployment.add_module(
                         module.__name__,
-- 
2.43.0


From ecec27d34c021eddfb0d083c048c7d9575dc8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 08/81] fix: evaluate decorators, defaults, and annotations of
 functions only once

---
 .../collection/prov_definition/transformer_stmt.py  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..1bd1da3 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -239,6 +239,19 @@ class RewriteAST(ast.NodeTransformer):
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
                 old_fd = deepcopy(stmt)
                 old_fd.name = "__now_original_" + stmt.name
+                # the decorators, defaults, and annotations are evaluated by
+                # the instrumented definition
+                old_fd.decorator_list = []
+                old_fd.returns = None
+                args = old_fd.args
+                args.defaults = [none() for _ in args.defaults]
+                if PY3:
+                    args.kw_defaults = [
+                        default and none() for default in args.kw_defaults
+                    ]
+                for arg in ast.walk(args):
+                    if hasattr(arg, 'annotation'):
+                        arg.annotation = None
                 new_body.append(old_fd) 
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
-- 
2.43.0


From ef4915d1299f94f50ea2dba1ee0ca1be44cd4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 09/81] fix: keep the docstrings of scripts and functions

---
 .../collection/prov_definition/transformer_stmt.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 1bd1da3..adf6708 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -192,7 +192,8 @@ class RewriteAST(ast.NodeTransformer):
             iscell = none()
             if self.cell is not None:
                 iscell = name = ast.Str(self.cell)
-            body = future_imports + [
+            docstring = [] if future_imports else self.docstring(node)
+            body = docstring + future_imports + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_result__', S())],
                     none()
@@ -266,6 +267,12 @@ class RewriteAST(ast.NodeTransformer):
 
 
 
+    def docstring(self, node):                                                   # pylint: disable=no-self-use
+        """Return list with the docstring statement of node, if it has one"""
+        if ast.get_docstring(node, clean=False) is None:
+            return []
+        return [copy(node.body[0])]
+
     def visit_Module(self, node, cls=ast.Module):
         """Visit Module. Create and close activation"""
         # pylint: disable=invalid-name
@@ -450,7 +457,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            body = self.docstring(new_node) + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
-- 
2.43.0


From 5d9fc7320e146b3a55303280d9fc592d94442f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 10/81] fix: let bare except clauses catch every exception

---
 .../now/collection/prov_definition/transformer_stmt.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index adf6708..e85b3c3 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1236,7 +1236,7 @@ class RewriteAST(ast.NodeTransformer):
         """
         new_node = copy(node)
         if new_node.type is None:
-            new_node.type = ast.Name('Exception', L())
+            new_node.type = ast.Name('BaseException', L())
         name = '__now_exception__'
         if new_node.name is None:
             new_node.name = name if PY3 else ast.Name(name, S())
-- 
2.43.0


From 591dc67129b5bb7ed949e44ec4f7ec0d4d19bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 11/81] fix: instrument dictionary unpacking in dict displays

---
 .../now/collection/prov_definition/transformer_expr.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..fe4643b 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -35,6 +35,8 @@ class RewriteDependencies(ast.NodeTransformer):
 
     def _dict_itemize(self, key, value, func='dict', extra=None):
         extra = extra or []
+        if key is None:  # **value
+            return None, self.rewriter.capture(value, mode=Dependency.VALUE)
         last_line, last_col = key.last_line, key.last_col
         key.last_line, key.last_col = value.last_line, value.last_col
         name = pyposast.extract_code(self.rewriter.lcode, key)
-- 
2.43.0


From 51b9d918ce90b64cdc2d217b855dc98ff84b73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 12/81] fix: create components for expressions that have no
 visitor

---
 .../now/collection/prov_definition/transformer_stmt.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index e85b3c3..47a8221 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -61,9 +61,10 @@ class RewriteAST(ast.NodeTransformer):
         if hasattr(citem, 'code_component_id'):
             return ast.Num(citem.code_component_id)
         elif fallback:
-            name = pyposast.extract_code(self.lcode, node)
+            if not hasattr(node, 'name'):
+                node.name = pyposast.extract_code(self.lcode, node)
             id_ = self.create_code_component(
-                node, name, mode
+                node, node_type, mode
             )
             self.create_composition(id_, *self.composition_edge)
             return ast.Num(id_)
-- 
2.43.0


From 77a379076b4506893f517d3c6fce53d06302a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 13/81] fix: instrument functions with positional-only
 parameters

---
 .../now/collection/prov_definition/ast_elements.py       | 9 +++++++++
 .../now/collection/prov_definition/transformer_expr.py   | 6 +++---
 .../now/collection/prov_definition/transformer_stmt.py   | 8 +++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..35bb7bb 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -126,6 +126,15 @@ def arguments():
         result.kw_defaults = []
     return result
 
+def add_first_params(args, params):
+    """Add params before the first positional parameter of arguments"""
+    if maybe(args, 'posonlyargs'):
+        args.posonlyargs = params + args.posonlyargs
+    else:
+        args.args = params + args.args
+    return args
+
+
 def nlambda(args=None, body=None):
     """Create lambda object"""
     if not args:
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index fe4643b..06b9971 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -15,7 +15,7 @@ import pyposast
 from .ast_helpers import ast_copy
 
 from .ast_elements import L, S, context, none, call, param, true
-from .ast_elements import noworkflow, double_noworkflow
+from .ast_elements import noworkflow, double_noworkflow, add_first_params
 from .ast_elements import nlambda, activation, act_attribute
 
 from . import dependency_constants as Dependency
@@ -264,14 +264,14 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
+        new_node.args = add_first_params(new_node.args, [
             param('__now_activation__'),
             param('__now_function_def__'),
             param('__now_args__'),
             param('__now_kwargs__'),
             param('__now_default_values__'),
             param('__now_default_dependencies__'),
-        ] + new_node.args.args
+        ])
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 47a8221..29a3935 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -17,6 +17,7 @@ from .ast_helpers import select_future_imports
 
 from .ast_elements import maybe, context, raise_, now_attribute
 from .ast_elements import L, S, none, call, param, true_false, true, false
+from .ast_elements import add_first_params
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
 
@@ -361,7 +362,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        for index, arg in enumerate(
+                (maybe(arguments, 'posonlyargs') or []) + arguments.args):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -470,14 +472,14 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
+            new_node.args = add_first_params(new_node.args, [
                 param('__now_activation__'),
                 param('__now_function_def__'),
                 param('__now_args__'),
                 param('__now_kwargs__'),
                 param('__now_default_values__'),
                 param('__now_default_dependencies__'),
-            ] + new_node.args.args
+            ])
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
-- 
2.43.0


From 04cea579602410293d7133533294597f2190c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:48 +0000
Subject: [PATCH 14/81] fix: do not run operators of the script's values while
 recording

---
 .../now/collection/prov_execution/collector.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..e59fe86 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -587,7 +587,7 @@ class Collector(object):
             if '_' in activation.context:
                 activation.context['__'] = activation.context['_']
                 del activation.context['_']
-            if value:
+            if value is not None:
                 activation.context['_'] = evaluation
                 activation.context['_{}'.format(self.ipcell)] = evaluation
                 self.iphistory[self.ipcell] = evaluation
@@ -760,7 +760,7 @@ class Collector(object):
         value_depa = activation.dependencies.pop()
         if key is None:
             key = value
-        if key == -1:
+        elif key == -1:
             key = len(activation.dependencies[-1].items)
         if activation.active:
             if len(value_depa.dependencies) == 1:
@@ -1729,7 +1729,7 @@ class Collector(object):
                 bind = False
                 if len(depa.dependencies) == 1:
                     gen_dep = depa.dependencies[0]
-                    bind = gen_dep.value == element
+                    bind = gen_dep.value is element
                 clone_depa, found = self.sub_dependency(
                     dep, value, index, clone_depa
                 )
@@ -1801,7 +1801,7 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
+        value = unset = object()
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
@@ -1814,7 +1814,7 @@ class Collector(object):
             raise
         finally:
             depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
+            if activation.active and value is not unset:
                 self.eval_dep(activation, code_id, value, mode, depa)
             self.remove_condition(activation)
 
-- 
2.43.0


From 1e07563aa24f7d2cc5e3d44e70a04ed9a6b9e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 15/81] fix: accept decorators that return objects without
 attributes

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e59fe86..55c6432 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1409,7 +1409,10 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            try:
+                function_def.original_def = original_def
+            except (AttributeError, TypeError):
+                pass  # result of decorator does not accept attributes
             return function_def
         return dec
 
-- 
2.43.0


From e5980f33c8a6ff2b58ab54c83afdb956fa963e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 16/81] fix: record values whose representation fails

---
 .../noworkflow/now/collection/prov_execution/collector.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 55c6432..fb6d40a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -132,7 +132,12 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # the script may define a __repr__ that fails or that depends on
+            # attributes that do not exist yet
+            return object.__repr__(value)
 
     def as_is(self, value):
         """Return value without any processing"""
-- 
2.43.0


From cae8c657875d7210604cadcc12e41da2f0267523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 17/81] fix: accept negative keys in objects that are not
 sequences

---
 .../now/collection/prov_execution/collector.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index fb6d40a..518a2ed 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -247,6 +247,15 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def normalize_index(self, vcontainer, vindex):                               # pylint: disable=no-self-use
+        """Convert negative index of sequence into a positive index"""
+        if isinstance(vindex, int) and vindex < 0:
+            try:
+                return len(vcontainer) + vindex
+            except Exception:  # pylint: disable=broad-except
+                pass  # not a sequence
+        return vindex
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -264,9 +273,7 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = self.normalize_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
@@ -353,9 +360,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = self.normalize_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 vcontainer[vindex] = value
             elif access == ".":
-- 
2.43.0


From 962097739dad25f44345af1bcee5226eeeb7371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 18/81] fix: accept and record every argument form of open

---
 .../collection/prov_execution/collector.py    | 46 ++++++++++---------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 518a2ed..68c75b1 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -145,19 +145,22 @@ class Collector(object):
 
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
             """Open file and add it to file_accesses"""
             if content.should_use_safe_open():
-                return old_open(name, *args, **kwargs)
-            if isinstance(name, int):
+                return old_open(*args, **kwargs)
+            name = args[0] if args else kwargs.get(
+                'file', kwargs.get('filename', kwargs.get('path'))
+            )
+            if name is None or isinstance(name, int):
                 # ToDo: support file descriptor
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             activation = self.last_activation
             while activation and not activation.active:
                 activation = activation.parent
 
             if not activation:
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
                 self.trial_id, name, self.get_time()
@@ -167,24 +170,25 @@ class Collector(object):
                 with content.std_open(name, "rb") as fil:
                     file_access.content_hash_before = content.put(fil.read(), name)
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
-                    for key, value in viewitems(OPEN_MODES):
-                        flag = getattr(os, key, 0)
-                        if args[0] & flag:
-                            value = value or "({})".format(key)
-                            mode += value
-
+            # Update with the informed arguments (mode / buffering)
+            mode = (
+                args[1] if len(args) > 1
+                else kwargs.get("flags" if osopen else "mode")
+            )
+            buffering = args[2] if len(args) > 2 else kwargs.get("buffering")
+            if not osopen and isinstance(buffering, int):
+                file_access.buffering = buffering
+            if osopen and mode is not None:
+                flags, mode = mode, ""
+                for key, value in viewitems(OPEN_MODES):
+                    flag = getattr(os, key, 0)
+                    if flags & flag:
+                        value = value or "({})".format(key)
+                        mode += value
+            if mode is not None:
                 file_access.mode = mode
             activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+            return old_open(*args, **kwargs)
 
         return open
 
-- 
2.43.0


From 28b50ff51f8dcceebf7cdb9e6f80dbe49e66cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 19/81] fix: record accesses to files that cannot be read

---
 .../collection/prov_execution/collector.py    | 22 +++++++++++++------
 .../persistence/lightweight/file_access.py    |  4 +++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 68c75b1..e0d997a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -143,6 +143,18 @@ class Collector(object):
         """Return value without any processing"""
         return value
 
+    def put_file(self, name):                                                    # pylint: disable=no-self-use
+        """Store content of regular file. Return its hash
+        Return None if it is not possible to read the file"""
+        try:
+            if not os.path.isfile(name):
+                return None
+            with content.std_open(name, "rb") as fil:
+                data = fil.read()
+        except (OSError, ValueError):
+            return None
+        return content.put(data, os.fsdecode(name))
+
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
         def open(*args, **kwargs):  # pylint: disable=redefined-builtin
@@ -165,10 +177,8 @@ class Collector(object):
             file_access = self.file_accesses.add_object(
                 self.trial_id, name, self.get_time()
             )
-            if os.path.exists(name):
-                # Read previous content if file exists
-                with content.std_open(name, "rb") as fil:
-                    file_access.content_hash_before = content.put(fil.read(), name)
+            # Read previous content if file exists
+            file_access.content_hash_before = self.put_file(name)
             file_access.activation_id = activation.id
             # Update with the informed arguments (mode / buffering)
             mode = (
@@ -434,9 +444,7 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
-                with content.std_open(file_access.name, "rb") as fil:
-                    file_access.content_hash_after = content.put(fil.read(), file_access.name)
+            file_access.content_hash_after = self.put_file(file_access.name)
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 36d2d3d..3c33545 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -6,6 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+import os
+
 from datetime import datetime
 
 from future.utils import viewitems
@@ -32,7 +34,7 @@ class FileAccessLW(BaseLW):
     ):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
-        self.name = str(name)
+        self.name = os.fsdecode(name) if isinstance(name, bytes) else str(name)
         self.mode = mode
         self.buffering = buffering
         self.content_hash_before = content_hash_before
-- 
2.43.0


From 684216837e8c9df492c2e102d324018671151fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 20/81] fix: look up attributes of objects without __dict__

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e0d997a..2342188 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -238,7 +238,7 @@ class Collector(object):
                 if hasattr(accessor, '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            if vindex in getattr(vcontainer, '__dict__', ()):
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
-- 
2.43.0


From 4e5e09cb77fc8ff2d726710d4e952779c901efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 21/81] fix: support with statements that have no target

---
 .../noworkflow/now/collection/prov_execution/collector.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2342188..f880908 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1349,7 +1349,10 @@ class Collector(object):
                     find_bound_self = None
                     if function_def.__name__ == "__enter__":
                         # ToDo: check the proper __enter__ assignment
-                        find_bound_self = activation.assignments[-1].dependency
+                        if activation.assignments:
+                            find_bound_self = activation.assignments[-1].dependency
+                        else:  # with statement without target
+                            future.bound_dependency = True
                     if function_def.__name__ == "__init__":
                         # Find value in activation result (__init__ after __new__)
                         find_bound_self = activation.dependencies[1]
@@ -1378,7 +1381,7 @@ class Collector(object):
                             activation.assignments[-1].dependency.dependencies.extend(
                                 self.last_activation.dependencies[-1].dependencies
                             )
-                        except AttributeError:
+                        except (AttributeError, IndexError):
                             pass
                     if is_augassign:
                         activation.dependencies.pop()
-- 
2.43.0


From d56a88cfeb102ec57dd18dcea757dbafe730ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 22/81] fix: evaluate defaults of keyword-only parameters only
 once

---
 .../now/collection/prov_definition/transformer_expr.py   | 4 ++++
 .../now/collection/prov_definition/transformer_stmt.py   | 5 +++++
 .../now/collection/prov_execution/collector.py           | 9 +++++++++
 3 files changed, 18 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 06b9971..56c1e4e 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -273,6 +273,10 @@ class RewriteDependencies(ast.NodeTransformer):
             param('__now_default_dependencies__'),
         ])
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
+        if PY3:
+            new_node.args.kw_defaults = [
+                arg and none() for arg in new_node.args.kw_defaults
+            ]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 29a3935..c03870e 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -483,6 +483,11 @@ class RewriteAST(ast.NodeTransformer):
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
+            if PY3:
+                new_node.args.kw_defaults = [
+                    arg and ast_copy(none(), arg)
+                    for arg in new_node.args.kw_defaults
+                ]
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
                 returns=maybe(new_node, 'returns'), cls=cls
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f880908..a31daa2 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1414,6 +1414,15 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
+            kwdefaults = getattr(function_def, '__kwdefaults__', None)
+            if kwdefaults:
+                code = function_def.__code__
+                names = code.co_varnames[
+                    code.co_argcount:code.co_argcount + code.co_kwonlyargcount
+                ]
+                for name, value in zip(names, default_values[1]):
+                    if name in kwdefaults:
+                        kwdefaults[name] = value
             closure_activation.dependencies.append(DependencyAware(
                 exc_handler=defaults.exc_handler,
                 code_id=block_id,
-- 
2.43.0


From 386e3c69decca032d55966b12bd38828f23ead34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 23/81] fix: do not leave open dependencies behind lambdas

---
 .../now/collection/prov_execution/collector.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a31daa2..39fd79c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1423,10 +1423,12 @@ class Collector(object):
                 for name, value in zip(names, default_values[1]):
                     if name in kwdefaults:
                         kwdefaults[name] = value
-            closure_activation.dependencies.append(DependencyAware(
-                exc_handler=defaults.exc_handler,
-                code_id=block_id,
-            ))
+            if function_def.__name__ != "<lambda>":
+                # collect_function_def pops it. Lambdas have no such call
+                closure_activation.dependencies.append(DependencyAware(
+                    exc_handler=defaults.exc_handler,
+                    code_id=block_id,
+                ))
             if closure_activation.active:
                 self.eval_dep(
                     closure_activation, block_id, new_function_def, mode
-- 
2.43.0


From a8262ce539aab67163ce0d16eca163ae90980af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 24/81] fix: match every form of argument without consuming it

---
 .../collection/prov_execution/collector.py    | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 39fd79c..7a8fd8b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1547,9 +1547,6 @@ class Collector(object):
         arguments = []
         keywords = []
 
-        new_args = []
-        new_kwargs = {}
-        
         for dependency in activation.dependencies[1].dependencies:
             if dependency.mode.startswith("argument"):
                 kind = dependency.kind
@@ -1625,21 +1622,24 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
-                new_args.extend(arg.value)
-                for _ in range(len(arg.value)):
-                    param = parameter_order[last_unfilled]
+                # Other iterables may be consumed by the call
+                count = len(original_args) - last_unfilled
+                if type(arg.value) in (tuple, list):
+                    count = len(arg.value)
+                for param in parameter_order[last_unfilled:][:count]:
                     match(arg, param)
                     if param.is_vararg:
                         break
                     param.filled = True
                     last_unfilled += 1
             else:
-                new_args.append(arg.value)
                 param = parameter_order[last_unfilled]
                 match(arg, param)
                 if not param.is_vararg:
@@ -1664,21 +1664,18 @@ class Collector(object):
                 param = parameters[key]
             if param is not None:
                 match(keyword, param)
-                new_kwargs[key] = keyword.value
                 param.filled = True
             elif keyword.arg == "**":
-                for key in viewkeys(keyword.value):
-                    if key in parameters:
+                for key in original_kwargs:
+                    if key in parameters and not parameters[key].filled:
                         param = parameters[key]
                         match(keyword, param)
-                        new_kwargs[key] = keyword.value
                         param.filled = True
 
         # Default parameters
         for param in viewvalues(parameters):
             if not param.filled and param.default is not None:
                 match(param.default, param)
-                new_kwargs[param.name] = param.default.value
 
         # Missing arguments
         for param in viewvalues(parameters):
-- 
2.43.0


From 8fb3fa02ead741757f60368054f591d330533436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 25/81] fix: support comprehensions with conditions in many
 generators

---
 .../now/collection/prov_execution/collector.py         | 10 +++++++---
 .../now/collection/prov_execution/structures.py        |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7a8fd8b..d882e28 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1806,6 +1806,8 @@ class Collector(object):
         """Capture rcondition after. Remove conditions if false"""
         # pylint: disable=no-self-use
         self._condition(activation, value)
+        activation.conditions[-1].level = count
+        value = bool(value)
         if not value:
             self.remove_conditions(activation, count)
 
@@ -1817,9 +1819,11 @@ class Collector(object):
         return self._remove_condition
 
     def remove_conditions(self, activation, count):
-        """Just remove count condition dependencies"""
-        for _ in range(count):
-            activation.conditions.pop()
+        """Just remove condition dependencies of count comprehension levels.
+        Some of them may have been removed by a previous item"""
+        for level in range(count, 0, -1):
+            if activation.conditions and activation.conditions[-1].level == level:
+                activation.conditions.pop()
         return self._remove_condition
 
     def _remove_condition(self, value):
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1e3610e..50251c7 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -83,6 +83,7 @@ class DependencyAware(object):
         self.exc_handler = exc_handler
         self.code_id = code_id
         self.maybe_activation = maybe_activation or set()
+        self.level = None
 
         self.active = active
 
-- 
2.43.0


From 311178fd866b4e94fc56f23a0896a9a1814ebf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:03 +0000
Subject: [PATCH 26/81] fix: instrument the statements inside nodes that have
 no visitor

---
 .../collection/prov_definition/transformer_stmt.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index c03870e..77bc170 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -267,7 +267,19 @@ class RewriteAST(ast.NodeTransformer):
 
         return new_body
 
-
+    def generic_visit(self, node):
+        """Process the statement lists of nodes that do not have a visitor"""
+        bodies = {}
+        for field, value in ast.iter_fields(node):
+            if isinstance(value, list) and value and isinstance(value[0], ast.stmt):
+                bodies[field] = value
+                setattr(node, field, [])
+        node = super(RewriteAST, self).generic_visit(node)
+        for field, value in bodies.items():
+            setattr(node, field, self.process_body(
+                value, self.container_id, attr="*" + field
+            ))
+        return node
 
     def docstring(self, node):                                                   # pylint: disable=no-self-use
         """Return list with the docstring statement of node, if it has one"""
-- 
2.43.0


From 651af551a584dd25c85bdc3b4701921460179f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 27/81] fix: store the trial and remove the import hook however
 the script ends

---
 .../now/collection/prov_execution/execution.py       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..673682d 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -61,14 +61,18 @@ class Execution(object):
                 metascript.code, metascript.path, "exec"
             )
             sys.meta_path.insert(0, metascript.definition.finder)
-            exec(compiled, metascript.namespace)  # pylint: disable=exec-used
-            sys.meta_path.remove(metascript.definition.finder)
+            try:
+                exec(compiled, metascript.namespace)  # pylint: disable=exec-used
+            finally:
+                if metascript.definition.finder in sys.meta_path:
+                    sys.meta_path.remove(metascript.definition.finder)
         except SystemExit as ex:
-            self.force_msg = self.partial = ex.code > 0
+            # None is a success and objects that are not numbers are failures
+            self.force_msg = self.partial = ex.code not in (None, 0)
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-        except Exception as exc:  # pylint: disable=broad-except
+        except BaseException as exc:  # pylint: disable=broad-except
             # ToDo #77: exceptions should be registered as return from the
             # activation and stored in the database. We are currently ignoring
             # all the activation tree when exceptions are raised.
-- 
2.43.0


From f820f3573662e454e3a7d36b1dcc7662d110df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 28/81] fix: assign starred targets and iterables without
 evaluating them again

---
 .../collection/prov_execution/collector.py    | 65 +++++++++----------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d882e28..b20d1a6 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -21,7 +21,7 @@ from future.utils import viewvalues, viewkeys, viewitems, exec_
 
 from ...persistence import content
 from ...persistence.models import Trial
-from ...utils.cross_version import IMMUTABLE, isiterable, PY3
+from ...utils.cross_version import IMMUTABLE, PY3
 from ...utils.cross_version import cross_print, PY38
 
 from .structures import AssignAccess, Assign, Generator, FutureActivation
@@ -802,27 +802,26 @@ class Collector(object):
     def genexp(self, activation, code_id, exc_handler, lvalue, mode):
         """Capture genexp"""
         # pylint: disable=too-many-arguments
+        activation.dependencies.append(CollectionDependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        ))
+        gen = Generator()
         try:
-            activation.dependencies.append(CollectionDependencyAware(
-                exc_handler=exc_handler,
-                code_id=code_id,
-            ))
-            gen = Generator()
             value = lvalue(gen)
-            return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
-        finally:
-            depa = activation.dependencies.pop()
-            gen.value = value
-            if activation.active:
-                eva = self.evaluate_depa(activation, code_id, value, None, depa)
-                dependency = Dependency(eva, value, mode)
-                dependency.sub_dependencies.extend(depa.dependencies)
-                activation.dependencies[-1].add(dependency)
-                gen.evaluation = eva
-                gen.dependency = dependency
+        depa = activation.dependencies.pop()
+        gen.value = value
+        if activation.active:
+            eva = self.evaluate_depa(activation, code_id, value, None, depa)
+            dependency = Dependency(eva, value, mode)
+            dependency.sub_dependencies.extend(depa.dependencies)
+            activation.dependencies[-1].add(dependency)
+            gen.evaluation = eva
+            gen.dependency = dependency
+        return value
 
     def genitem(self, activation, code_id, exc_handler):
         """Capture genitem before"""
@@ -958,7 +957,7 @@ class Collector(object):
     def _extract_assign_access(self, activation, assign, target_info, back):
         checkpoint = assign.checkpoint
         code_id, vdef = target_info
-        addr = value_dep = None
+        access_depa = addr = value_dep = None
         if code_id in assign.accesses:
             # Replaces information for more precise subscript
             value, access_depa, addr, value_dep, checkpoint = (
@@ -1036,6 +1035,8 @@ class Collector(object):
         if not new_eva:
             return clone_depa, None
         if val is NOW_UNSET:
+            if not isinstance(value, (list, tuple)):
+                return clone_depa, None
             val = value[index]
 
         new_depa = clone_depa.clone(extra_only=True)
@@ -1050,8 +1051,7 @@ class Collector(object):
         value = assign.value
         propagate_dependencies = (
             len(depa.dependencies) == 1 and
-            depa.dependencies[0].mode.startswith("assign") and
-            isiterable(value)
+            depa.dependencies[0].mode.startswith("assign")
         )
         clone_depa = depa.clone(mode="dependency")
         def custom_dependency(_):
@@ -1075,7 +1075,7 @@ class Collector(object):
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
                     self.create_dependencies_id(
-                        activation, dep.evaluation.id, new_depa
+                        activation.id, dep.evaluation.id, new_depa
                     )
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
@@ -1092,38 +1092,33 @@ class Collector(object):
     def assign_multiple_apply(self, activation, assign, target_info, custom, back):
         """Create dependencies for assignment to tuple/list"""
         # pylint: disable=too-many-locals
-        assign_value = assign.value
         subcomps = target_info
         # Assign until starred
         starred = None
-        delta = 0
         for index, subcomp in enumerate(subcomps):
             if subcomp[-1] == "starred":
                 starred = index
                 break
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
             adepa, _ = custom(index)
-            delta += self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
 
         if starred is None:
-            return delta
+            return 1
 
         star = subcomps[starred][0]
-        rdelta = -1
+        # ToDo: treat it as a plain slice
+        new_value = self.value_from_target_expr(activation, assign, star, back + 1)
+        extra = len(new_value) - 1
         for index in range(len(subcomps) - 1, starred, -1):
             subcomp = subcomps[index]
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            new_index = len(assign_value) + rdelta
-            adepa, _ = custom(new_index)
-            rdelta -= self.assign(
-                activation, assign.sub(val, adepa), subcomp, back + 1)
-
-        # ToDo: treat it as a plain slice
-        new_value = assign_value[delta:rdelta + 1]
+            adepa, _ = custom(index + extra)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
 
         depas = [
             custom(index)[0]
-            for index in range(delta, len(assign_value) + rdelta + 1)
+            for index in range(starred, starred + extra + 1)
         ]
 
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
@@ -1131,7 +1126,7 @@ class Collector(object):
     def assign(self, activation, assign, target_expr, back=1):
         """Create dependencies"""
         if not activation.active:
-            return 0
+            return 1  # comprehensions use the result as a condition
         ldepa = []
         _, _, depa = assign
         if isinstance(depa, list):
-- 
2.43.0


From 2900abad4e3ad9773799f715007976ee34122db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 29/81] fix: keep the dependency stack balanced when
 conditional expressions raise

---
 .../collection/prov_execution/collector.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b20d1a6..03adbfc 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1836,22 +1836,22 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = unset = object()
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id
+        ))
+        conditions = len(activation.conditions)
         try:
-            activation.dependencies.append(DependencyAware(
-                exc_handler=exc_handler,
-                code_id=code_id
-            ))
             value = if_lambda()
-            return value
         except:
             self.collect_exception(activation, exc_handler)
+            del activation.conditions[conditions:]
             raise
-        finally:
-            depa = activation.dependencies.pop()
-            if activation.active and value is not unset:
-                self.eval_dep(activation, code_id, value, mode, depa)
-            self.remove_condition(activation)
+        depa = activation.dependencies.pop()
+        if activation.active:
+            self.eval_dep(activation, code_id, value, mode, depa)
+        self.remove_condition(activation)
+        return value
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
-- 
2.43.0


From 04b3b48868c681580d6f5cf4964f2b3f9a2abb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 30/81] fix: define classes with their own class statement

---
 .../prov_definition/ast_elements.py           | 15 ++++++--
 .../prov_definition/transformer_stmt.py       | 15 ++++----
 .../collection/prov_execution/collector.py    | 37 ++++++++-----------
 3 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 35bb7bb..dcb0882 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -163,16 +163,20 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
-def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):     # pylint: disable=too-many-arguments
+def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef,      # pylint: disable=too-many-arguments
+                 type_params=None):
     """Create function definition"""
     constructor = [name, args, body, decs]
     if PY3:
         constructor.append(returns)
 
-    return cls(*constructor)
+    result = cls(*constructor)
+    if type_params:
+        result.type_params = type_params
+    return result
 
 
-def class_def(name, bases, body, decorators, keywords=None):
+def class_def(name, bases, body, decorators, keywords=None, type_params=None):   # pylint: disable=too-many-arguments
     """Create class definition"""
     constructor = [name, bases]
     if PY3:
@@ -180,7 +184,10 @@ def class_def(name, bases, body, decorators, keywords=None):
     constructor.append(body)
     constructor.append(decorators)
 
-    return ast.ClassDef(*constructor)
+    result = ast.ClassDef(*constructor)
+    if type_params:
+        result.type_params = type_params
+    return result
 
 def try_def(body, handlers, orelse, finalbody, node=None):
     """Create try block"""
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 77bc170..804b65f 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -502,7 +502,8 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
-                returns=maybe(new_node, 'returns'), cls=cls
+                returns=maybe(new_node, 'returns'), cls=cls,
+                type_params=maybe(new_node, 'type_params')
             ), new_node)
 
     def visit_AsyncFunctionDef(self, node):
@@ -520,8 +521,8 @@ class RewriteAST(ast.NodeTransformer):
         Into:
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
-        @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
-        class c(object):
+        @<now>.class_def(<act>, <block_id>, <exc>)(<act>, <mode>)
+        class c(|object|, metaclass=|meta|):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
             ...
         """
@@ -559,17 +560,17 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Num(self.container_id),
                     ast.Num(old_exc_handler)
                 ], [
+                    activation(),
                     ast.Str(Dependency.DECORATE),
-                    ast.Tuple(bases, L()),
                 ]
             ), new_node)
 
+            keywords = None
             if hasattr(new_node, 'keywords'): # Python 3
                 keywords = []
                 for index, keyword in enumerate(new_node.keywords):
                     self.composition_edge = (class_id, Component.M_KEYWORDS, index)
                     keywords.append(rewriter.process_call_keyword(keyword))
-                class_def_fn.keywords = keywords
 
             decorators.append(class_def_fn)
             old_body = node.body
@@ -593,8 +594,8 @@ class RewriteAST(ast.NodeTransformer):
             ] + self.process_body(old_body, class_id)
 
             result = ast_copy(class_def(
-                node.name, node.bases, body, decorators,
-                keywords=maybe(node, 'keywords')
+                node.name, bases, body, decorators, keywords=keywords,
+                type_params=maybe(node, 'type_params')
             ), node)
             return result
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 03adbfc..d7d299a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1360,8 +1360,12 @@ class Collector(object):
                         else:
                             future.bound_dependency = True
                     if function_def.__name__ in ("__new__", "__call__"):
-                        future.bound_dependency = Dependency(
-                            activation.func_evaluation, activation.func, "bound"
+                        future.bound_dependency = (
+                            activation.func_evaluation is None or
+                            Dependency(
+                                activation.func_evaluation,
+                                activation.func, "bound"
+                            )
                         )
                     if function_def.__name__ in {
                         '__getattr__', '__getattribute__', '__setattr__',
@@ -1466,26 +1470,12 @@ class Collector(object):
         ))
         return self._class_def
 
-    def _class_def(self, mode, bases=(object,), metaclass=type, **kwargs):
-        """Decorate class definition with then new activation.
-        Collect arguments and match to parameters.
-        """
-        def dec(cls):
-            """Decorate class definition. Based on six.add_metaclass"""
-            orig_vars = cls.__dict__.copy()
-            slots = orig_vars.get('__slots__')
-            if slots is not None:
-                if isinstance(slots, str):
-                    slots = [slots]
-                for slots_var in slots:
-                    orig_vars.pop(slots_var)
-            orig_vars.pop('__dict__', None)
-            orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
-
-            activation = orig_vars['__now_activation__']
+    def _class_def(self, closure_activation, mode):
+        """Decorate class definition. Close its activation"""
+        def dec(class_def):
+            """Decorate class definition"""
+            activation = self.last_activation
             evaluation = activation.evaluation
-            closure_activation = activation.closure
             block_id = activation.code_block_id
 
             trial_id = self.trial_id
@@ -1522,7 +1512,10 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[class_name] = dependency.evaluation
-                self.shared_types[class_def] = dependency.evaluation
+                try:
+                    self.shared_types[class_def] = dependency.evaluation
+                except TypeError:
+                    pass  # class is not hashable
             return class_def
         return dec
 
-- 
2.43.0


From aa3013ebfc57b44a87374eaf99747f671d61ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 31/81] fix: instrument class bodies with the names that their
 scope can access

---
 .../prov_definition/transformer_expr.py       | 18 ++++++++++---
 .../prov_definition/transformer_stmt.py       | 20 +++++++++++++--
 .../collection/prov_execution/collector.py    | 25 +++++++++++--------
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 56c1e4e..9b0f80c 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -12,7 +12,7 @@ from copy import copy
 
 import pyposast
 
-from .ast_helpers import ast_copy
+from .ast_helpers import ast_copy, temporary
 
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow, add_first_params
@@ -279,6 +279,8 @@ class RewriteDependencies(ast.NodeTransformer):
             ]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
+        with temporary(rewriter, 'class_scope', None):
+            body = rewriter.capture(node.body, mode=Dependency.USE)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
             activation(),
             ast.Name('__now_function_def__', L()),
@@ -295,7 +297,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     ast.Num(rewriter.current_exc_handler)
                 ], [
                     activation(),
-                    rewriter.capture(node.body, mode=Dependency.USE)
+                    body
                 ]
             )
         ]), new_node.body)
@@ -314,6 +316,9 @@ class RewriteDependencies(ast.NodeTransformer):
                     |a| if <now>.condition(<act>, <exc>)(<act>, |b|) else |c|
             )
         """
+        if self.rewriter.class_scope:
+            # new scopes do not have access to the names of the class
+            return self.generic_visit(node)
         with self.rewriter.exc_handler():
             new_node = copy(node)
             node.name = pyposast.extract_code(self.rewriter.lcode, node)
@@ -488,7 +493,9 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 2, |w|)
             ], <mode>)
         """
-
+        if self.rewriter.class_scope:
+            # the scope of the comprehension does not have access to <act>
+            return self.generic_visit(node)
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, comp + 'comp', 'r'
@@ -571,6 +578,9 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 1, |y|)
             }, <mode>)
         """
+        if self.rewriter.class_scope:
+            # the scope of the comprehension does not have access to <act>
+            return self.generic_visit(node)
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, Component.DICTCOMP, 'r'
@@ -1078,7 +1088,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     activation(),
                     ast.Num(attribute_component),
                     self.rewriter.capture(node.value, mode=Dependency.VALUE),
-                    ast.Str(node.attr),
+                    ast.Str(self.rewriter.mangle(node.attr)),
                     ast.Str('.'),
                     ast.Str(mode),
                 ], L()),
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 804b65f..809ffe0 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -54,6 +54,10 @@ class RewriteAST(ast.NodeTransformer):
         self.current_exc_handler = 0
         self.cell = cell
         self.composition_edge = None
+        # name of the class that directly contains the current node, if any
+        self.class_scope = None
+        # name of the class that mangles the current private names, if any
+        self.class_name = None
 
     # data
 
@@ -130,6 +134,13 @@ class RewriteAST(ast.NodeTransformer):
             (self.nested, node.name)
         )
 
+    def mangle(self, name):
+        """Mangle private name as the compiler does in class bodies"""
+        class_name = (self.class_name or '').lstrip('_')
+        if class_name and name.startswith('__') and not name.endswith('__'):
+            return '_' + class_name + name
+        return name
+
     def exc_handler(self):
         """Create container code_block and sets current"""
         return temporary(
@@ -482,7 +493,9 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Name('__now_default_dependencies__', L()),
                     parameters,
                 ])), new_node)
-            ] + self.process_body(new_node.body, func_id)
+            ]
+            with temporary(self, 'class_scope', None):
+                body += self.process_body(new_node.body, func_id)
 
             new_node.args = add_first_params(new_node.args, [
                 param('__now_activation__'),
@@ -591,7 +604,10 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_body(old_body, class_id)
+            ]
+            with temporary(self, 'class_scope', node.name), \
+                    temporary(self, 'class_name', node.name):
+                body += self.process_body(old_body, class_id)
 
             result = ast_copy(class_def(
                 node.name, bases, body, decorators, keywords=keywords,
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d7d299a..118924b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -249,7 +249,7 @@ class Collector(object):
             same = collection.same()
             cls_eval = (
                 same.members.get(".__class__")
-                or self.shared_types[cls_value]
+                or self.evaluate_type(cls_value, collection.checkpoint)
             )
             in_class = self.simple_member_lookup(
                 cls_eval, addr, value, depa, source=collection
@@ -872,7 +872,9 @@ class Collector(object):
                 activation.assignments[-1].combine(assign)
             if activation.parent.assignments:
                 activation.parent.assignments[-1].combine(assign)
-            gens = assign.generators.get(id(activation.generator.value), [])
+            gens = []
+            if activation.generator:
+                gens = assign.generators.get(id(activation.generator.value), [])
             for gen in gens:
                 dep = copy(gen[-1])
                 dep.mode = "use"
@@ -1071,6 +1073,8 @@ class Collector(object):
                 gens = assign.generators[id(value)]
                 def custom_dependency(index):
                     """Propagate dependencies"""
+                    if index >= len(gens):
+                        return clone_depa, None
                     _, _, _, idep = gens[index]
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
@@ -1512,10 +1516,9 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[class_name] = dependency.evaluation
-                try:
-                    self.shared_types[class_def] = dependency.evaluation
-                except TypeError:
-                    pass  # class is not hashable
+                self.shared_types[id(class_def)] = (
+                    class_def, dependency.evaluation
+                )
             return class_def
         return dec
 
@@ -1920,15 +1923,15 @@ class Collector(object):
     def evaluate_type(self, value, checkpoint):
         """Add type evaluation. Create type value recursively.
         Return evaluation"""
-        if value in self.shared_types:
-            return self.shared_types[value]
+        if id(value) in self.shared_types:
+            return self.shared_types[id(value)][1]
         trial_id = self.trial_id
         tevaluation = self.evaluations.add_object(
             trial_id, self.code_components.add(
                 trial_id, self.get_value(value), 'type', 'w', -1, -1, -1, -1, -1
             ), -1, self.time(), self.get_value(value)
         )
-        self.shared_types[value] = tevaluation
+        self.shared_types[id(value)] = (value, tevaluation)
         if value is type:
             cls_evaluation = tevaluation
         else:
@@ -1955,8 +1958,8 @@ class Collector(object):
     def add_type(self, evaluation, value):
         """Create type for evaluation"""
         if type(value) is type:
-            if value not in self.shared_types:
-                self.shared_types[value] = evaluation
+            if id(value) not in self.shared_types:
+                self.shared_types[id(value)] = (value, evaluation)
             else:
                 pass # ToDo: add reference to existing type evaluation
         same = evaluation.same()
-- 
2.43.0


From ec10efa6a186b3acba3b817c0f2f3543ff576ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 32/81] fix: call functions that depend on the frame of the
 script in its frame

---
 .../prov_definition/ast_elements.py           |   8 ++
 .../prov_definition/transformer_expr.py       | 103 +++++++++++++++++-
 .../prov_definition/transformer_stmt.py       |  25 ++++-
 .../collection/prov_execution/collector.py    |   2 +-
 4 files changed, 131 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index dcb0882..f5c23fd 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -163,6 +163,14 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
+def first_param(args):
+    """Return name of the first positional parameter of arguments"""
+    params = getattr(args, 'posonlyargs', []) + args.args
+    if params:
+        return getattr(params[0], 'arg', None)
+    return None
+
+
 def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef,      # pylint: disable=too-many-arguments
                  type_params=None):
     """Create function definition"""
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 9b0f80c..855800a 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -16,6 +16,7 @@ from .ast_helpers import ast_copy, temporary
 
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow, add_first_params
+from .ast_elements import first_param
 from .ast_elements import nlambda, activation, act_attribute
 
 from . import dependency_constants as Dependency
@@ -23,6 +24,34 @@ from . import component_constants as Component
 
 from ...utils.cross_version import PY3, PY35
 
+# builtins that depend on the frame of their caller when they have no arguments
+FRAME_FUNCTIONS = {'super', 'locals', 'vars', 'dir', 'globals'}
+# builtins that depend on the frame of their caller
+CODE_FUNCTIONS = {'eval', 'exec', 'execfile'}
+# expressions that do not have the same meaning inside a lambda
+FRAME_NODES = tuple(
+    getattr(ast, name) for name in ('Await', 'Yield', 'YieldFrom', 'NamedExpr')
+    if hasattr(ast, name)
+)
+
+
+def is_frame_call(node):
+    """Check if node calls a builtin that depends on the frame of its caller"""
+    if not isinstance(node, ast.Call) or not isinstance(node.func, ast.Name):
+        return False
+    return node.func.id in CODE_FUNCTIONS or (
+        node.func.id in FRAME_FUNCTIONS and not node.args and not node.keywords
+    )
+
+
+def depends_on_frame(node):
+    """Check if node cannot be moved into a lambda"""
+    return any(
+        isinstance(child, FRAME_NODES) or is_frame_call(child) or
+        getattr(child, 'is_async', False)
+        for child in ast.walk(node)
+    )
+
 
 class RewriteDependencies(ast.NodeTransformer):
     """Capture Dependencies"""
@@ -279,7 +308,8 @@ class RewriteDependencies(ast.NodeTransformer):
             ]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
-        with temporary(rewriter, 'class_scope', None):
+        with temporary(rewriter, 'class_scope', None), \
+                temporary(rewriter, 'first_param', first_param(node.args)):
             body = rewriter.capture(node.body, mode=Dependency.USE)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
             activation(),
@@ -316,7 +346,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     |a| if <now>.condition(<act>, <exc>)(<act>, |b|) else |c|
             )
         """
-        if self.rewriter.class_scope:
+        if self.rewriter.class_scope or depends_on_frame(node):
             # new scopes do not have access to the names of the class
             return self.generic_visit(node)
         with self.rewriter.exc_handler():
@@ -493,9 +523,14 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 2, |w|)
             ], <mode>)
         """
-        if self.rewriter.class_scope:
+        if (
+            self.rewriter.class_scope or
+            any(getattr(gen, 'is_async', False) for gen in node.generators) or
+            (comp == 'genexp' and depends_on_frame(node))
+        ):
             # the scope of the comprehension does not have access to <act>
             return self.generic_visit(node)
+
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, comp + 'comp', 'r'
@@ -578,9 +613,13 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 1, |y|)
             }, <mode>)
         """
-        if self.rewriter.class_scope:
+        if (
+            self.rewriter.class_scope or
+            any(getattr(gen, 'is_async', False) for gen in node.generators)
+        ):
             # the scope of the comprehension does not have access to <act>
             return self.generic_visit(node)
+
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, Component.DICTCOMP, 'r'
@@ -851,6 +890,9 @@ class RewriteDependencies(ast.NodeTransformer):
 
         """
 
+        if is_frame_call(node):
+            return self._frame_call(node)
+
         rewriter = self.rewriter
         node.name = pyposast.extract_code(rewriter.lcode, node)
         id_ = rewriter.create_code_component(node, Component.CALL, 'r')
@@ -912,6 +954,59 @@ class RewriteDependencies(ast.NodeTransformer):
 
         return ast_copy(call(func, args, keywords, star, kwarg), node)
 
+    def _frame_call(self, node):
+        """Transform a call to a function that depends on the frame of its caller
+        Transform:
+            eval(x)
+        Into:
+            <now>.operation(<act>, #, <exc>)(<act>, #, eval(|x|), <mode>)
+        Transform:
+            super()
+        Into:
+            <now>.operation(<act>, #, <exc>)(
+                <act>, #, super(__class__, self), <mode>
+            )
+        """
+        rewriter = self.rewriter
+        node.name = pyposast.extract_code(rewriter.lcode, node)
+        id_ = rewriter.create_code_component(node, Component.CALL, 'r')
+        self.create_composition(id_, *self.composition_edge)
+
+        def capture(value, edge):
+            """Capture argument"""
+            self.composition_edge = (id_,) + edge
+            if PY3 and isinstance(value, ast.Starred):
+                return ast_copy(ast.Starred(
+                    rewriter.capture(value.value, mode=Dependency.USE), value.ctx
+                ), value)
+            return rewriter.capture(value, mode=Dependency.USE)
+
+        new_node = copy(node)
+        new_node.args = [
+            capture(arg, (Component.M_ARGS, index))
+            for index, arg in enumerate(node.args)
+        ]
+        new_node.keywords = [
+            ast_copy(ast.keyword(
+                keyword.arg, capture(keyword.value, (Component.M_KEYWORDS, index))
+            ), keyword)
+            for index, keyword in enumerate(node.keywords)
+        ]
+        rewriter.fill_super(new_node)
+        return ast_copy(double_noworkflow(
+            'operation',
+            [
+                activation(),
+                ast.Num(id_),
+                ast.Num(rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(id_),
+                new_node,
+                ast.Str(self.mode)
+            ]
+        ), node)
+
     def visit_Repr(self, node):
         """
         Transform:
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 809ffe0..ef3c01e 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -17,7 +17,7 @@ from .ast_helpers import select_future_imports
 
 from .ast_elements import maybe, context, raise_, now_attribute
 from .ast_elements import L, S, none, call, param, true_false, true, false
-from .ast_elements import add_first_params
+from .ast_elements import add_first_params, first_param
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
 
@@ -56,6 +56,8 @@ class RewriteAST(ast.NodeTransformer):
         self.composition_edge = None
         # name of the class that directly contains the current node, if any
         self.class_scope = None
+        # name of the first parameter of the current function, if any
+        self.first_param = None
         # name of the class that mangles the current private names, if any
         self.class_name = None
 
@@ -298,6 +300,24 @@ class RewriteAST(ast.NodeTransformer):
             return []
         return [copy(node.body[0])]
 
+    def fill_super(self, node):
+        """Fill the arguments of super(), since the first parameter of the
+        instrumented function is <act>"""
+        if (
+            isinstance(node.func, ast.Name) and node.func.id == 'super' and
+            not node.args and not node.keywords and self.first_param
+        ):
+            node.args = [
+                ast.Name('__class__', L()), ast.Name(self.first_param, L())
+            ]
+
+    def visit_Call(self, node):
+        """Visit Call that is not instrumented"""
+        # pylint: disable=invalid-name
+        node = self.generic_visit(node)
+        self.fill_super(node)
+        return node
+
     def visit_Module(self, node, cls=ast.Module):
         """Visit Module. Create and close activation"""
         # pylint: disable=invalid-name
@@ -494,7 +514,8 @@ class RewriteAST(ast.NodeTransformer):
                     parameters,
                 ])), new_node)
             ]
-            with temporary(self, 'class_scope', None):
+            with temporary(self, 'class_scope', None), \
+                    temporary(self, 'first_param', first_param(node.args)):
                 body += self.process_body(new_node.body, func_id)
 
             new_node.args = add_first_params(new_node.args, [
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 118924b..e563ae0 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -844,7 +844,7 @@ class Collector(object):
                 )
                 dependency = Dependency(evaluation, value, "item")
             checkpoint = self.time()
-            if activation.assignments:
+            if generator and activation.assignments:
                 assign = activation.assignments[-1]
                 assign.generators[id(generator.value)].append(
                     (code_id, value, checkpoint, dependency)
-- 
2.43.0


From 9ace131aa37e42f9008423194d4e3497989b916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 33/81] fix: keep the bodies of conditional statements out of
 exception handlers

---
 .../prov_definition/transformer_stmt.py       | 101 +++++++-----------
 .../collection/prov_execution/collector.py    |  31 +++---
 .../collection/prov_execution/structures.py   |  15 ---
 3 files changed, 52 insertions(+), 95 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index ef3c01e..511c5da 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -15,7 +15,7 @@ import pyposast
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_future_imports
 
-from .ast_elements import maybe, context, raise_, now_attribute
+from .ast_elements import maybe, context
 from .ast_elements import L, S, none, call, param, true_false, true, false
 from .ast_elements import add_first_params, first_param
 from .ast_elements import noworkflow, double_noworkflow
@@ -952,8 +952,8 @@ class RewriteAST(ast.NodeTransformer):
                 ...
         Into:
             try:
-                <now>.prepare_while(<act>)
-                while <now>.remove_condition(
+                <now>.prepare_conditions(<act>, <exc>)
+                while <now>.reset_conditions(
                     <act>)(<now>.condition(<act>, <exc>)(<act>, |x|)):
                     ...
                 else:
@@ -972,7 +972,7 @@ class RewriteAST(ast.NodeTransformer):
             new_node = copy(node)
             self.composition_edge = (while_id, Component.S_TEST)
             new_node.test = ast_copy(double_noworkflow(
-                'remove_condition', [activation()], [double_noworkflow(
+                'reset_conditions', [activation()], [double_noworkflow(
                     'condition',
                     [
                         activation(),
@@ -990,7 +990,7 @@ class RewriteAST(ast.NodeTransformer):
 
             return ast_copy(try_def([
                 ast_copy(ast.Expr(noworkflow(
-                    'prepare_while',
+                    'prepare_conditions',
                     [activation(), ast.Num(self.current_exc_handler)]
                 )), new_node),
                 new_node
@@ -1017,80 +1017,53 @@ class RewriteAST(ast.NodeTransformer):
                 ...2
             else:
                 ...3
-        Into: # Replaces If to avoid creating unnecessary nested blocks
+        Into:
             try:
-                raise (
-                    <now>.condition_exceptions[0]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[1]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[2]()
-                )
-            except <now>.condition_exceptions[0]:
-                ...1
-            except <now>.condition_exceptions[1]:
-                ...2
-            except <now>.condition_exceptions[2]:
-                ...3
+                <now>.prepare_conditions(<act>, <exc>)
+                if <now>.condition(<act>, <exc>)(<act>, |x|):
+                    ...1
+                elif <now>.condition(<act>, <exc>)(<act>, |y|):
+                    ...2
+                else:
+                    ...3
             finally:
                 <now>.remove_condition(__now_activation__)
         """
         # pylint: disable=invalid-name
-        handlers = []
-        def access_if(ifnod, exc_id):
-            """Create ifexp considering elif"""
+        def process_if(ifnod):
+            """Create if considering elif"""
             if_id = self.create_ast_component(ifnod, Component.IF)
             self.create_composition(if_id, *self.composition_edge)
-            subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id)), L()
-            )
-            else_subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id + 1)), L()
-            )
-            handlers.append(ast_copy(ast.ExceptHandler(
-                subscript, None,
-                self.process_body(ifnod.body, if_id)
-            ), ifnod))
-            if_result = call(subscript, [])
-
-            else_block = None
-            if not ifnod.orelse:
-                else_block = [ast.Pass()]
-            elif len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
+            new_node = copy(ifnod)
+            new_node.body = self.process_body(ifnod.body, if_id)
+            if len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
                 self.composition_edge = (if_id, Component.M_ORELSE, 0)
-                else_result = access_if(ifnod.orelse[0], exc_id + 1)
+                new_node.orelse = [process_if(ifnod.orelse[0])]
             else:
-                else_block = self.process_body(
+                new_node.orelse = self.process_body(
                     ifnod.orelse, if_id, attr=Component.M_ORELSE
                 )
 
-            if else_block is not None:
-                handlers.append(ast_copy(ast.ExceptHandler(
-                    else_subscript, None, else_block
-                ), ifnod))
-                else_result = call(else_subscript, [])
-
             self.composition_edge = (if_id, Component.S_TEST)
-            return ast_copy(ast.IfExp(
-                double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(ifnod.test, mode=Dependency.CONDITION)
-                    ]
-                ),
-                if_result,
-                else_result
-            ), ifnod)
+            new_node.test = double_noworkflow(
+                'condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(ifnod.test, mode=Dependency.CONDITION)
+                ]
+            )
+            return ast_copy(new_node, ifnod)
 
         return ast_copy(try_def([
-            ast_copy(raise_(access_if(node, 0)), node)
-        ], handlers, [], [
+            ast_copy(ast.Expr(noworkflow(
+                'prepare_conditions',
+                [activation(), ast.Num(self.current_exc_handler)]
+            )), node),
+            process_if(node)
+        ], [], [], [
             ast_copy(ast.Expr(noworkflow(
                 'remove_condition', [activation()]
             )), node)
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e563ae0..d735be2 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -27,7 +27,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import ConditionExceptions, WithContext
+from .structures import WithContext
 
 NOW_UNSET = "<now_unset>"
 
@@ -109,7 +109,6 @@ class Collector(object):
         self.Ellipsis = Ellipsis  # pylint: disable=invalid-name
         self.old_next = next
 
-        self.condition_exceptions = ConditionExceptions()
 
         # attribute<->self dependency
         self.current_attr = None
@@ -1805,9 +1804,15 @@ class Collector(object):
         return value
 
     def remove_condition(self, activation):
-        """Just remove the condition dependencies"""
+        """Remove the condition dependencies of a statement"""
+        self.reset_conditions(activation)
         activation.conditions.pop()
-        return self._remove_condition
+
+    def reset_conditions(self, activation):
+        """Remove the condition dependencies after prepare_conditions"""
+        while activation.conditions[-1].level != "prepare":
+            activation.conditions.pop()
+        return self.as_is
 
     def remove_conditions(self, activation, count):
         """Just remove condition dependencies of count comprehension levels.
@@ -1815,19 +1820,13 @@ class Collector(object):
         for level in range(count, 0, -1):
             if activation.conditions and activation.conditions[-1].level == level:
                 activation.conditions.pop()
-        return self._remove_condition
 
-    def _remove_condition(self, value):
-        """Remove condition after"""
+    def prepare_conditions(self, activation, exc_handler):
+        """Prepare if and while, by adding empty condition"""
         # pylint: disable=no-self-use
-        return value
-
-    def prepare_while(self, activation, exc_handler):
-        """Prepare while, by adding empty condition"""
-        # pylint: disable=no-self-use
-        activation.conditions.append(DependencyAware(
-            exc_handler=exc_handler
-        ))
+        depa = DependencyAware(exc_handler=exc_handler)
+        depa.level = "prepare"
+        activation.conditions.append(depa)
 
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
@@ -1846,7 +1845,7 @@ class Collector(object):
         depa = activation.dependencies.pop()
         if activation.active:
             self.eval_dep(activation, code_id, value, mode, depa)
-        self.remove_condition(activation)
+        del activation.conditions[conditions:]
         return value
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 50251c7..9257a4e 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -59,21 +59,6 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.generators[obj_id] = generator
 
 
-class ConditionExceptions(object):
-    """Exception factory for handling ifs transformed into tries"""
-    # pylint: disable=too-few-public-methods
-    def __init__(self):
-        self.exceptions = {}
-
-    def __getitem__(self, item):
-        if item not in self.exceptions:
-            class ConditionException(Exception):
-                """If body Exception"""
-                pass
-            self.exceptions[item] = ConditionException
-        return self.exceptions[item]
-
-
 class DependencyAware(object):
     """Store dependencies of an element"""
 
-- 
2.43.0


From 10d5dab376a46cbe8ac3813bd4ab7114efbc93dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 34/81] fix: run scripts with the names of the main module

---
 capture/noworkflow/now/collection/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index c53e67c..2b6e279 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -149,6 +149,9 @@ class Metascript(object):
             "__name__": "__main__",
             "__file__": self.path,
             "__builtins__": __builtins__,
+            "__doc__": None,
+            "__package__": None,
+            "__spec__": None,
         })
 
     def get_time(self):
-- 
2.43.0


From 4ecf4742d45c48e133a9d85342ed0d01e60a437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 35/81] fix: keep the names of versions distinct from the names
 of other files

---
 .../noworkflow/now/persistence/content/gitbase.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..1c2701e 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -19,6 +19,7 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self._commit_ref = 'refs/heads/master'
         self._initial_message = "Initial Commit"
         self.name_counter = Counter()
+        self.used_names = set()
         self.base_path = None
         self.user_path = os.path.expanduser("~")
         self._max_filename_size = 4096
@@ -55,11 +56,12 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def _increment(self, filename):
         """Increment filename to avoid collisions"""
         filename = filename.strip()
-        self.name_counter[filename] += 1
-        count = self.name_counter[filename] 
-        if count == 1:
-            return filename
-        return "{} - v{}".format(filename, count)
+        result = filename
+        while result in self.used_names:
+            self.name_counter[filename] += 1
+            result = "{} - v{}".format(filename, self.name_counter[filename] + 1)
+        self.used_names.add(result)
+        return result
 
     def _inc_name(self, filename):
         """Define name for file in repository"""
-- 
2.43.0


From a5ecb7a274be7504016bb1647f56daf28311e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:57 +0000
Subject: [PATCH 36/81] fix: give members the same address where they are
 created, assigned, and accessed

---
 .../now/collection/prov_execution/collector.py      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d735be2..1e51b9b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -269,6 +269,11 @@ class Collector(object):
                 pass  # not a sequence
         return vindex
 
+    def member_address(self, key):
+        """Address of a member. It must be the same wherever it is created,
+        assigned, and accessed, and the representation of the key may fail"""
+        return "[{}]".format(self.get_value(key))
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -287,7 +292,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
                 nvindex = self.normalize_index(vcontainer, vindex)
-                addr = "[{}]".format(nvindex)
+                addr = self.member_address(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
                     return value
@@ -374,7 +379,7 @@ class Collector(object):
 
             if access == "[]":
                 nvindex = self.normalize_index(vcontainer, vindex)
-                addr = "[{}]".format(nvindex)
+                addr = self.member_address(nvindex)
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
@@ -643,7 +648,7 @@ class Collector(object):
             evaluation = self.eval_dep(activation, code_id, value, mode, depa)
             same = evaluation.same()
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = self.member_address(key)
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -743,7 +748,7 @@ class Collector(object):
             dependency.sub_dependencies.extend(depa.dependencies)
             activation.dependencies[-1].add(dependency)
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = self.member_address(key)
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
-- 
2.43.0


From ef40d85f295ad57233f729254a3d65d080c349c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:08 +0000
Subject: [PATCH 37/81] fix: run no code of the script to record calls and
 accesses

---
 .../collection/prov_execution/collector.py    | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 1e51b9b..4c4819e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -15,7 +15,7 @@ from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
-from types import GeneratorType
+from types import FunctionType, GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
 
@@ -68,6 +68,15 @@ OPEN_MODES = {
 }
 
 
+def custom_lookup(obj):
+    """Check if reading an attribute of the object may run code of the script"""
+    cls = type(obj)
+    return (
+        hasattr(cls, '__getattr__') or
+        isinstance(cls.__getattribute__, FunctionType)
+    )
+
+
 class Collector(object):
     """Collector called by the transformed AST. __noworkflow__ object"""
     # pylint: disable=too-many-instance-attributes
@@ -234,14 +243,18 @@ class Collector(object):
             # Default implementation
             if vindex in cls_value.__dict__:
                 accessor = cls_value.__dict__[vindex]
-                if hasattr(accessor, '__get__'):
+                if hasattr(type(accessor), '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in getattr(vcontainer, '__dict__', ()):
+            try:
+                attributes = object.__getattribute__(vcontainer, '__dict__')
+            except AttributeError:
+                attributes = ()
+            if vindex in attributes:
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
-                    if hasattr(accessor, '__get__'):
+                    if hasattr(type(accessor), '__get__'):
                         # ToDo: accessor provenance
                         return False
                 return self.simple_member_lookup(collection, addr, value, depa)
@@ -262,7 +275,10 @@ class Collector(object):
 
     def normalize_index(self, vcontainer, vindex):                               # pylint: disable=no-self-use
         """Convert negative index of sequence into a positive index"""
-        if isinstance(vindex, int) and vindex < 0:
+        own_len = isinstance(
+            getattr(type(vcontainer), '__len__', None), FunctionType
+        )  # function of the script
+        if isinstance(vindex, int) and vindex < 0 and not own_len:
             try:
                 return len(vcontainer) + vindex
             except Exception:  # pylint: disable=broad-except
@@ -314,7 +330,7 @@ class Collector(object):
             eva = self.evaluate_depa(activation, code_id, value, None, depa)
             is_whitebox_slice = (
                 isinstance(vindex, self.pyslice) and
-                isinstance(vcontainer, (list, tuple)) and
+                type(vcontainer) in (list, tuple) and
                 access == "[]" and
                 value_dep is not None
             )
@@ -1041,7 +1057,7 @@ class Collector(object):
         if not new_eva:
             return clone_depa, None
         if val is NOW_UNSET:
-            if not isinstance(value, (list, tuple)):
+            if type(value) not in (list, tuple):
                 return clone_depa, None
             val = value[index]
 
@@ -1186,7 +1202,7 @@ class Collector(object):
         if activation.active:
             future = self.future_activation[-1]
             future.dependencies[-1].add(dependency)
-            if hasattr(func, '__self__'):
+            if not custom_lookup(func) and hasattr(func, '__self__'):
                 future.bound_dependency = self.current_attr or True
             future.func_evaluation = dependency.evaluation
 
@@ -1195,10 +1211,10 @@ class Collector(object):
     def call(self, activation, code_id, exc_handler, func, mode="dependency"):
         """Capture call before"""
         # pylint: disable=too-many-arguments
-        future = FutureActivation(
-            getattr(func, '__name__', type(func).__name__),
-            code_id, activation, func, mode
-        )
+        name = type(func).__name__
+        if not custom_lookup(func):
+            name = getattr(func, '__name__', name)
+        future = FutureActivation(name, code_id, activation, func, mode)
         depa = DependencyAware(
             exc_handler=exc_handler,
             code_id=code_id,
@@ -1452,10 +1468,9 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            try:
+            if isinstance(function_def, FunctionType):
+                # other results of decorators may not accept attributes
                 function_def.original_def = original_def
-            except (AttributeError, TypeError):
-                pass  # result of decorator does not accept attributes
             return function_def
         return dec
 
-- 
2.43.0


From 06e96a25a396f92ee4c8ec6bc4a0e58ad2d2c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:01 +0000
Subject: [PATCH 38/81] fix: return to the caller when a call that is not
 captured ends

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4c4819e..7aa3b4d 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -435,6 +435,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
-- 
2.43.0


From 8c55c3c202e4f46c1d44a3f994a51b069a16f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 39/81] fix: close the accesses of activations that are not
 captured

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7aa3b4d..12e182b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -311,6 +311,7 @@ class Collector(object):
                 addr = self.member_address(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -320,6 +321,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
-- 
2.43.0


From 19dd2b1785409d4b18e117a7327a08c910371cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:08 +0000
Subject: [PATCH 40/81] fix: read the final content of files after the script
 is done with them

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 12e182b..fb29e0e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -465,7 +465,11 @@ class Collector(object):
         evaluation.repr = self.get_value(value)
         evaluation.set_reference(reference)
         self.add_type(evaluation, value)
-        self.last_activation = activation.last_activation
+        caller = self.last_activation = activation.last_activation
+        if activation.code_block_id == -1 and caller.parent:
+            # It has no definition (e.g., open). The caller still uses the files
+            caller.file_accesses.extend(activation.file_accesses)
+            return
         for file_access in activation.file_accesses:
             file_access.content_hash_after = self.put_file(file_access.name)
             file_access.done = True
-- 
2.43.0


From 2e29c0b9d192ec0cc200003c5c9e1c2cf2e7c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:40 +0000
Subject: [PATCH 41/81] fix: read the final content of files opened beyond the
 depth limit

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index fb29e0e..e135b9f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -205,7 +205,8 @@ class Collector(object):
                         mode += value
             if mode is not None:
                 file_access.mode = mode
-            activation.file_accesses.append(file_access)
+            # The activation that uses the file ends, even if it is not captured
+            self.last_activation.file_accesses.append(file_access)
             return old_open(*args, **kwargs)
 
         return open
-- 
2.43.0


From 73824725464dc6e47fcb1ca5986a0c0dcd1a2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:01 +0000
Subject: [PATCH 42/81] fix: find the files of the script after it changes its
 directory

---
 .../now/collection/prov_execution/collector.py      | 13 +++++++++----
 .../now/persistence/lightweight/file_access.py      |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e135b9f..28b91f0 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -151,13 +151,14 @@ class Collector(object):
         """Return value without any processing"""
         return value
 
-    def put_file(self, name):                                                    # pylint: disable=no-self-use
+    def put_file(self, name, path=None):                                         # pylint: disable=no-self-use
         """Store content of regular file. Return its hash
         Return None if it is not possible to read the file"""
+        path = path or name
         try:
-            if not os.path.isfile(name):
+            if not os.path.isfile(path):
                 return None
-            with content.std_open(name, "rb") as fil:
+            with content.std_open(path, "rb") as fil:
                 data = fil.read()
         except (OSError, ValueError):
             return None
@@ -187,6 +188,8 @@ class Collector(object):
             )
             # Read previous content if file exists
             file_access.content_hash_before = self.put_file(name)
+            # The script may change its working directory
+            file_access.path = os.path.abspath(file_access.name)
             file_access.activation_id = activation.id
             # Update with the informed arguments (mode / buffering)
             mode = (
@@ -472,7 +475,9 @@ class Collector(object):
             caller.file_accesses.extend(activation.file_accesses)
             return
         for file_access in activation.file_accesses:
-            file_access.content_hash_after = self.put_file(file_access.name)
+            file_access.content_hash_after = self.put_file(
+                file_access.name, file_access.path
+            )
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 3c33545..fcc1f48 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -23,7 +23,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["done"]
+        ["done", "path"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -34,7 +34,8 @@ class FileAccessLW(BaseLW):
     ):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
-        self.name = os.fsdecode(name) if isinstance(name, bytes) else str(name)
+        path_like = isinstance(name, (bytes, os.PathLike))
+        self.name = os.fsdecode(name) if path_like else str(name)
         self.mode = mode
         self.buffering = buffering
         self.content_hash_before = content_hash_before
@@ -42,6 +43,7 @@ class FileAccessLW(BaseLW):
         self.checkpoint = checkpoint
         self.activation_id = activation_id
         self.done = False
+        self.path = None  # where the file is, even if the directory changes
 
     def update(self, variables):
         """Update file access with dict"""
-- 
2.43.0


From f99b9378dadb1b09c95b92356b57b25331923ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:14 +0000
Subject: [PATCH 43/81] fix: keep the experiment of a trial record in the
 attribute that is stored

---
 capture/noworkflow/now/persistence/lightweight/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/trial.py b/capture/noworkflow/now/persistence/lightweight/trial.py
index 4291ae6..8fb770e 100644
--- a/capture/noworkflow/now/persistence/lightweight/trial.py
+++ b/capture/noworkflow/now/persistence/lightweight/trial.py
@@ -35,7 +35,7 @@ class TrialLW(BaseLW):
         self.modules_inherited_from_trial_id = modules_inherited_from_trial_id
         self.parent_id = parent_id
         self.main_id = main_id
-        self.experiment=experiment_id
+        self.experiment_id=experiment_id
         self.user_id=user_id
 
     def is_complete(self):
@@ -61,6 +61,6 @@ class TrialLW(BaseLW):
             'modules_inherited_from_trial_id': self.modules_inherited_from_trial_id,
             'parent_id': self.parent_id,
             'main_id': self.main_id,
-            'experiment_id': self.experiment,
+            'experiment_id': self.experiment_id,
             'user_id': self.user_id,
         }
-- 
2.43.0


From 1b8745af9075a8bf8834b68aae8d17ba43a802a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 44/81] fix: export the last column of code components

---
 .../noworkflow/now/persistence/lightweight/code_component.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/code_component.py b/capture/noworkflow/now/persistence/lightweight/code_component.py
index 006709a..bf68380 100644
--- a/capture/noworkflow/now/persistence/lightweight/code_component.py
+++ b/capture/noworkflow/now/persistence/lightweight/code_component.py
@@ -57,6 +57,6 @@ class CodeComponentLW(BaseLW):
             'first_char_line': self.first_char_line,
             'first_char_column': self.first_char_column,
             'last_char_line': self.last_char_line,
-            'last_char_column': self.last_char_line,
+            'last_char_column': self.last_char_column,
             'container_id': self.container_id
         }
-- 
2.43.0


From 916948e58298c4bff73e976685d83942ab6c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:50 +0000
Subject: [PATCH 45/81] fix: export and import the containers of evaluations

---
 .../now/persistence/lightweight/bundle.py        |  3 ++-
 .../now/persistence/lightweight/evaluation.py    | 16 ++++++++++++----
 capture/noworkflow/now/utils/collab.py           |  3 ++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/bundle.py b/capture/noworkflow/now/persistence/lightweight/bundle.py
index 52f7ac7..8779797 100644
--- a/capture/noworkflow/now/persistence/lightweight/bundle.py
+++ b/capture/noworkflow/now/persistence/lightweight/bundle.py
@@ -68,7 +68,8 @@ class BundleLW(BaseLW):
         self.dependencies=[DependencyLW(x["id"],x["trial_id"],x["dependent_activation_id"],x["dependent_id"],x["dependency_activation_id"],\
             x["dependency_id"],x["type"],x["reference"],x["collection_activation_id"],x["collection_id"],x["key"]) for x in data["dependencies"]]
         self.environmentAttrs=[EnvironmentAttrLW(x["id"],x["trial_id"],x["name"],x["value"]) for x in data["environmentAttrs"]]
-        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"]) for x in data["evaluations"]]
+        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"],\
+            x.get("member_container_activation_id"),x.get("member_container_id")) for x in data["evaluations"]]
         self.fileAccesses=[FileAccessLW(x["id"],x["trial_id"],x["name"],x["checkpoint"],x["mode"],x["buffering"],\
             x["content_hash_before"],x["content_hash_after"],x["activation_id"]) for x in data["fileAccesses"]]
         self.members=[MemberLW(x["id"],x["trial_id"],x["collection_activation_id"],x["collection_id"],x["member_activation_id"],\
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index cc9dada..7c9c23d 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -20,7 +20,8 @@ class EvaluationLW(BaseLW):
     nullable = {"checkpoint"}
     model = Evaluation
 
-    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_):
+    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_,
+                 member_container_activation_id=None, member_container_id=None):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.code_component_id = code_id
@@ -28,8 +29,13 @@ class EvaluationLW(BaseLW):
         self.checkpoint = -1 if not checkpoint else checkpoint
         self.repr = repr_
         self._same = None
-        self.member_container_activation_id = self.activation_id
-        self.member_container_id = id_
+        self.member_container_activation_id = (
+            self.activation_id if member_container_activation_id is None
+            else member_container_activation_id
+        )
+        self.member_container_id = (
+            id_ if member_container_id is None else member_container_id
+        )
         self.members = {}
 
     def same(self):
@@ -69,5 +75,7 @@ class EvaluationLW(BaseLW):
             'code_component_id': self.code_component_id,
             'activation_id': self.activation_id,
             'checkpoint': self.checkpoint,
-            'repr': self.repr
+            'repr': self.repr,
+            'member_container_activation_id': self.member_container_activation_id,
+            'member_container_id': self.member_container_id
         }
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 3d41167..d85b48a 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -110,7 +110,8 @@ def export_bundle(trialIds,usersIds=[]):
         [EnvironmentAttrLW(x.id,x.trial_id,x.name,x.value) for x in envToImport]
     )
     bundle.evaluations.extend(
-        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr) for x in evaluationToImport]
+        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr,\
+            x.member_container_activation_id,x.member_container_id) for x in evaluationToImport]
     )
     bundle.fileAccesses.extend(
         [FileAccessLW(x.id,x.trial_id,x.name,x.checkpoint,x.mode,x.buffering,\
-- 
2.43.0


From 10b8e1c82cc0b82088e3d7daad04c434d9dcf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:04 +0000
Subject: [PATCH 46/81] fix: keep activations in memory until they are closed

---
 .../noworkflow/now/persistence/lightweight/activation.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..b8f4013 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -106,9 +106,10 @@ class ActivationLW(BaseLW):
 
 
     def is_complete(self):
-        """Activation can always be removed from object store"""
-        # pylint: disable=no-self-use
-        return True
+        """Activation can only be removed from object store once it is closed
+        Its code block is known only when its definition is executed
+        """
+        return self.evaluation.is_complete()
 
     def __repr__(self):
         return (
-- 
2.43.0


From 0037fab0446a7184d3c521cfa7836529ff0f673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 47/81] fix: save partial provenance with the requested
 frequency

---
 .../now/collection/prov_execution/collector.py       | 12 +++++++++---
 .../now/collection/prov_execution/execution.py       |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 28b91f0..9c58af6 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -98,9 +98,8 @@ class Collector(object):
         self.exceptions = self.metascript.exceptions_store
         # Partial save
         self.partial_save_frequency = None
-        if metascript.save_frequency:  # milliseconds
-            self.partial_save_frequency = metascript.save_frequency / 1000.0
-        self.last_partial_save = self.get_time()
+        self.last_partial_save = None
+        self.set_save_frequency(metascript.save_frequency)
 
         self.first_activation = self.activations.dry_add(
             self.evaluations.dry_add(self.trial_id, -1, -1, None, None),
@@ -415,6 +414,13 @@ class Collector(object):
                 )
                 activation.assignments[-1].accesses[code_id] = aaccess
 
+    def set_save_frequency(self, save_frequency):
+        """Set frequency of partial saves in milliseconds. 0 disables them"""
+        self.partial_save_frequency = None
+        if save_frequency:
+            self.partial_save_frequency = save_frequency / 1000.0
+        self.last_partial_save = self.get_time()
+
     def time(self):
         """Return time at this moment
         Also check whether or not it should invoke time related methods
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index 673682d..4a15e85 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -34,6 +34,8 @@ class Execution(object):
     def configure(self):
         """Configure execution provenance collection"""
         self.collector.trial_id = self.metascript.trial_id
+        # The arguments of the command are read after the collector is created
+        self.collector.set_save_frequency(self.metascript.save_frequency)
         builtin = self.metascript.namespace["__builtins__"]
         try:
             builtin["__noworkflow__"] = self.collector
-- 
2.43.0


From c5b89cc01ea04529dbaecf77f1236c46ac44ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 48/81] fix: get the bytes of contents in the dulwich engine

---
 .../now/persistence/content/dulwich_engine.py         | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..8fda336 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -60,9 +60,18 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).as_raw_string()
             return return_data
 
+    def list_all(self):
+        """List hashes of all contents in database"""
+        with self.use_safe_open():
+            store = self.repo.object_store
+            return [
+                sha.decode("ascii") for sha in store
+                if isinstance(store[sha], Blob)
+            ]
+
     def find_subhash(self, content_hash):
         """Find hash in git"""
         try:
-- 
2.43.0


From 4d471fc2791525ec5f3c717d8d5281f2fe8b3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 49/81] fix: commit the content that the server receives

---
 capture/noworkflow/now/vis/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 95cecdf..0c80b09 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -246,6 +246,7 @@ def receiveFiles(expCode):
 
         zipObj.close()
         zF.close()
+        content.commit_content("Files of experiment {}".format(expCode))
         return "",201
     
     return return_json_error_invalid_experiment_id()
-- 
2.43.0


From 64ccdd626b63575ca347b69a61de18044e4c78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 50/81] fix: print the errors of push

---
 capture/noworkflow/now/cmd/cmd_push.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_push.py b/capture/noworkflow/now/cmd/cmd_push.py
index 2015478..32338dd 100644
--- a/capture/noworkflow/now/cmd/cmd_push.py
+++ b/capture/noworkflow/now/cmd/cmd_push.py
@@ -59,7 +59,7 @@ class Push(Command):
         url=self.url+"/collab/usersids"
         usersIds=self.get(url)
         if usersIds == self.text_invalid_experiment_id:
-            print(self.exportTrials + " " + usersIds)
+            print(self.text_exporting_trials_failed + " " + usersIds)
             return False
             
         localUsers=[u for u in User.all()]
@@ -106,7 +106,7 @@ class Push(Command):
             
             response = requests.post(filesUrl, files=multipart_form_data)
             if response.status_code == 400:
-                print(self.text_exporting_files_failed + " " + sourceFiles)
+                print(self.text_exporting_files_failed + " " + response.text)
                 return False
         
             zipF.close()
-- 
2.43.0


From 07fa2c9f3ddc631134ffa5e8c5ec3719297dc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:21 +0000
Subject: [PATCH 51/81] fix: list the contents of every content engine

---
 capture/noworkflow/now/persistence/content/base.py        | 4 ++++
 capture/noworkflow/now/persistence/content/git_system.py  | 6 ++++++
 .../noworkflow/now/persistence/content/plain_engine.py    | 8 ++++++++
 .../noworkflow/now/persistence/content/puregit_engine.py  | 4 ++++
 .../noworkflow/now/persistence/content/pygit_engine.py    | 8 +++++++-
 capture/noworkflow/now/persistence/content_database.py    | 8 +-------
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index 5a2d1c8..0300d09 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -52,6 +52,10 @@ class ContentDatabaseEngine(object):
         """Get file from database"""
         raise NotImplementedError("Implement in subclass")
 
+    def list_all(self):
+        """List hashes of all contents in database"""
+        raise NotImplementedError("Implement in subclass")
+
     def find_subhash(self, content_hash):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index b830d22..8261f24 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -104,6 +104,12 @@ def all_objects(git_path):
     return []
 
 
+def all_blobs(git_path):
+    cmd = ["git", "cat-file", "--batch-all-objects", "--batch-check"]
+    lines = execute(cmd, cwd=git_path).decode().splitlines()
+    return [line.split()[0] for line in lines if line.split()[1] == "blob"]
+
+
 def show_ref(ref, git_path):
     cmd = ["git", "show-ref", ref]
     result = execute(cmd, cwd=git_path, default=b"").decode().strip()
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 7100026..481fc05 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -57,6 +57,14 @@ class PlainEngine(ContentDatabaseEngine):
         with self.std_open(content_filename, "rb") as content_file:
             return content_file.read()
 
+    def list_all(self):
+        """List hashes of all contents in database"""
+        files = []
+        for dirname, _, filenames in os.walk(self.content_path):
+            for filename in filenames:
+                files.append(os.path.basename(dirname) + filename)
+        return files
+
     def find_subhash(self, content_hash):
         """Get hash that starts by content_hash"""
         content_dirname = content_hash[:2]
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 18a116f..bd84b9a 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -41,6 +41,10 @@ class PureGitEngine(GitContentDatabaseEngine):
         """Get content from the content database"""
         return git_system.get(content_hash, self.content_path)
  
+    def list_all(self):
+        """List hashes of all contents in database"""
+        return git_system.all_blobs(self.content_path)
+
     def find_subhash(self, content_hash):
         """Find hash in database"""
         for obj in git_system.all_objects(self.content_path):
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index e2a0671..0b247e0 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -10,7 +10,7 @@ from os.path import isdir
 from collections import defaultdict
 
 from pygit2 import init_repository
-from pygit2 import Repository
+from pygit2 import Blob, Repository
 from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE
 from pygit2 import Signature
 
@@ -55,6 +55,12 @@ class PyGitEngine(GitContentDatabaseEngine):
         return_data = self.repo[content_hash].data
         return return_data
     
+    def list_all(self):
+        """List hashes of all contents in database"""
+        return [
+            str(oid) for oid in self.repo if isinstance(self.repo[oid], Blob)
+        ]
+
     def find_subhash(self, content_hash):
         """Find hash in git"""
         try:
diff --git a/capture/noworkflow/now/persistence/content_database.py b/capture/noworkflow/now/persistence/content_database.py
index 4a61b37..d5d206e 100644
--- a/capture/noworkflow/now/persistence/content_database.py
+++ b/capture/noworkflow/now/persistence/content_database.py
@@ -84,10 +84,4 @@ class ContentDatabase(object):
         self.content_database_engine.connect(config)
     
     def listAll(self):
-        files = []
-        for r,d, f in os.walk(self.__getattr__("content_path")):
-            for file in f:
-                fileName=os.path.basename(r)
-                fileName+=file
-                files.append(fileName)
-        return files
+        return self.content_database_engine.list_all()
-- 
2.43.0


From 6e63eea811ea3043ee420f65649fbbc1ed2e75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:25 +0000
Subject: [PATCH 52/81] fix: capture only modules inside the directory of the
 script

---
 .../noworkflow/now/collection/prov_deployment/py3module.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 7929365..39dd60f 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -9,6 +9,7 @@ from functools import wraps
 from importlib.machinery import PathFinder, SourceFileLoader
 from importlib.abc import Loader
 from ...persistence import content
+from os.path import join
 from pathlib import Path
 
 
@@ -145,7 +146,8 @@ def create_source_loader(metascript, loader):
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
-                required -= int(source_path.startswith(metascript.dir))
+                required -= int(source_path.startswith(
+                    join(metascript.dir, "")))
                 create_module = not metascript.bypass_modules
 
                 if metascript.context >= required:
-- 
2.43.0


From 8f3690f8785783e32d8989192fef33e2b2515780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:30 +0000
Subject: [PATCH 53/81] fix: restore only files inside the path of the trial

---
 capture/noworkflow/now/persistence/models/trial.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..7cbb6ab 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -386,7 +386,7 @@ class Trial(AlchemyProxy):
                 continue
             elif not os.path.isabs(path):
                 yield module
-            elif path.startswith(self.path):
+            elif path.startswith(os.path.join(self.path, "")):
                 yield module
 
     @property
@@ -631,11 +631,11 @@ class Trial(AlchemyProxy):
         files = {}
         def add(path, info):
             """Add file to dict"""
-            if os.path.isabs(path):
-                if not path.startswith(self.path):
-                    return
-                path = os.path.relpath(path, self.path)
-            files[path] = info
+            base = self.path or ""
+            full = os.path.normpath(os.path.join(base, path))
+            if not full.startswith(os.path.join(base, "")):
+                return
+            files[os.path.relpath(full, base)] = info
 
         if script:
             add(self.script, {"code_hash": self.code_hash, "type": "script"})
-- 
2.43.0


From 80b59d916481ba934c0ce20bb610af2d33647984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:46 +0000
Subject: [PATCH 54/81] fix: compare, back up, and restore the same files

---
 capture/noworkflow/now/cmd/cmd_restore.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..92643ef 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -71,14 +71,14 @@ class Restore(Command):
         metascript.arguments_store.add(tid, "restore", repr(old_id))
 
 
-        for path, info in viewitems(files):
+        for name, info in viewitems(files):
+            path = project_path(name)
             if info["type"] == "script":
                 metascript.path = path
                 metascript.definition.create_code_block(
                     None, path, "script", False, True
                 )
             elif info["type"] == "module":
-                path = os.path.abspath(path)
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
@@ -106,7 +106,7 @@ class Restore(Command):
                     info["name"], version, path, cid, False, None
                 )
             elif info["type"] == "access":
-                aid = accesses.add(tid, path, info["checkpoint"])
+                aid = accesses.add(tid, name, info["checkpoint"])
                 access = accesses[aid]
                 access.content_hash_before = info["code_hash"]
                 access.content_hash_after = info["code_hash"]
@@ -133,6 +133,7 @@ class Restore(Command):
         new_code_hash = file_hash(path)
         if code_hash == new_code_hash:
             return False
+        path = project_path(path)
         if code_hash is None and mode != "script":
             os.remove(path)
             print_msg("File {} removed".format(path), self.print_msg)
@@ -189,7 +190,8 @@ class Restore(Command):
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
         metascript.name = trial.script
-        metascript.path = trial.path
+        metascript.dir = os.path.abspath(persistence_config.base_path)
+        metascript.path = project_path(trial.script)
 
         restore_files = trial.versioned_files(**skip_dict(args))
         if not args.file:
@@ -229,7 +231,9 @@ class Restore(Command):
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
-                path = parsed.target or parsed.path
+                path = parsed.path
+                if parsed.target:
+                    path = os.path.abspath(parsed.target)
                 if not self.restore(path, restore[1], None):
                     print_msg("File has not changed!", self.print_msg)
             content.close()
@@ -286,9 +290,14 @@ def time_str(arg):
     return None
 
 
+def project_path(path):
+    """Return the absolute path of a file of the project"""
+    return os.path.join(os.path.abspath(persistence_config.base_path), path)
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
-    abs_path = os.path.join(persistence_config.base_path, path)
+    abs_path = project_path(path)
     if not os.path.isfile(abs_path):
         return None
     else:
-- 
2.43.0


From f6f2b32b41471c6cb49dbe5654f0f54846656910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:01 +0000
Subject: [PATCH 55/81] fix: back up files that restore changes and the head
 does not have

---
 capture/noworkflow/now/cmd/cmd_restore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 92643ef..1c26fa7 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -198,6 +198,11 @@ class Restore(Command):
             head = Trial.load_parent(trial.script, remove=False)
 
             last_files = head.versioned_files(**skip_dict(args))
+            # Files that the restore changes and that the head does not have
+            for path, info in viewitems(restore_files):
+                if path not in last_files and \
+                        os.path.lexists(project_path(path)):
+                    last_files[path] = dict(info)
             match, new_files = self.find_differences(last_files)
             if not match:
                 self.create_backup(metascript, new_files, args)
-- 
2.43.0


From 29ff2c1e20fc523cb538ae229eb9c4781a23cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 56/81] fix: count accesses of the last trial when no trial is
 given

---
 capture/noworkflow/now/cmd/cmd_restore.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 1c26fa7..4ded18a 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -270,11 +270,10 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
-            trial = Trial(tid)
-            for i, result in enumerate(trial.iterate_accesses(path)):
+            for i, result in enumerate(self.trial.iterate_accesses(path)):
                 if fid == i + 1:
                     return path, result[1]["code_hash"]
 
-- 
2.43.0


From 6a081972fea6b8da982a300ba5054848de569e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:27 +0000
Subject: [PATCH 57/81] fix: accept the experiment in the routes of trials

---
 capture/noworkflow/now/vis/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 0c80b09..dccd50d 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -305,7 +305,7 @@ def trials(expId=None):
 #generate dafalowdataflow
 @app.route("/experiments/<expCode>/trials/<tid>/flow.pdf")
 @app.route("/trials/<tid>/flow.pdf")
-def dataflow(tid):
+def dataflow(tid, expCode=None):
     """Generates the dafalow of a trial """ 
     trial = Trial(tid)
     display = DotDisplay(trial.dot.export_text(), format="pdf")
@@ -317,7 +317,7 @@ def dataflow(tid):
 
 @app.route("/experiments/<expCode>/trials/<tid>/<script_hash>/<name>") 
 @app.route("/trials/<tid>/<script_hash>/<name>")    
-def get_script(tid, script_hash, name):
+def get_script(tid, script_hash, name, expCode=None):
     """Returns the executed script"""
     return send_file(
         io.BytesIO(content.get(script_hash)),
@@ -326,7 +326,7 @@ def get_script(tid, script_hash, name):
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
 @app.route("/trials/files/<file_hash>/<file_ext>")
-def get_file(file_hash, file_ext):
+def get_file(file_hash, file_ext, expCode=None):
     """Returns a file used in the trial"""
     name = file_hash + file_ext
     return send_file(
@@ -381,7 +381,7 @@ def file_accesses(tid,expCode=None):
 @app.route("/experiments/<expCode>/trials/<tid>/activations/<aid>")
 @app.route("/trials/<tid>/activations/<aid>.json")
 @app.route("/trials/<tid>/activations/<aid>")
-def activations(tid, aid):
+def activations(tid, aid, expCode=None):
     """Respond trial activation as text"""
     activation = Activation((tid, aid))
     global_evaluations = activation.filter_evaluations_by_type("global")
-- 
2.43.0


From b94e230fa6e4bf13632d3711093237ebbf001e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:46 +0000
Subject: [PATCH 58/81] fix: name downloads with the argument that flask
 accepts

---
 capture/noworkflow/now/vis/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index dccd50d..7932bf4 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -169,7 +169,7 @@ def getExtendedAnnotationContent(id):
     extention=annt.annotationFormat
     if(extention=="plainText"):
         extention="txt"
-    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,attachment_filename=id+"."+extention)
+    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,download_name=id+"."+extention)
 
 
 @app.route("/experiments/<expCode>/extendedAnnotation", methods=['Post'])
@@ -311,7 +311,7 @@ def dataflow(tid, expCode=None):
     display = DotDisplay(trial.dot.export_text(), format="pdf")
     return send_file(
         io.BytesIO(display.display_result()["application/pdf"]),
-        attachment_filename='flow.pdf',
+        download_name='flow.pdf',
         mimetype="application/pdf"
     )
 
@@ -321,7 +321,7 @@ def get_script(tid, script_hash, name, expCode=None):
     """Returns the executed script"""
     return send_file(
         io.BytesIO(content.get(script_hash)),
-        attachment_filename=name + '.py'
+        download_name=name + '.py'
     )
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
@@ -331,7 +331,7 @@ def get_file(file_hash, file_ext, expCode=None):
     name = file_hash + file_ext
     return send_file(
         io.BytesIO(content.get(file_hash)),
-        attachment_filename=name
+        download_name=name
     )
 
 @app.route("/experiments/<expCode>/trials/<tid>/<graph_mode>/<cache>.json")
-- 
2.43.0


From 6169d991a9138f92b2a32a46afe843a5900e3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:02 +0000
Subject: [PATCH 59/81] fix: answer when a remote does not exist

---
 capture/noworkflow/now/vis/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 7932bf4..609c847 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -576,7 +576,7 @@ def add_remote(remote_name, remote_url):
 @app.route("/collab/remotes/edit/<remote_new_name>/<path:remote_url>")
 def edit_remote(remote_new_name, remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     remote.name = remote_new_name
     relational.session.commit()
@@ -585,7 +585,7 @@ def edit_remote(remote_new_name, remote_url):
 @app.route("/collab/remotes/delete/<path:remote_url>")
 def delete_remote(remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     if remote.used: remote.hide = True
     else: relational.session.delete(remote)
-- 
2.43.0


From 4862149cbac054a05354a4e69e06964202ac8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:18 +0000
Subject: [PATCH 60/81] fix: pass each part of a request as a single argument

---
 capture/noworkflow/now/vis/views.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 609c847..723ba01 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -475,7 +475,7 @@ def definition_ast(trial_id):
 @app.route("/commands/restore/trial/<trial_id>/<skip_script>/<skip_modules>/<skip_files_access>")
 def execute_command_restore_trial(trial_id, skip_script, skip_modules, skip_files_access):
     """Execute the command 'now restore' for a trial"""
-    restore_command = ("now restore " + trial_id).split()
+    restore_command = ["now", "restore", trial_id]
     if skip_script == "true": restore_command.append("-s")
     if skip_modules == "true": restore_command.append("-l")
     if skip_files_access == "true": restore_command.append("-a")
@@ -487,7 +487,7 @@ def execute_command_restore_trial(trial_id, skip_script, skip_modules, skip_file
 @app.route("/commands/restore/file/<trial_id>/<file_to_restore>/<file_id>/<path:output_path>")
 def execute_command_restore_file(trial_id, file_to_restore, file_id, output_path):
     """Execute the command 'now restore' for a file"""
-    restore_command = ("now restore " + trial_id + " -f").split()
+    restore_command = ["now", "restore", trial_id, "-f"]
     restore_command.append(file_to_restore)
     if file_id != "false": 
         restore_command.append("-i")
@@ -508,7 +508,7 @@ def execute_command_restore_file(trial_id, file_to_restore, file_id, output_path
 @app.route("/commands/prov/<trial_id>")
 def execute_command_prov(trial_id):
     """Execute the command 'now prov'"""
-    prov_command = ("now prov " + trial_id).split()
+    prov_command = ["now", "prov", trial_id]
     sub_process_print = subprocess.run(prov_command, capture_output=True).stdout.decode("utf-8")
     if "(" in sub_process_print: return jsonify(prov=sub_process_print), 200
     return jsonify(prov="No prov to export"), 400
@@ -516,7 +516,7 @@ def execute_command_prov(trial_id):
 @app.route("/commands/export/<trial_id>/<rules>/<hide_timestamps>")
 def execute_command_export(trial_id, rules, hide_timestamps):
     """Execute the command 'now export'"""
-    export_command = ("now export " + trial_id).split()
+    export_command = ["now", "export", trial_id]
     
     if rules == "true": export_command.append("-r")
     if hide_timestamps == "true": export_command.append("-t")
@@ -527,7 +527,7 @@ def execute_command_export(trial_id, rules, hide_timestamps):
 @app.route("/commands/dataflow/<trial_id>/<argument_T>/<argument_t>/<argument_H>/<file_accesses>/<evaluation>/<group>/<depth>/<value_length>/<name>/<mode>/<wdf>/<eid>")
 def execute_dataflow_export(trial_id, argument_T, argument_t, argument_H, file_accesses, evaluation, group, depth, value_length, name, mode, wdf, eid):
     """Execute the command 'now export'"""
-    dataflow_command = ("now dataflow " + trial_id).split()
+    dataflow_command = ["now", "dataflow", trial_id]
     
     if argument_T == "true": dataflow_command.append("-T")
     if argument_t == "true": dataflow_command.append("-t")
@@ -595,7 +595,9 @@ def delete_remote(remote_url):
 @app.route("/commands/<collab_command>/<path:serverUrl>")
 def execute_command_push_experiment(collab_command, serverUrl):
     """Execute the command 'now push'"""
-    push_command = ("now " + collab_command + " --url " + serverUrl).split()
+    if collab_command not in ("push", "pull"):
+        return jsonify(terminal_text="Invalid command"), 400
+    push_command = ["now", collab_command, "--url", serverUrl]
     
     sub_process = subprocess.run(push_command, capture_output=True)
     if(len(sub_process.stderr)): return jsonify(terminal_text="Invalid server address"), 400
-- 
2.43.0


From 70113442e433153880c4b0d698ba152abe27b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 61/81] fix: answer trials without the summarize parameter

---
 capture/noworkflow/now/vis/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 723ba01..1dc8990 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -298,7 +298,7 @@ def trials(expId=None):
     """Respond history graph as JSON"""
     history = History(script=request.args.get("script"),
                       status=request.args.get("execution"),
-                      summarize=bool(int(request.args.get("summarize"))),
+                      summarize=bool(int(request.args.get("summarize", 0))),
                       expId=expId)
     return jsonify(**history.graph.graph())
 
-- 
2.43.0


From d28c03c2b3b4dcb20d92f86ccbf2806f76fefc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:05 +0000
Subject: [PATCH 62/81] fix: export notebooks of trials with their content
 engine

---
 capture/noworkflow/now/cmd/cmd_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_export.py b/capture/noworkflow/now/cmd/cmd_export.py
index f0bfb65..4290177 100644
--- a/capture/noworkflow/now/cmd/cmd_export.py
+++ b/capture/noworkflow/now/cmd/cmd_export.py
@@ -51,7 +51,8 @@ class Export(NotebookCommand):
             print("\n".join(trial.prolog.rules()))
 
     def execute_export(self, args):
-        namespace = Namespace(ipynb=True, dir=args.dir)
+        namespace = Namespace(ipynb=True, dir=args.dir,
+                              content_engine=args.content_engine)
         if not args.trial or args.trial == "current":
             namespace.trial = None
             return Show().execute_export(namespace)
@@ -63,3 +64,6 @@ class Export(NotebookCommand):
             namespace.trial1 = splitted.get(1)
             namespace.trial2 = splitted.get(2)
             return Diff().execute_export(namespace)
+
+        namespace.trial = args.trial
+        return Show().execute_export(namespace)
-- 
2.43.0


From 1a8efaaee03bc63aa0fc9439d87a81fab7c562ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:20 +0000
Subject: [PATCH 63/81] fix: no evaluation has an index out of the results

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index 3b1a471..e7dc933 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -93,7 +93,7 @@ def query_evaluations(args, prefix=""):
     argindex = getattr(args, prefix + 'index', None)
     if argindex is not None:
         index = argindex- 1 # 1-based index
-        if index > len(result):
+        if not 0 <= index < len(result):
             result = []
         else:
             result = [result[index]]
-- 
2.43.0


From 654eb901e6826b36a9b94b5b0c003d99fdc020f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:21 +0000
Subject: [PATCH 64/81] fix: clean the trial of the option -t

---
 capture/noworkflow/now/cmd/cmd_clean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_clean.py b/capture/noworkflow/now/cmd/cmd_clean.py
index 59004a5..ef62a5b 100644
--- a/capture/noworkflow/now/cmd/cmd_clean.py
+++ b/capture/noworkflow/now/cmd/cmd_clean.py
@@ -6,6 +6,7 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+import argparse
 import os
 from bisect import bisect_left
 
@@ -23,7 +24,8 @@ class Clean(Command):
 
     def add_arguments(self):
         add_arg = self.add_argument
-        add_arg("trial", type=str, nargs="?",
+        # The default comes from the option -t, which has the same destination
+        add_arg("trial", type=str, nargs="?", default=argparse.SUPPRESS,
                 help="trial id or none for last trial")
         add_arg("-o", "--output", type=str,
                 help="Notebook output name. By default it is clean-notebook-[Trial].ipynb")
-- 
2.43.0


From 5ab565a91d2729b02fa9ec1e66287125a10fd44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:45 +0000
Subject: [PATCH 65/81] fix: evaluations of cell N included those of the cells
 whose number starts with N

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index e7dc933..2473409 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -69,7 +69,7 @@ def query_evaluations(args, prefix=""):
             (Activation.m.trial_id == EvaluationM.m.trial_id)
             & (Activation.m.id == EvaluationM.m.activation_id)
         ))
-        filters.append(Activation.m.name.like('<ipython-input-{}%'.format(cell)))
+        filters.append(Activation.m.name.like('<ipython-input-{}-%'.format(cell)))
     code = getattr(args, prefix + 'code', None)
     if code is not None:
         filters.append(CodeComponent.m.name == code)
-- 
2.43.0


From c15ca19f514aef11e2ca77f04a855e0cfd44d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 66/81] fix: %now_run of a new process did not return its
 trial, whose id is not a number

---
 capture/noworkflow/now/ipython/magics/now_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/ipython/magics/now_run.py b/capture/noworkflow/now/ipython/magics/now_run.py
index 5c2a304..9ba60a6 100644
--- a/capture/noworkflow/now/ipython/magics/now_run.py
+++ b/capture/noworkflow/now/ipython/magics/now_run.py
@@ -164,7 +164,7 @@ class NowRun(IpythonCommandMagic, Run):
                 try:
                     last_trial_dir = os.path.join(directory, LAST_TRIAL)
                     with content.std_open(last_trial_dir, "r") as last:
-                        return Trial(int(last.read()))
+                        return Trial(last.read())
                 except Exception as exc:  # pylint: disable=broad-except
                     print("Failed", exc)
         finally:
-- 
2.43.0


From 974e766816b8ee6762811baac9aff6991cbdd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 67/81] fix: the AST of a trial used the ids of classes of
 other trials

---
 capture/noworkflow/now/models/ast/trial_ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/ast/trial_ast.py b/capture/noworkflow/now/models/ast/trial_ast.py
index 68916a4..e630be8 100644
--- a/capture/noworkflow/now/models/ast/trial_ast.py
+++ b/capture/noworkflow/now/models/ast/trial_ast.py
@@ -44,8 +44,8 @@ class TrialAst(object):
             (CodeComponent.m.trial_id == Composition.m.trial_id)
         ).filter(
             (CodeComponent.m.trial_id == self.trial.id) &
-            (CodeComponent.m.type == 'function_def') | (
-                CodeComponent.m.type == 'class_def')
+            ((CodeComponent.m.type == 'function_def') | (
+                CodeComponent.m.type == 'class_def'))
         ).subquery()
 
         labels = relational.session.query(
-- 
2.43.0


From 5a9b2095c0ce1646d452fb7fdd7373097d08536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:24 +0000
Subject: [PATCH 68/81] fix: compare the file accesses of each activation in
 its own trial

---
 capture/noworkflow/now/cmd/cmd_diff.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_diff.py b/capture/noworkflow/now/cmd/cmd_diff.py
index c2cb116..46ed086 100644
--- a/capture/noworkflow/now/cmd/cmd_diff.py
+++ b/capture/noworkflow/now/cmd/cmd_diff.py
@@ -332,9 +332,10 @@ class Diff(NotebookCommand):
             variable_types).all()
         
         (added, removed, replaced) = file_accesses
-        new_added = self.filter_file_accesses_diff_function(added, function_as_activation_trial1.id, function_as_activation_trial2.id)
-        new_removed = self.filter_file_accesses_diff_function(removed, function_as_activation_trial1.id, function_as_activation_trial2.id)
-        new_replaced = self.filter_file_accesses_diff_function(replaced, function_as_activation_trial1.id, function_as_activation_trial2.id)
+        # Activation ids are local to their trials: added accesses belong to trial2 and removed ones to trial1
+        new_added = self.filter_file_accesses_diff_function(added, function_as_activation_trial2.id)
+        new_removed = self.filter_file_accesses_diff_function(removed, function_as_activation_trial1.id)
+        new_replaced = replaced  # file accesses are never replaced
             
         functions_info = {
                 "output_function_trial1" : function_as_evaluation_trial1.repr,
@@ -352,10 +353,10 @@ class Diff(NotebookCommand):
         
         return functions_info
             
-    def filter_file_accesses_diff_function(self, old_set, activation_id1, activation_id2):
+    def filter_file_accesses_diff_function(self, old_set, activation_id):
         new_set = set()
         for file in old_set:
-            if (file.activation_id == activation_id1) or (file.activation_id == activation_id2): new_set.add(file)
+            if file.activation_id == activation_id: new_set.add(file)
         return new_set
 
     def execute_export(self, args):
-- 
2.43.0


From 71b6582245569a0f4a5680c48b37ed9ebde19f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 69/81] fix: do not show the cached history of another
 experiment

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..f599162 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -50,7 +50,7 @@ class HistoryGraph(Graph):
 
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self.history.expId, Trial.count(None,self.history.expId)
         )
         
         if self.use_cache and key in self.cache:
-- 
2.43.0


From dc0d8e72294fa9f5c45ef5ecbb470ff306fd3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:38 +0000
Subject: [PATCH 70/81] fix: show trials whose parents are in another
 experiment

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index f599162..3966db2 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -158,7 +158,7 @@ class HistoryGraph(Graph):
 
         for trial in viewvalues(trial_map):
             graph[trial.id][trial.id] = 0
-            if trial.parent_id is not None:
+            if trial.parent_id in trial_map:
                 graph[trial.id][trial.parent_id] = 1
 
         return graph
-- 
2.43.0


From f47bb6870eee7266860d8d793ba5ba8ad46333fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:13 +0000
Subject: [PATCH 71/81] fix: do not name files outside of the project with ..
 in the content tree

---
 capture/noworkflow/now/persistence/content/gitbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 1c2701e..cf58c6a 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -66,9 +66,9 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def _inc_name(self, filename):
         """Define name for file in repository"""
         filename = os.path.abspath(filename)
-        if filename.startswith(self.base_path):
+        if filename.startswith(os.path.join(self.base_path, "")):
             filename = os.path.relpath(filename, self.base_path)
-        elif filename.startswith(self.user_path):
+        elif filename.startswith(os.path.join(self.user_path, "")):
             filename = os.path.join("noworkflow_home", os.path.relpath(filename, self.user_path))
         else:
             drive, rest = os.path.splitdrive(filename)
-- 
2.43.0


From 05a66216ffc9dd7571caa15ad158b4916ed552d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:38 +0000
Subject: [PATCH 72/81] fix: the slicing rules of the Prolog export used facts
 of dependencies that do not exist

---
 capture/noworkflow/resources/rules.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/resources/rules.pl b/capture/noworkflow/resources/rules.pl
index 93cd372..3801768 100644
--- a/capture/noworkflow/resources/rules.pl
+++ b/capture/noworkflow/resources/rules.pl
@@ -493,7 +493,7 @@
         %              in a given trial (*TrialId*).
         %              Ignores argument types
 
-        valid_dependency_id(TrialId, Dependent, Dependency, Type) :- dependency(TrialId, _, Dependent, _, Dependency, Type), sub_atom(Type, 0, 3, _, Prefix), Prefix \= 'arg'.
+        valid_dependency_id(TrialId, Dependent, Dependency, Type) :- dependency(TrialId, _, Dependent, _, Dependency, Type, _, _, _, _), sub_atom(Type, 0, 3, _, Prefix), Prefix \= 'arg'.
 
     % evaluation_slice_id(TrialId, Dependent, Dependencies)/3
         % DESCRIPTION: get *Dependencies* of *Dependent* evaluation
-- 
2.43.0


From b0eaefe1e6457864816e58c47c506480e9988c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:13 +0000
Subject: [PATCH 73/81] fix: facts of modules, unfinished evaluations and heads
 have values that Prolog reads as variables

---
 capture/noworkflow/now/persistence/models/evaluation.py | 2 +-
 capture/noworkflow/now/persistence/models/head.py       | 4 ++--
 capture/noworkflow/now/persistence/models/module.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/evaluation.py b/capture/noworkflow/now/persistence/models/evaluation.py
index 2057497..d58768c 100644
--- a/capture/noworkflow/now/persistence/models/evaluation.py
+++ b/capture/noworkflow/now/persistence/models/evaluation.py
@@ -120,7 +120,7 @@ class Evaluation(AlchemyProxy):
     prolog_description = PrologDescription("evaluation", (
         PrologTrial("trial_id", link="trial.id"),
         PrologAttribute("id"),
-        PrologAttribute("checkpoint"),
+        PrologNullable("checkpoint"),
         PrologAttribute("code_component_id", link="code_component.id"),
         PrologNullable("activation_id", link="activation.id"),
         PrologRepr("repr"),
diff --git a/capture/noworkflow/now/persistence/models/head.py b/capture/noworkflow/now/persistence/models/head.py
index 16edebe..c9f5c51 100644
--- a/capture/noworkflow/now/persistence/models/head.py
+++ b/capture/noworkflow/now/persistence/models/head.py
@@ -9,7 +9,7 @@ from __future__ import (absolute_import, print_function,
 from sqlalchemy import Column, Integer, String, Text
 from sqlalchemy import ForeignKeyConstraint
 
-from ...utils.prolog import PrologDescription, PrologRepr, PrologAttribute
+from ...utils.prolog import PrologDescription, PrologRepr, PrologTrial
 
 from .. import relational
 
@@ -56,7 +56,7 @@ class Head(AlchemyProxy):
 
     prolog_description = PrologDescription("head", (
         PrologRepr("script"),
-        PrologAttribute("trial_id"),
+        PrologTrial("trial_id", link="trial.id"),
     ))
 
     def __repr__(self):
diff --git a/capture/noworkflow/now/persistence/models/module.py b/capture/noworkflow/now/persistence/models/module.py
index 3268443..ced939c 100644
--- a/capture/noworkflow/now/persistence/models/module.py
+++ b/capture/noworkflow/now/persistence/models/module.py
@@ -10,7 +10,7 @@ from sqlalchemy import Column, Integer, String, Text, Boolean, select, bindparam
 from sqlalchemy import PrimaryKeyConstraint, ForeignKeyConstraint
 
 from ...utils.prolog import PrologDescription, PrologTrial, PrologRepr
-from ...utils.prolog import PrologAttribute, PrologNullableRepr
+from ...utils.prolog import PrologAttribute, PrologNullableRepr, PrologBoolean
 
 from .. import relational
 
@@ -81,7 +81,7 @@ class Module(AlchemyProxy):
         PrologNullableRepr("version"),
         PrologRepr("path"),
         PrologNullableRepr("code_block_id", link="code_block.id"),
-        PrologAttribute("transformed"),
+        PrologBoolean("transformed"),
         PrologRepr("fullpath"),
     ), description=(
         "informs that in a given trial (*TrialId*),\n"
-- 
2.43.0


From bc6d8f0b1bcb7c254dd2ae6a382fb7702bd26106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:27 +0000
Subject: [PATCH 74/81] fix: texts with line breaks made invalid Prolog facts

---
 capture/noworkflow/now/utils/prolog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index cdc3a01..f995080 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -121,7 +121,9 @@ class PrologRepr(PrologAttribute):
             if value[0] in ('"', "'") and value[-1] == value[0]:
                 value = value[1:-1]
 
-        return "'{}'".format(value.replace("'", "''"))
+        # A quoted atom cannot have line breaks
+        value = value.replace("'", "''").replace("\n", "\\n").replace("\r", "\\r")
+        return "'{}'".format(value)
 
 
 class PrologTimestamp(PrologAttribute):
-- 
2.43.0


From aaa820ae62a6971012e114fe011a85c5df5da6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:59 +0000
Subject: [PATCH 75/81] fix: rule of influence between accesses used a rule
 that does not exist

---
 capture/noworkflow/resources/rules.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/resources/rules.pl b/capture/noworkflow/resources/rules.pl
index 3801768..5e9c61f 100644
--- a/capture/noworkflow/resources/rules.pl
+++ b/capture/noworkflow/resources/rules.pl
@@ -436,12 +436,12 @@
 
         indirect_access_id(TrialId, Function, File) :- access_stack_id(TrialId, File, Functions), member(Function, Functions).
 
-    % activation_influence_id(TrialId, Influencer, Influenced)/3
-        % DESCRIPTION: match *Influencer* activations that might have *Influenced* an access
+    % access_influence_id(TrialId, Influencer, Influenced)/3
+        % DESCRIPTION: match *Influencer* accesses that might have *Influenced* an access
         %              in a given trial (*TrialId*).
         %              This a Naive rule! It considers just the succession order
 
-        access_influence_id(TrialId, Influencer, Influenced) :- file_read_id(TrialId, Influencer), file_written_id(TrialId, Influenced), successor_id(TrialId, access, Influencer, access, Influenced), access_id(TrialId, F1, Influencer), access_id(TrialId, F2, Influenced), activation_influence_id(TrialId, F1, F2).
+        access_influence_id(TrialId, Influencer, Influenced) :- file_read_id(TrialId, Influencer), file_written_id(TrialId, Influenced), successor_id(TrialId, access, Influencer, access, Influenced), access_id(TrialId, F1, Influencer), access_id(TrialId, F2, Influenced), temporal_activation_influence_id(TrialId, F1, F2).
 
     %%% NAME-BASED
 
-- 
2.43.0


From e7c7a92d390ea9ec96d7ff32d92e94763cc1cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:21 +0000
Subject: [PATCH 76/81] fix: export to Prolog removed the first letter of texts
 such as d'art

---
 capture/noworkflow/now/utils/prolog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index f995080..6508fb1 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -116,7 +116,8 @@ class PrologRepr(PrologAttribute):
         value = value.replace("\\", "\\\\")
 
         if len(value) > 1:
-            if value[0] in ascii_letters and value[1] in ('"', "'"):
+            if (value[0] in ascii_letters and len(value) > 2
+                    and value[1] in ('"', "'") and value[-1] == value[1]):
                 value = value[1:]
             if value[0] in ('"', "'") and value[-1] == value[0]:
                 value = value[1:-1]
-- 
2.43.0


From 4b1f63dfb7766f3cc68cc8f72a2aa7fdcbc9ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:42 +0000
Subject: [PATCH 77/81] fix: content of cached graphs that is missing or
 damaged prevented the graph

---
 capture/noworkflow/now/models/graphs/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/structures.py b/capture/noworkflow/now/models/graphs/structures.py
index 726335f..dc04560 100644
--- a/capture/noworkflow/now/models/graphs/structures.py
+++ b/capture/noworkflow/now/models/graphs/structures.py
@@ -64,7 +64,8 @@ def prepare_cache(get_type):
                                 continue
                             cache_session.close()                                # pylint: disable=no-member
                             return result
-                    except (ValueError, exc.SQLAlchemyError):
+                    except Exception:  # pylint: disable=broad-except
+                        # The content may be missing or damaged
                         traceback.print_exc()
                         print_msg("Couldn't load graph cache", True)
                 start = time.time()
-- 
2.43.0


From 0c30cee5121a0a82d30a553b51532fd0288f0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:08 +0000
Subject: [PATCH 78/81] fix: graph of trials without activations failed

---
 capture/noworkflow/now/models/graphs/trial_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..16bf3b5 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -291,7 +291,7 @@ class TreeSummarization(NoMatchSummarization):
     def __call__(self, preorder):
         result = super(TreeSummarization, self).__call__(preorder)
         self.edges.clear()
-        stack = [self.root]
+        stack = [] if self.root is None else [self.root]
         while stack:
             current = stack.pop()
             for index, child in enumerate(current.children):
@@ -329,7 +329,7 @@ class DefinitionSummarization(LineNameSummarization):
                         self.insert_node(node, find)
                         relationship.remove(relation)
                         break
-        stack = [self.root]
+        stack = [] if self.root is None else [self.root]
         while stack:
             current = stack.pop()
             for index, child in enumerate(current.children):
-- 
2.43.0


From 97f2423746f4d1faa0c0414017d8ed1c1c35210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:23 +0000
Subject: [PATCH 79/81] fix: names of while, if, or and add components in the
 definition graph

---
 capture/noworkflow/now/models/graphs/trial_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 16bf3b5..c97acc7 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -355,8 +355,8 @@ class DefinitionSummarization(LineNameSummarization):
         )
 
         if code_component.type in {'list', 'tuple', 'dict', 'set', 'expr',
-                                     'for', 'while' 'if', 'with', 'uadd', 'usub',
-                                     'not', 'invert', 'and', 'or' 'add', 'sub',
+                                     'for', 'while', 'if', 'with', 'uadd', 'usub',
+                                     'not', 'invert', 'and', 'or', 'add', 'sub',
                                      'mult', 'matmult', 'div', 'mod', 'pow', 'lshift',
                                      'rshift', 'bitor', 'bitxor', 'bitand', 'floordiv',
                                      'lambda_def', 'return', 'yield', 'yield_from',
-- 
2.43.0


From 49c33d61b5f7be55c140632648dc720446ad6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:38 +0000
Subject: [PATCH 80/81] fix: activations of generators that are resumed were
 lost or under another caller in graphs

---
 .../now/models/graphs/trial_graph.py          | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index c97acc7..a928d4f 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -192,7 +192,9 @@ class Summarization(object):
             while call.caller_id < last.caller_id:
                 last = self.insert_return(last)
 
-            if call.caller_id == last.caller_id:
+            if call.caller_id > last.caller_id:
+                last = self.insert_call(call, last)
+            else:
                 last = self.insert_sequence(call, last)
 
         while self.stack:
@@ -410,6 +412,26 @@ class TrialGraph(Graph):
             4: self.definition_tree
         }
 
+    def preorder(self):
+        """Get activations in preorder: all activations that are called by an
+        activation, in any order, come before the next one of its caller
+
+        Activations of generators may occur after the ones that consume them
+        """
+        activations = list(self.trial.activations)
+        ids = {activation.id for activation in activations}
+        called = defaultdict(list)
+        for activation in activations:
+            caller_id = activation.caller_id
+            called[caller_id if caller_id in ids else None].append(activation)
+        result = []
+        stack = called[None][::-1]
+        while stack:
+            activation = stack.pop()
+            result.append(activation)
+            stack.extend(reversed(called[activation.id]))
+        return result
+
     def result(self, summarization):
         """Get summarization graph result"""
         return self.trial.finished, summarization.graph(
@@ -419,22 +441,22 @@ class TrialGraph(Graph):
     @cache("tree")
     def tree(self):
         """Convert tree structure into dict tree structure"""
-        return self.result(TreeSummarization(self.trial.activations))
+        return self.result(TreeSummarization(self.preorder()))
 
     @cache("no_match")
     def no_match(self):
         """Convert tree structure into dict graph without node matchings"""
-        return self.result(NoMatchSummarization(self.trial.activations))
+        return self.result(NoMatchSummarization(self.preorder()))
 
     @cache("exact_match")
     def exact_match(self):
         """Convert tree structure into dict graph and match equal calls"""
-        return self.result(StructureSummarization(self.trial.activations))
+        return self.result(StructureSummarization(self.preorder()))
 
     @cache("namespace_match")
     def namespace_match(self):
         """Convert tree structure into dict graph and match namespaces"""
-        return self.result(LineNameSummarization(self.trial.activations))
+        return self.result(LineNameSummarization(self.preorder()))
 
     @cache("definition_tree")
     def definition_tree(self):
-- 
2.43.0


From 1d78299be710dd628ed40f4c0941086f41fbfb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:28 +0000
Subject: [PATCH 81/81] fix: quotes and backslashes in keys, names and values
 made invalid DOT and PROV-N files

---
 .../now/models/dependency_graph/attributes.py |  7 ++++++-
 .../models/dependency_graph/dot_visitor.py    | 21 ++++++++++---------
 .../models/dependency_graph/prov_visitor.py   | 10 ++++-----
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/attributes.py b/capture/noworkflow/now/models/dependency_graph/attributes.py
index 43b44a1..eeb531f 100644
--- a/capture/noworkflow/now/models/dependency_graph/attributes.py
+++ b/capture/noworkflow/now/models/dependency_graph/attributes.py
@@ -9,6 +9,11 @@ from copy import copy
 from future.utils import viewitems
 
 
+def escape_quotes(value):
+    """Escape value to be written between quotes"""
+    return "{}".format(value).replace("\\", "\\\\").replace('"', '\\"')
+
+
 class Attributes(object):
     """Represent an attributes configuration for DOT"""
 
@@ -41,7 +46,7 @@ class Attributes(object):
         if not items:
             return ""
         return "[{}]".format(" ".join(
-            '{}="{}"'.format(key, value)
+            '{}="{}"'.format(key, escape_quotes(value))
             for key, value in viewitems(items)
         ))
 
diff --git a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
index fb1ca36..499e98d 100644
--- a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
+++ b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
@@ -10,17 +10,17 @@ from functools import reduce
 from future.utils import viewitems
 
 from .base_visitor import ClusterVisitor
-from .attributes import Attributes
+from .attributes import Attributes, escape_quotes
 
 
-def escape(string, size=55):
-    """Escape string for dot file"""
+def limit(string, size=55):
+    """Limit the size of string"""
     if not size or not string:
         return ""
     if len(string) > size:
         half_size = (size - 5) // 2
         string = string[:half_size] + " ... " + string[-half_size:]
-    return "" if string is None else string.replace('"', '\\"')
+    return string
 
 
 class DotVisitor(ClusterVisitor):
@@ -74,15 +74,16 @@ class DotVisitor(ClusterVisitor):
         with self.subgroup("subgraph {}".format(cluster.cluster_id)):
             self.insert('color="#3A85B9";')
             self.insert("fontsize=30;")
-            self.insert('label = "{}";'.format(cluster.activation_name))
+            self.insert('label = "{}";'.format(
+                escape_quotes(cluster.activation_name)))
 
             self.visit_activation(cluster, name="return")
             self.process_cluster_content(cluster)
 
     def visit_evaluation(self, node):
         """Create evaluation node for graph"""
-        name = escape(node.name, self.name_length)
-        value = escape(node.value, self.value_length)
+        name = limit(node.name, self.name_length)
+        value = limit(node.value, self.value_length)
 
         label_list = ["{} {}".format(node.line, name)]
         if value:
@@ -100,8 +101,8 @@ class DotVisitor(ClusterVisitor):
 
     def visit_activation(self, node, name=None):
         """Create activation node for graph"""
-        name = escape(name or node.name, self.name_length)
-        value = escape(node.value, self.value_length)
+        name = limit(name or node.name, self.name_length)
+        value = limit(node.value, self.value_length)
 
         label_list = ["{} {}".format(node.line, name)]
         if value:
@@ -119,7 +120,7 @@ class DotVisitor(ClusterVisitor):
 
     def visit_access(self, node):
         """Create access node for graph"""
-        label = escape(node.name, self.name_length)
+        label = limit(node.name, self.name_length)
 
         attrs = Attributes({
             "label": label,
diff --git a/capture/noworkflow/now/models/dependency_graph/prov_visitor.py b/capture/noworkflow/now/models/dependency_graph/prov_visitor.py
index 44d88ef..58428b6 100644
--- a/capture/noworkflow/now/models/dependency_graph/prov_visitor.py
+++ b/capture/noworkflow/now/models/dependency_graph/prov_visitor.py
@@ -11,17 +11,17 @@ from collections import Counter
 from future.utils import viewitems
 
 from .base_visitor import ClusterVisitor
-from .attributes import Attributes
+from .attributes import escape_quotes
 
 
 def escape(string, size=55):
-    """Escape string for dot file"""
+    """Escape string for PROV-N file"""
     if not size or not string:
         return ""
     if len(string) > size:
         half_size = (size - 5) // 2
         string = string[:half_size] + " ... " + string[-half_size:]
-    return "" if string is None else string.replace('"', '\\"')
+    return escape_quotes(string)
 
 
 class ProvVisitor(ClusterVisitor):
@@ -53,7 +53,7 @@ class ProvVisitor(ClusterVisitor):
                 'hadMember({}, {}, [type="version:{}", '
                 'version:key="{}", version:checkpoint="{}"])'.format(
                     dependent, dependency,
-                    style.get("_mode"), style.get("_key"),
+                    style.get("_mode"), escape_quotes(style.get("_key")),
                     style.get("_checkpoint")
                 )
             )
@@ -174,7 +174,7 @@ class ProvVisitor(ClusterVisitor):
 
         self.insert(
             'activity({}, [type="script:call", label="{}"])'.format(
-                act_id, node.activation_name
+                act_id, escape_quotes(node.activation_name)
             )
         )
         self.insert(
-- 
2.43.0

