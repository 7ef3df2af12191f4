From cbf75f91c15fd13f7278b3d6fd1fae118fbb5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:55 +0000
Subject: [PATCH 01/25] fix: write collection files atomically

A write cut short by an error left a truncated document, or a truncated repository
file that later builds skipped because a file of that name already existed.
---
 sonolus/build/collection.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 41ad349..a662cf7 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -312,11 +312,22 @@ class Collection:
             if target_path.exists():
                 # Since the content is identified by its hash, a matching file can be skipped
                 continue
-            target_path.write_bytes(data)
+            self._write_file(target_path, data)
+
+    @classmethod
+    def _write_json(cls, path: Path, content: Any) -> None:
+        cls._write_file(path, json.dumps(content).encode("utf-8"))
 
     @staticmethod
-    def _write_json(path: Path, content: Any) -> None:
-        path.write_text(json.dumps(content), encoding="utf-8")
+    def _write_file(path: Path, data: bytes) -> None:
+        # Replacing the file atomically ensures that neither a failed write nor a concurrent reader sees partial content
+        temp_path = path.with_name(f".{path.name}.tmp")
+        try:
+            temp_path.write_bytes(data)
+            temp_path.replace(path)
+        except BaseException:
+            temp_path.unlink(missing_ok=True)
+            raise
 
     def update(self, other: Collection) -> None:
         self.repository.update(other.repository)
-- 
2.43.0


From 7226aa68d7de25a5e35912438389e9a72f6a68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 02/25] fix: write documents of a collection after what they
 refer to

The dev server serves the directory while a rebuild writes it, so clients could get
a document whose items and assets did not exist yet.
---
 sonolus/build/collection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index a662cf7..6b1c517 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -228,9 +228,10 @@ class Collection:
     def write(self, path: Asset) -> None:
         self.link()
         base_dir = self._create_base_directory(path)
-        self._write_main_info(base_dir)
-        self._write_category_items(base_dir)
+        # Documents are written after everything they refer to since the directory may be served while it's written
         self._write_repository_items(base_dir)
+        self._write_category_items(base_dir)
+        self._write_main_info(base_dir)
 
     def link(self):
         for level_details in self.categories.get("levels", {}).values():
@@ -284,6 +285,9 @@ class Collection:
         return category_dir
 
     def _write_category_structure(self, category_dir: Path, category: Category, items: dict[str, Any]) -> None:
+        for item_name, item_details in items.items():
+            self._write_json(category_dir / item_name, item_details)
+
         self._write_json(
             category_dir / "info",
             {
@@ -300,9 +304,6 @@ class Collection:
         category_list = {"pageCount": 1, "items": [item_details["item"] for item_details in items.values()]}
         self._write_json(category_dir / "list", category_list)
 
-        for item_name, item_details in items.items():
-            self._write_json(category_dir / item_name, item_details)
-
     def _write_repository_items(self, base_dir: Path) -> None:
         repo_dir = base_dir / "repository"
         repo_dir.mkdir(exist_ok=True)
-- 
2.43.0


From 49cff042852a7bc1ce59b8a94542ecbe0e9e2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 03/25] fix: load resources in a fixed order

Default items, item lists and which of several same-named items or resources wins
depended on the order in which the file system enumerates directories.
---
 sonolus/build/collection.py | 6 +++---
 sonolus/build/project.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 6b1c517..74c8f3b 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -98,7 +98,7 @@ class Collection:
     def load_from_source(self, path: PathLike | str) -> None:
         root_path = Path(path)
 
-        for category_dir in root_path.iterdir():
+        for category_dir in sorted(root_path.iterdir()):
             if not category_dir.is_dir():
                 continue
 
@@ -106,7 +106,7 @@ class Collection:
             if not self._is_valid_category(category_name):
                 continue
 
-            for item_dir in category_dir.iterdir():
+            for item_dir in sorted(category_dir.iterdir()):
                 if not item_dir.is_dir():
                     continue
 
@@ -123,7 +123,7 @@ class Collection:
                 item_data = self._localize_item(item_data)
                 item_data["name"] = item_dir.name
 
-                for resource_path in item_dir.iterdir():
+                for resource_path in sorted(item_dir.iterdir()):
                     if resource_path.name == "item.json":
                         continue
 
diff --git a/sonolus/build/project.py b/sonolus/build/project.py
index 934d5e2..f19f1fb 100644
--- a/sonolus/build/project.py
+++ b/sonolus/build/project.py
@@ -178,7 +178,7 @@ def load_resource(collection: Collection, asset: Asset | None, base_path: Path,
 
 def load_resources_files_to_collection(base_path: Path) -> Collection:
     collection = Collection()
-    for path in base_path.rglob("*.scp"):
+    for path in sorted(base_path.rglob("*.scp")):
         collection.load_from_scp(path)
     collection.load_from_source(base_path)
     return collection
-- 
2.43.0


From 6f8d6f91dd911cc1a7f44288d5e13d536e2e558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 04/25] fix: serve dev server clients independently

With a single-threaded server, one client that stalls kept all others from being
answered and quit from ending the process.
---
 sonolus/build/dev_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index 8f2ad69..fe850a7 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -314,7 +314,11 @@ def run_server(
                 sys.stdout.write("> ")
             sys.stdout.flush()
 
-    with socketserver.TCPServer(("", port), DirectoryHandler) as httpd:
+    class DirectoryServer(socketserver.ThreadingTCPServer):
+        # A client that doesn't finish its request must not block other clients or exiting
+        daemon_threads = True
+
+    with DirectoryServer(("", port), DirectoryHandler) as httpd:
         local_ips = get_local_ips()
         print(f"Server started on port {port}")
         print("Available on:")
-- 
2.43.0


From 06199150173a325bc91afde9d4c2588ebf42d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 05/25] fix: keep the dev server running when project code
 exits

SystemExit raised by project code during a rebuild ended the server.
---
 sonolus/build/dev_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index fe850a7..6fc9ee7 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -116,7 +116,7 @@ class RebuildCommand:
 
         try:
             project_module = importlib.import_module(server_state.project_module_name)
-        except Exception:
+        except (Exception, SystemExit):
             print(traceback.format_exc())
             return
 
@@ -143,6 +143,9 @@ class RebuildCommand:
             server_state.last_build_time = time()
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
+        except SystemExit:
+            # Project code that exits fails the rebuild, but must not end the server
+            print(traceback.format_exc())
         except CompilationError:
             exc_info = sys.exc_info()
             if server_state.config.verbose:
-- 
2.43.0


From 500e900a057f15f44737aaba7ba579000920cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:54 +0000
Subject: [PATCH 06/25] fix: rebuild from unmodified and current resources

---
 sonolus/build/collection.py |  8 ++++++++
 sonolus/build/dev_server.py | 40 ++++++++++++++++++++++---------------
 sonolus/build/project.py    | 11 ++++++++++
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 74c8f3b..040be7c 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -6,6 +6,7 @@ import json
 import urllib.request
 import warnings
 import zipfile
+from copy import deepcopy
 from io import BytesIO
 from os import PathLike
 from pathlib import Path
@@ -330,6 +331,13 @@ class Collection:
             temp_path.unlink(missing_ok=True)
             raise
 
+    def copy(self) -> Collection:
+        result = Collection()
+        result.name = self.name
+        result.categories = deepcopy(self.categories)
+        result.repository = self.repository.copy()
+        return result
+
     def update(self, other: Collection) -> None:
         self.repository.update(other.repository)
         for category, items in other.categories.items():
diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index 6fc9ee7..a2609c6 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -16,16 +16,16 @@ import threading
 import traceback
 from dataclasses import dataclass
 from pathlib import Path
-from time import perf_counter, time
-from typing import TYPE_CHECKING, NamedTuple, Protocol
+from time import perf_counter
+from typing import TYPE_CHECKING, Any, NamedTuple, Protocol
 
 from sonolus.backend.excepthook import print_simple_traceback
 from sonolus.backend.utils import get_function, get_functions, get_tree_from_file
 from sonolus.build.collection import Collection
 from sonolus.build.project import (
     build_project_to_existing_collection,
+    get_path_fingerprint,
     load_resources_files_to_collection,
-    path_was_modified_after,
 )
 from sonolus.script.internal.context import ProjectContextState
 from sonolus.script.internal.error import CompilationError
@@ -97,8 +97,8 @@ class ServerState:
     build_dir: Path
     config: BuildConfig
     project_state: ProjectContextState
-    collection: Collection
-    last_build_time: float
+    resources: Collection
+    resources_fingerprint: Any
 
 
 class Command(Protocol):
@@ -128,19 +128,23 @@ class RebuildCommand:
         try:
             start_time = perf_counter()
 
-            if path_was_modified_after(server_state.project.resources, server_state.last_build_time):
-                server_state.collection = load_resources_files_to_collection(server_state.project.resources)
+            project = project_module.project
+            resources_fingerprint = get_path_fingerprint(project.resources)
+            if resources_fingerprint != server_state.resources_fingerprint:
+                server_state.resources = load_resources_files_to_collection(project.resources)
+                server_state.resources_fingerprint = resources_fingerprint
 
+            # Building modifies the collection, so the loaded resources are kept separate for later rebuilds
+            collection = server_state.resources.copy()
             server_state.project_state = ProjectContextState.from_build_config(server_state.config)
-            server_state.project = project_module.project
+            server_state.project = project
             build_project_to_existing_collection(
-                server_state.project,
-                server_state.collection,
+                project,
+                collection,
                 server_state.config,
                 project_state=server_state.project_state,
             )
-            write_collection(server_state.collection, server_state.build_dir, clear=False)
-            server_state.last_build_time = time()
+            write_collection(collection, server_state.build_dir, clear=False)
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
         except SystemExit:
@@ -295,12 +299,16 @@ def run_server(
     config: BuildConfig,
     project: Project,
 ):
-    from sonolus.build.cli import build_collection
+    from sonolus.build.cli import write_collection
 
     project_state = ProjectContextState.from_build_config(config)
 
     start_time = perf_counter()
-    collection = build_collection(project, build_dir, config, project_state=project_state)
+    resources_fingerprint = get_path_fingerprint(project.resources)
+    resources = load_resources_files_to_collection(project.resources)
+    collection = resources.copy()
+    build_project_to_existing_collection(project, collection, config, project_state=project_state)
+    write_collection(collection, build_dir)
     end_time = perf_counter()
     print(f"Build finished in {end_time - start_time:.2f}s")
 
@@ -336,8 +344,8 @@ def run_server(
                 build_dir=build_dir,
                 config=config,
                 project_state=project_state,
-                collection=collection,
-                last_build_time=time(),
+                resources=resources,
+                resources_fingerprint=resources_fingerprint,
             )
 
             threading.Thread(target=httpd.serve_forever, daemon=True).start()
diff --git a/sonolus/build/project.py b/sonolus/build/project.py
index f19f1fb..a2527c5 100644
--- a/sonolus/build/project.py
+++ b/sonolus/build/project.py
@@ -1,4 +1,5 @@
 from collections.abc import Callable
+from contextlib import suppress
 from datetime import datetime
 from pathlib import Path
 from typing import cast
@@ -71,6 +72,16 @@ def path_was_modified_after(path: Path, modified_time: datetime | int | float) -
     return False
 
 
+def get_path_fingerprint(path: Path) -> dict[Path, tuple[int, int]]:
+    """Return a value that changes when any file at or under the given path is added, removed, or modified."""
+    result = {}
+    for entry in (path, *path.rglob("*")):
+        with suppress(OSError):
+            stat = entry.stat()
+            result[entry.absolute()] = (stat.st_mtime_ns, stat.st_size)
+    return result
+
+
 def apply_converter_to_collection(
     self, src_engine: str | None, converter: Callable[[ExternalLevelData], LevelData | None]
 ) -> None:
-- 
2.43.0


From b2e269cb6daa0437b29e5fc0b62f6b5183d7840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:20 +0000
Subject: [PATCH 07/25] fix: keep decoding codes of the served build when a
 rebuild fails

---
 sonolus/build/dev_server.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index a2609c6..78e47f2 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -136,15 +136,11 @@ class RebuildCommand:
 
             # Building modifies the collection, so the loaded resources are kept separate for later rebuilds
             collection = server_state.resources.copy()
-            server_state.project_state = ProjectContextState.from_build_config(server_state.config)
-            server_state.project = project
-            build_project_to_existing_collection(
-                project,
-                collection,
-                server_state.config,
-                project_state=server_state.project_state,
-            )
+            project_state = ProjectContextState.from_build_config(server_state.config)
+            build_project_to_existing_collection(project, collection, server_state.config, project_state=project_state)
             write_collection(collection, server_state.build_dir, clear=False)
+            server_state.project = project
+            server_state.project_state = project_state
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
         except SystemExit:
-- 
2.43.0


From 2bd1ed42aa24ebdf952b7c34992e39a5b7efc118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:20 +0000
Subject: [PATCH 08/25] fix: don't deliver the last key of a stream twice

---
 sonolus/script/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 080fc9f..70f63cb 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -364,7 +364,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_items_from_desc(self, start: int | float, /) -> SonolusIterator[tuple[int | float, T]]:
         """Iterate over the items in the stream in descending order starting from the given key.
@@ -410,7 +410,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscKeyIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscKeyIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_keys_from_desc(self, start: int | float, /) -> SonolusIterator[int | float]:
         """Iterate over the keys in the stream in descending order starting from the given key.
@@ -456,7 +456,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscValueIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscValueIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_values_from_desc(self, start: int | float, /) -> SonolusIterator[T]:
         """Iterate over the values in the stream in descending order starting from the given key.
-- 
2.43.0


From f05d91d7efc30a07b5f22d44a3ac8a2e8dadc352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:33 +0000
Subject: [PATCH 09/25] fix: write nothing if an item can't be serialized

---
 sonolus/build/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 040be7c..b04ea61 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -228,6 +228,8 @@ class Collection:
 
     def write(self, path: Asset) -> None:
         self.link()
+        # Items that can't be serialized should fail the write before it changes any files
+        json.dumps(self.categories)
         base_dir = self._create_base_directory(path)
         # Documents are written after everything they refer to since the directory may be served while it's written
         self._write_repository_items(base_dir)
-- 
2.43.0


From 657ae36fc95dfd33c729c1bfbf3ebfc27176ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:40 +0000
Subject: [PATCH 10/25] fix: let archetype fields be processed again after a
 failed attempt

---
 sonolus/script/archetype.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..6657db2 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -842,6 +842,20 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
     def _init_fields(cls):
         if cls._field_init_done:
             return
+        attributes = dict(cls.__dict__)
+        try:
+            cls._process_fields()
+        except BaseException:
+            # Undo partial initialization, so a later attempt can start over
+            for name in tuple(cls.__dict__):
+                if name not in attributes:
+                    delattr(cls, name)
+                elif cls.__dict__[name] is not attributes[name]:
+                    setattr(cls, name, attributes[name])
+            raise
+
+    @classmethod
+    def _process_fields(cls):
         for mro_entry in cls.mro()[1:]:
             if hasattr(mro_entry, "_field_init_done"):
                 mro_entry._init_fields()
-- 
2.43.0


From d0dbcce9643a216063839f2d8586f785f0a52847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 11/25] fix: keep side-effecting values when splicing switch
 chains

---
 sonolus/backend/_opt/midend.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 8c631f4..5180945 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -4108,7 +4108,9 @@ cdef bint _rsw_block_empty(Func f, int32_t b) noexcept nogil:
     istart = f.blocks[b].instr_start
     icount = f.blocks[b].instr_count
     for i in range(istart, istart + icount):
-        if f.instrs[i].flags & FLAG_STMT_ROOT:
+        # As in DCE: a side-effecting value can lack FLAG_STMT_ROOT when its store
+        # dissolved during SSA promotion, but its effect must still persist.
+        if f.instrs[i].flags & (FLAG_STMT_ROOT | FLAG_SIDE_EFFECT):
             return False
     return True
 
-- 
2.43.0


From 18ae809902536970f47eab5db07068632b63d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 12/25] fix: run the else clause of a for loop over a tuple

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From 50888fec588faae185b7fbd461bb6091f81aebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 13/25] fix: compile the default unchecked accessors of
 array-likes

---
 sonolus/script/array_like.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index 07be2b0..f7e8cd6 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -60,7 +60,6 @@ class ArrayLike[T](Sequence[T]):
             value: The value to set.
         """
 
-    @meta_fn
     def get_unchecked(self, index: Num) -> T:
         """Get the element at the given index possibly without bounds checking or conversion of negative indexes.
 
@@ -75,7 +74,6 @@ class ArrayLike[T](Sequence[T]):
         """
         return self[index]
 
-    @meta_fn
     def set_unchecked(self, index: Num, value: T):
         """Set the element at the given index possibly without bounds checking or conversion of negative indexes.
 
-- 
2.43.0


From 16ef3abc203f7818de96567ede6b5d2dbc1657f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 14/25] fix: compare compound record fields with compiled
 methods

---
 sonolus/script/record.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index 0a8e628..fc9e567 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -47,6 +47,24 @@ def _bind_constructor_args(cls: type[Record], args: tuple[Any, ...], kwargs: dic
     return bound.arguments
 
 
+def _fields_equal(a: Any, b: Any) -> bool:
+    return a == b
+
+
+def _fields_not_equal(a: Any, b: Any) -> bool:
+    return a != b
+
+
+def _compare_fields(fn: Callable[[Any, Any], bool], a: Any, b: Any) -> Any:
+    if type(a) is Num or not ctx():
+        return fn(a, b)
+
+    from sonolus.script.internal.visitor import compile_and_call
+
+    # Comparisons of non-num values may be regular functions that need to be compiled
+    return compile_and_call(fn, a, b)
+
+
 # Protocol metaclass is a subclass of ABCMeta, but let's make ABCMeta explicit for clarity
 class RecordMeta(type(Protocol), ABCMeta):
     @meta_fn
@@ -366,7 +384,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return False
         result: Num = Num._accept_(True)
         for field in self._fields_:
-            result = result.and_(field.__get__(self) == field.__get__(other))
+            result = result.and_(_compare_fields(_fields_equal, field.__get__(self), field.__get__(other)))
         return result
 
     @meta_fn
@@ -375,7 +393,7 @@ class Record(GenericValue, metaclass=RecordMeta):
             return True
         result: Num = Num._accept_(False)
         for field in self._fields_:
-            result = result.or_(field.__get__(self) != field.__get__(other))
+            result = result.or_(_compare_fields(_fields_not_equal, field.__get__(self), field.__get__(other)))
         return result
 
     def __hash__(self):
-- 
2.43.0


From 017c869895a8489115d387720c883d0251378947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 15/25] fix: apply the conditions of a generator expression
 over a tuple

---
 sonolus/script/internal/visitor.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..818c8f3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,23 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if not test._as_py_():
+                            skip_ctxs.append(ctx())
+                            set_ctx(ctx().into_dead())
+                            break
+                    else:
+                        skip_ctxs.append(ctx().branch(0))
+                        if_then_ctx = ctx().branch(None)
+                        ctx().test = test.ir()
+                        set_ctx(if_then_ctx)
+                if ctx().live:
+                    self.construct_genexpr(others, elt)
+                if skip_ctxs:
+                    set_ctx(Context.meet([*skip_ctxs, ctx()]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From 84cd8f7772a3bad745193ddb9857f3589c673711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 16/25] fix: don't compile generator expression elements that
 can't be reached

---
 sonolus/script/internal/visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 818c8f3..5f422a4 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -615,14 +615,16 @@ class Visitor(ast.NodeVisitor):
                     else:
                         ctx().outgoing[None] = header_ctx
                         set_ctx(ctx().into_dead())
+                        break
                 else:
                     if_then_ctx = ctx().branch(None)
                     if_else_ctx = ctx().branch(0)
                     ctx().test = test.ir()
                     if_else_ctx.outgoing[None] = header_ctx
                     set_ctx(if_then_ctx)
-            self.construct_genexpr(others, elt)
-            ctx().outgoing[None] = header_ctx
+            if ctx().live:
+                self.construct_genexpr(others, elt)
+                ctx().outgoing[None] = header_ctx
             set_ctx(else_ctx)
 
     def visit(self, node):
-- 
2.43.0


From 59ae552dfe4bd64e52e7d89a2f207b42cb80f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 17/25] fix: insert a copy of an element of the same array

---
 sonolus/script/containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sonolus/script/containers.py b/sonolus/script/containers.py
index 3e3f306..2680481 100644
--- a/sonolus/script/containers.py
+++ b/sonolus/script/containers.py
@@ -228,6 +228,7 @@ class VarArray[T, Capacity](Record, ArrayLike[T]):
         """
         index = clamp(get_positive_index(index, self._size, include_end=True), 0, self._size)
         assert self._size < len(self._array), "Array is full"
+        value = copy(value)  # the value may be an element of this array, which is about to be shifted
         self._size += 1
         for i in range(self._size - 1, index, -1):
             self._array.set_unchecked(i, self._array.get_unchecked(i - 1))
-- 
2.43.0


From 2165171cdf68fa23bc6da942ed0aad90f721136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 18/25] fix: support numeric data fields of streams

---
 sonolus/script/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 70f63cb..5f087b9 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -9,6 +9,7 @@ from sonolus.backend.ops import Op
 from sonolus.script.array_like import check_positive_index
 from sonolus.script.internal.context import ctx
 from sonolus.script.internal.descriptor import SonolusDescriptor
+from sonolus.script.internal.generic import validate_concrete_type
 from sonolus.script.internal.introspection import get_field_specifiers
 from sonolus.script.internal.meta_fn import meta_fn
 from sonolus.script.internal.native import native_function
@@ -103,7 +104,7 @@ def streams[T](cls: type[T]) -> T:
         # Offset 0 is unused so we can tell when a stream object is uninitialized since it'll have offset 0.
         offset = 1
         for name, annotation in get_field_specifiers(cls, skip={"_init_done_"}).items():
-            if issubclass(annotation, Stream | StreamGroup):
+            if isinstance(annotation, type) and issubclass(annotation, Stream | StreamGroup):
                 annotation = cast(type[Stream | StreamGroup], annotation)
                 if annotation is Stream or annotation is StreamGroup:
                     raise TypeError(f"Invalid annotation for streams: {annotation}. Must have type arguments.")
@@ -111,7 +112,8 @@ def streams[T](cls: type[T]) -> T:
                 # Streams store their data across several backing streams
                 entries.append((name, offset, annotation))
                 offset += annotation.backing_size()
-            elif issubclass(annotation, Value) and annotation._is_concrete_():
+            else:
+                annotation = validate_concrete_type(annotation)
                 setattr(cls, name, _StreamDataField(offset, annotation))
                 # Data fields store their data in a single backing stream at different offsets in the same stream
                 entries.append((name, offset, annotation))
-- 
2.43.0


From 6f5ff91290f96759126f35339fe30952ed330146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 19/25] fix: don't emit dead array stores whose operands were
 coalesced away

---
 sonolus/backend/_opt/lower.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sonolus/backend/_opt/lower.pyx b/sonolus/backend/_opt/lower.pyx
index e8472df..193289a 100644
--- a/sonolus/backend/_opt/lower.pyx
+++ b/sonolus/backend/_opt/lower.pyx
@@ -1483,6 +1483,11 @@ cdef void _coalesce(Func func) except *:
     if n_temps == 0:
         return
 
+    # Liveness ignores the operands of dead stores, so coalescing may overwrite them
+    # first. Not every allocation strategy removes dead stores, and a dead array store
+    # with a wrong index would write into other temps.
+    _dead_store_elim(func, L)
+
     # See _pack: size the interference matrix in 64-bit and reject absurd sizes so
     # the int32 row index ``t * nw + w`` cannot overflow / write OOB.
     if <int64_t>n_temps * <int64_t>nw > _INTERF_MATRIX_CAP:
-- 
2.43.0


From ee8d865e9e1aeef6c04f3f3662c893b9f75a2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 20/25] fix: write elements of exported records and arrays

The backing value of an exported field returned the export instruction instead of adding it, so writes through a part of the field were dropped.
---
 sonolus/script/archetype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 6657db2..d4c197d 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -8,7 +8,7 @@ from enum import Enum, IntEnum, StrEnum
 from types import FunctionType
 from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
 
-from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr, IRStmt
+from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
 from sonolus.backend.mode import Mode
 from sonolus.backend.ops import Op
 from sonolus.script.bucket import Bucket, Judgment
@@ -55,8 +55,8 @@ class _ExportBackingValue(BackingValue):
     def read(self) -> IRExpr:
         raise NotImplementedError("Exported fields are write-only")
 
-    def write(self, value: IRExpr) -> IRStmt:
-        return IRInstr(Op.ExportValue, [self.index, value])
+    def write(self, value: IRExpr):
+        ctx().add_statements(IRInstr(Op.ExportValue, [self.index, value]))
 
 
 class _ArchetypeField(SonolusDescriptor):
-- 
2.43.0


From 46f5eddbeeb74699b304db289640de29a833740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 21/25] fix: compile the callbacks of subclasses of derived
 archetypes

Attributes set by derive() were looked up through inheritance, so a subclass of a derived archetype was compiled as the base of the derivation.
---
 sonolus/backend/_opt/driver.pyx | 4 ++--
 sonolus/script/archetype.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/backend/_opt/driver.pyx b/sonolus/backend/_opt/driver.pyx
index 8324068..3412453 100644
--- a/sonolus/backend/_opt/driver.pyx
+++ b/sonolus/backend/_opt/driver.pyx
@@ -336,7 +336,7 @@ def compile_mode(
         base_archetypes = []
         seen_base_archetypes = set()
         for a in archetypes:
-            base = getattr(a, "_derived_base_", a)
+            base = a.__dict__.get("_derived_base_", a)
             if base not in seen_base_archetypes:
                 seen_base_archetypes.add(base)
                 base_archetypes.append(base)
@@ -386,7 +386,7 @@ def compile_mode(
 
     if archetypes is not None:
         results["archetypes"] = [
-            {**base_archetype_entries[getattr(a, "_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
+            {**base_archetype_entries[a.__dict__.get("_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
             for a in archetypes
         ]
 
diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index d4c197d..0441ca8 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1057,7 +1057,7 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
             A new archetype class with the same fields and callbacks as this archetype, but with the given name and
             whether it is scored.
         """
-        if getattr(cls, "_is_derived_", False):
+        if cls.__dict__.get("_is_derived_", False):
             raise RuntimeError("Cannot derive from a derived archetype")
         cls_dict = {
             "name": name,
-- 
2.43.0


From a292b1460af0127835ed6112d3cbd010c4b6d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 22/25] fix: keep references when entity refs are copied into
 level data

Copies made when storing a ref in an array or a nested record lost the referenced entity and were exported as -1.
---
 sonolus/script/archetype.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 0441ca8..6adea7b 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1702,6 +1702,12 @@ class EntityRef[A: _BaseArchetype](Record):
         if hasattr(value, "_ref_"):
             self._ref_ = value._ref_
 
+    def _copy_(self) -> Self:
+        result = super()._copy_()
+        if hasattr(self, "_ref_"):
+            result._ref_ = self._ref_
+        return result
+
     @classmethod
     def _accepts_(cls, value: Any) -> bool:
         return (
-- 
2.43.0


From 182dfdd32560a0e067dc495e63709470bb8204a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:10 +0000
Subject: [PATCH 23/25] fix: compile bool() of a runtime value

---
 sonolus/script/internal/builtin_impls.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..e836a66 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -382,17 +382,23 @@ class _Float:
 _float = _Float()
 
 
+def _to_bool(value):
+    # Relies on the compiler to perform the conversion in a boolean context
+    if value:  # noqa: SIM103
+        return True
+    else:
+        return False
+
+
 class _Bool:
     _is_comptime_value_ = True
     _type_mapping_ = Num
 
     @meta_fn
     def __call__(self, value=False):
-        # Relies on the compiler to perform the conversion in a boolean context
-        if validate_value(value):  # noqa: SIM103
-            return True
-        else:
-            return False
+        from sonolus.script.internal.visitor import compile_and_call
+
+        return compile_and_call(_to_bool, value)
 
     def __or__(self, other):
         other = validate_value(other)
-- 
2.43.0


From c766e3bf09ba35e1a21edb1256c14468313db36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:10 +0000
Subject: [PATCH 24/25] fix: keep falsy values given to archetype fields in
 level data

---
 sonolus/script/archetype.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 6adea7b..ca5db82 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -655,10 +655,10 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
             raise RuntimeError("The Archetype constructor is only for defining level data")
         bound = self._data_constructor_signature_.bind_partial(*args, **kwargs)
         bound.apply_defaults()
-        values = {
-            field.name: field.type._accept_(bound.arguments.get(field.name) or zeros(field.type))._get_()
-            for field in self._imported_fields_.values()
-        }
+        values = {}
+        for field in self._imported_fields_.values():
+            value = bound.arguments.get(field.name)
+            values[field.name] = field.type._accept_(zeros(field.type) if value is None else value)._get_()
         self._data_ = _ArchetypeLevelData(values=values)
 
     @classmethod
-- 
2.43.0


From 412c616bc0253548021147109555d9498b7e6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:38 +0000
Subject: [PATCH 25/25] fix: read score multipliers and the despawn flag when
 they are accessed

---
 sonolus/script/archetype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index ca5db82..22d6f81 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -303,7 +303,7 @@ class _ArchetypeScoreMultiplierMetaDescriptor(SonolusDescriptor):
             raise RuntimeError("Archetype score multiplier is only available during compilation")
         if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
             raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
-        return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
+        return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)._get_()
 
     def __set__(self, instance, value):
         # instance is the class
@@ -322,9 +322,9 @@ class _ArchetypeScoreMultiplierDescriptor(SonolusDescriptor):
         if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
             raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
         if instance is not None:
-            return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
+            return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)._get_()
         else:
-            return _deref(ctx().blocks.ArchetypeScore, owner.id, Num)
+            return _deref(ctx().blocks.ArchetypeScore, owner.id, Num)._get_()
 
     def __set__(self, instance, value):
         # Handle instance writes
@@ -361,9 +361,9 @@ class _EntityScoreMultiplierDescriptor(SonolusDescriptor):
             raise RuntimeError("Entity score multiplier can only be accessed from an instance")
         match instance._data_:
             case _ArchetypeSelfData():
-                return _deref(ctx().blocks.EntityScore, 0, Num)
+                return _deref(ctx().blocks.EntityScore, 0, Num)._get_()
             case _ArchetypeReferenceData(index=index):
-                return _deref(ctx().blocks.EntityScoreArray, index, Num)
+                return _deref(ctx().blocks.EntityScoreArray, index, Num)._get_()
             case _:
                 raise RuntimeError("Entity score multiplier is not available in level data")
 
@@ -1215,7 +1215,7 @@ class PlayArchetype(_BaseArchetype):
             raise RuntimeError("Calling despawn is only allowed within a callback")
         match self._data_:
             case _ArchetypeSelfData():
-                return _deref(ctx().blocks.EntityDespawn, 0, Num)
+                return _deref(ctx().blocks.EntityDespawn, 0, Num)._get_()
             case _:
                 raise RuntimeError("Despawn is only accessible from the entity itself")
 
-- 
2.43.0

