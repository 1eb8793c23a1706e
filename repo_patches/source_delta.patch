From 98f9fec4289122a99e1251ee0d68d513d1585fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 01/58] fix: keep weights of different inventories apart in the
 memory cache

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..2b74bd5 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -470,6 +470,7 @@ class MatrixDb:
             gridspec_in,
             gridspec_out,
             method,
+            source=self.matrix_source(),
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..7fde373 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, source=None, create=None, find_entry=None, create_from_entry=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,7 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            key = make_sha([source, *args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From bcc1a63ed1f63102f495878674d946e1a0864d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 02/58] fix: raise ValueError when a limited memory cache
 policy has no limit

---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 7fde373..15eaf9c 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,10 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,10 +142,10 @@ class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From d2c0ade7f682347c8c118946abe92e4b89778df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 03/58] fix: honour temporary-directory-root when the cache
 policy is off

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..e4a52dd 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -564,6 +564,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From 0ad789a12166a7562254e0cb76ec7209e3c1a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 04/58] fix: accept the documented W subtype of ORCA grids

---
 src/earthkit/regrid/gridspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..9b3fd79 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -20,7 +20,7 @@ DEGREE_EPS = 1e-8
 
 HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
 RGG_PATTERN = re.compile(r"[OoNn]\d+")
-ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
+ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUVW]$")
 
 
 # NOTE: this is a temporary code until the full gridspec
-- 
2.43.0


From 8a7c54e6a1ab6f298f203bd3d993edb991c44b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 05/58] fix: report unexpected tags when a large blob is
 expected

---
 src/earthkit/regrid/utils/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/utils/stream.py b/src/earthkit/regrid/utils/stream.py
index 66c85a8..cfb9242 100644
--- a/src/earthkit/regrid/utils/stream.py
+++ b/src/earthkit/regrid/utils/stream.py
@@ -56,6 +56,8 @@ TAG_NAME = (
     "exception",
     "start of record",
     "end of record",
+    "end of file",
+    "large blob",
 )
 
 
-- 
2.43.0


From 6d92d44b6e372bce97002a68f6b4ce41cc9d386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 06/58] fix: import the matrix database from its current module
 in the tools

---
 tools/subset/subset_remote_db.py | 2 +-
 tools/utils/matrix.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/subset/subset_remote_db.py b/tools/subset/subset_remote_db.py
index 9141482..0e5893f 100644
--- a/tools/subset/subset_remote_db.py
+++ b/tools/subset/subset_remote_db.py
@@ -15,7 +15,7 @@ import sys
 
 import yaml
 
-from earthkit.regrid.db import SYS_DB as DB
+from earthkit.regrid.backends.db import SYS_DB as DB
 
 LOG = logging.getLogger(__name__)
 
diff --git a/tools/utils/matrix.py b/tools/utils/matrix.py
index 9a11bff..00371b5 100644
--- a/tools/utils/matrix.py
+++ b/tools/utils/matrix.py
@@ -22,8 +22,8 @@ MIR_INTERPOLATE_OPTION = "interpolation"
 def download_index_file(target):
     import requests
 
-    from earthkit.regrid.db import _INDEX_GZ_FILENAME
-    from earthkit.regrid.db import _SYSTEM_URL
+    from earthkit.regrid.backends.db import _INDEX_GZ_FILENAME
+    from earthkit.regrid.backends.db import _SYSTEM_URL
 
     path = os.path.join(_SYSTEM_URL, _INDEX_GZ_FILENAME)
     requests.get(path)
-- 
2.43.0


From 42734a81e55afb1f071a829dae1d537b98eed0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 07/58] fix: drop a temporary config that is refused on entry

---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..bc62c3d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From d300eced579bfa28390e23ba61bf36b8032ed035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 08/58] fix: undo config changes that are invalid or refused by
 the caches

---
 src/earthkit/regrid/utils/config.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bc62c3d..7f2241b 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -250,6 +250,22 @@ def forward(func):
     return wrapped
 
 
+def undo_on_error(func):
+    """Undo a change of the config that is invalid or refused by an observer"""
+
+    @functools.wraps(func)
+    def wrapped(self, *args, **kwargs):
+        config = dict(**self._config)
+        try:
+            return func(self, *args, **kwargs)
+        except Exception:
+            self._config = config
+            self._notify()
+            raise
+
+    return wrapped
+
+
 def save_config(path, config):
     LOG.debug("Saving config")
     from filelock import FileLock
@@ -334,6 +350,7 @@ class Config:
         return getter(name, value, none_ok)
 
     @forward
+    @undo_on_error
     def set(self, *args, **kwargs):
         """[summary]
 
@@ -427,6 +444,7 @@ class Config:
         LOG.debug(f"_set {name}={value} stack_size={len(self._stack)}")
 
     @forward
+    @undo_on_error
     def reset(self, name: str = None):
         """Reset config to default values.
 
@@ -498,9 +516,9 @@ class Config:
             yield ((k, v, CONFIG_AND_HELP.get(k)))
 
     def _changed(self):
+        self._notify()
         if self._auto_save_config:
             self._save()
-        self._notify()
 
     def _notify(self):
         if self._notify_enabled:
-- 
2.43.0


From cab92932b6c18077dba7c0e4c2de166366e82b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 09/58] fix: convert boolean config options given as text, e.g.
 by environment variables

---
 src/earthkit/regrid/utils/config.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 7f2241b..06945d2 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -193,10 +193,12 @@ CONFIG_AND_HELP = {
     "check-out-of-date-urls": _(
         False,
         "Perform a HTTP request to check if the remote version of a cache file has changed",
+        getter="_as_bool",
     ),
     "download-out-of-date-urls": _(
         False,
         "Re-download URLs when the remote version of a cached file as been changed",
+        getter="_as_bool",
     ),
     "maximum-weights-memory-cache-size": _(
         "500MB",
@@ -218,6 +220,7 @@ CONFIG_AND_HELP = {
         """Raise exception if the weights cannot be fitted into the in-memory cache.
         Only used when ``weights-memory-cache-policy`` is ``"largest"`` or ``"lru"``.
         See :ref:`mem_cache` for more information.""",
+        getter="_as_bool",
     ),
 }
 
@@ -565,6 +568,16 @@ class Config:
             return None
         return str(value)
 
+    def _as_bool(self, name, value, none_ok):
+        if isinstance(value, str):
+            v = value.replace('"', "").replace("'", "").strip().lower()
+            if v in ("true", "yes", "on", "1"):
+                return True
+            if v in ("false", "no", "off", "0", ""):
+                return False
+            raise ValueError(f"Config option '{name}' cannot be set to {value}. Must be True or False.")
+        return bool(value)
+
     def _as_int(self, name, value, none_ok):
         if value is None and none_ok:
             return None
-- 
2.43.0


From 95cb4a69e7f8f23852c84a13429fbc51207493b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 10/58] fix: save the config file atomically

---
 src/earthkit/regrid/utils/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 06945d2..7de7805 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -275,7 +275,10 @@ def save_config(path, config):
 
     lock = path + ".lock"
     with FileLock(lock):
-        with open(path, "w") as f:
+        # an interrupted save must not damage the existing file
+        target = os.path.realpath(path)
+        tmp = target + ".tmp"
+        with open(tmp, "w") as f:
             print("# This file is automatically generated", file=f)
             print(file=f)
 
@@ -292,6 +295,7 @@ def save_config(path, config):
             print(file=f)
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
+        os.replace(tmp, target)
     try:
         os.unlink(lock)
     except OSError:
-- 
2.43.0


From 0f0b03a79d8d955093d74e11a3f9acd8620ad0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 11/58] fix: do not leave an empty index behind when loading it
 fails

---
 src/earthkit/regrid/backends/db.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 2b74bd5..294e79a 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,10 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
+        index = MatrixIndex()
         path = self._accessor.index_path()
-        self._index.load(path)
+        index.load(path)
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From a3d508c1d13e7de81849117f08c70c5df60cddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 12/58] fix: check the remote index again when fetching the new
 index failed

---
 src/earthkit/regrid/backends/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 294e79a..72c5de0 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -116,6 +116,8 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        # only now it is sure that the index is up to date
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +141,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +163,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
-- 
2.43.0


From cddf9174b61db2f499dbf768f284bc8bc1d13476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 13/58] fix: do not cache an invalid remote index

---
 src/earthkit/regrid/backends/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 72c5de0..86d2c61 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -178,6 +178,9 @@ class UrlAccessor(MatrixAccessor):
                 with open(target, "wb") as f_out:
                     f_out.write(data)
 
+            # an invalid index must not get into the cache
+            MatrixIndex().load(target)
+
             with open(target, "r") as f:
                 data = f.read()
                 sha = make_sha(data)
-- 
2.43.0


From f0455695fb6904d94ece01e5c886e01fe60e4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 14/58] fix: keep the cached file when its forced refresh fails

---
 src/earthkit/regrid/utils/caching.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e4a52dd..2d9d36a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1011,16 +1011,21 @@ def cache_file(
 
             if force:
                 LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
-                record = CACHE._register_cache_file(path, owner, args)
+        else:
+            force = False
 
-        if not os.path.exists(path):
+        if force or not os.path.exists(path):
             from filelock import FileLock
 
             lock = path + ".lock"
             with FileLock(lock):
-                if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                # Check again, another thread/process may have created the file
+                if force or not os.path.exists(path):
                     owner_data = create(path + ".tmp", args)
+                    if os.path.exists(path):
+                        # the file to replace is kept until the new one is available
+                        CACHE._decache_file(path)
+                        CACHE._register_cache_file(path, owner, args)
                     os.rename(path + ".tmp", path)
                     LOG.info(f"cache file created: {path=}")
                     CACHE._update_entry(path, owner_data)
-- 
2.43.0


From 20530150f5cb20345fa474ad40823962ade37f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 15/58] fix: purge empty files as well

---
 src/earthkit/regrid/utils/caching.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 2d9d36a..565adcf 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -204,8 +204,7 @@ class CacheManager(threading.Thread):
         if matcher is None:
             self._housekeeping(clean=True)
             # _update_cache(clean=True)
-            self._decache(self._cache_size(), purge=True)
-            return
+            matcher = lambda entry: True  # noqa: E731
 
         dump = self._dump_cache_database(matcher)
         for entry in dump:
-- 
2.43.0


From 72e30171433b860c312432e4c9c6537fa66939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 16/58] fix: summarise the cache when there are unfinished
 entries

---
 src/earthkit/regrid/utils/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 565adcf..52f9026 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -550,11 +550,12 @@ class CacheManager(threading.Thread):
         return result
 
     def _summary_dump_cache_database(self, matcher=lambda x: True):
-        result = self._dump_cache_database(matcher=matcher)
+        result = [r for r in self._dump_cache_database(matcher=matcher) if os.path.exists(r["path"])]
         count = len(result)
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            # the size is not yet known while the file is being created
+            size += r["size"] or 0
         return count, size
 
 
-- 
2.43.0


From d9c61b0acbfcd07a3669e2d46ae624656c91923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 17/58] fix: keep track of a file when the cache is purged
 while it is being created

---
 src/earthkit/regrid/utils/caching.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 52f9026..bff6580 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -224,9 +224,15 @@ class CacheManager(threading.Thread):
                     result.append(n)
         return result
 
-    def _update_entry(self, path, owner_data=None):
+    def _update_entry(self, path, owner_data=None, owner=None, args=None):
         self._ensure_in_cache(path)
 
+        with self.connection as db:
+            known = db.execute("SELECT count(*) FROM cache WHERE path=?", (path,)).fetchone()[0]
+        if not known:
+            # the entry was removed from the database while its file was being created
+            self._register_cache_file(path, owner, args)
+
         if os.path.isdir(path):
             kind = "directory"
             size = 0
@@ -1028,7 +1034,7 @@ def cache_file(
                         CACHE._register_cache_file(path, owner, args)
                     os.rename(path + ".tmp", path)
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data)
+                    CACHE._update_entry(path, owner_data, owner, args)
                     CACHE.check_size()
 
             try:
-- 
2.43.0


From 135e2320e69837010c49de30acdfe095b6922723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 18/58] fix: forget the cache entry of a file that could not be
 created

---
 src/earthkit/regrid/utils/caching.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index bff6580..8faa966 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -494,6 +494,12 @@ class CacheManager(threading.Thread):
     def _decache_file(self, path):
         self._delete_entry(path)
 
+    def _discard_entry(self, path):
+        """Forget the entry of a file that could not be created"""
+        if not os.path.exists(path):
+            with self.connection as db:
+                db.execute("DELETE FROM cache WHERE path=? AND size IS NULL", (path,))
+
     def _check_cache_size(self):
         if self._policy.managed():
             # Check absolute limit
@@ -851,6 +857,9 @@ class Cache:
     def _decache_file(self, *args, **kwargs):
         return self._call_manager(False, "decache_file", *args, **kwargs)
 
+    def _discard_entry(self, *args, **kwargs):
+        return self._call_manager(False, "discard_entry", *args, **kwargs)
+
     def check_size(self, *args, **kwargs):
         """Check the cache size and trim it down when needed.
 
@@ -1027,7 +1036,11 @@ def cache_file(
             with FileLock(lock):
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
-                    owner_data = create(path + ".tmp", args)
+                    try:
+                        owner_data = create(path + ".tmp", args)
+                    except BaseException:
+                        CACHE._discard_entry(path)
+                        raise
                     if os.path.exists(path):
                         # the file to replace is kept until the new one is available
                         CACHE._decache_file(path)
-- 
2.43.0


From d9ec2f24dfde8f1e81b389434c223946a1823cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 19/58] fix: do not reuse the leftovers of an interrupted
 creation

---
 src/earthkit/regrid/utils/caching.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 8faa966..345bec7 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -947,6 +947,14 @@ class Cache:
 CACHE = Cache()
 
 
+def _remove_leftover(path):
+    """Remove what an interrupted creation left behind"""
+    if os.path.isdir(path) and not os.path.islink(path):
+        shutil.rmtree(path)
+    elif os.path.lexists(path):
+        os.unlink(path)
+
+
 def cache_file(
     owner: str,
     create,
@@ -1036,6 +1044,7 @@ def cache_file(
             with FileLock(lock):
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
+                    _remove_leftover(path + ".tmp")
                     try:
                         owner_data = create(path + ".tmp", args)
                     except BaseException:
-- 
2.43.0


From 2e64c8890fcb987e4ddb002fa950e65977cae4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 20/58] fix: do not suspend the cache size limit because of a
 creation that died

---
 src/earthkit/regrid/utils/caching.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 345bec7..36c2ec4 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -191,7 +191,8 @@ class CacheManager(threading.Thread):
         So we do not purge files being downloaded.
         """
         with self.connection as db:
-            latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
+            unfinished = db.execute("SELECT path, creation_date FROM cache WHERE size IS NULL").fetchall()
+            latest = min((n["creation_date"] for n in unfinished if self._being_created(n["path"])), default=None)
             if latest is None:
                 latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
                     0
@@ -200,6 +201,21 @@ class CacheManager(threading.Thread):
                 latest = datetime.datetime.now()
             return latest
 
+    @staticmethod
+    def _being_created(path):
+        """Check if the file is being created now, i.e. a thread or process holds its lock"""
+        from filelock import FileLock
+        from filelock import Timeout
+
+        lock = path + ".lock"
+        if not os.path.exists(lock):
+            return False
+        try:
+            with FileLock(lock, timeout=0):
+                return False
+        except Timeout:
+            return True
+
     def _purge_cache(self, matcher=None):
         if matcher is None:
             self._housekeeping(clean=True)
-- 
2.43.0


From 0524c010b97fe12c6f5bbd6f8c9ba9fc1d27059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 21/58] fix: keep the lock and partial files of a creation in
 progress when purging the cache

---
 src/earthkit/regrid/utils/caching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 36c2ec4..765771a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -322,6 +322,9 @@ class CacheManager(threading.Thread):
                         parent = n["path"]
                         break
 
+                if parent is not None and self._being_created(parent):
+                    continue
+
                 try:
                     s = os.stat(full)
                     if time.time() - s.st_mtime < 120:  # Two minutes
-- 
2.43.0


From d2ecc798766b7154908c52b02add7f0c1ee5d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 22/58] fix: resume an interrupted download only when the
 remote file has not changed

---
 src/earthkit/regrid/utils/download.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..61996c5 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -9,6 +9,7 @@
 
 
 import logging
+import os
 
 from multiurl import Downloader
 
@@ -92,7 +93,26 @@ def download_and_cache(
         force = out_of_date
 
     def download(target, _):
+        # An interrupted download is only resumed when the remote file is known to be the same
+        partial = target + ".download"
+        tag_file = partial + ".etag"
+        headers = downloader.cache_data() or {}
+        tag = headers.get("etag")
+        if os.path.exists(partial):
+            same = False
+            if tag is not None and os.path.exists(tag_file):
+                with open(tag_file) as f:
+                    same = f.read() == tag
+            if not same or os.path.getsize(partial) >= int(headers.get("content-length", 0)):
+                os.unlink(partial)
+        if tag is not None:
+            with open(tag_file, "w") as f:
+                f.write(tag)
+
         downloader.download(target)
+
+        if os.path.exists(tag_file):
+            os.unlink(tag_file)
         return downloader.cache_data()
 
     path = cache_file(
-- 
2.43.0


From 05a2a7202aaeb9ecfe7486edbc3c6bb8d73be278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 23/58] fix: pass all the interpolation options to MIR for
 arrays, in the form MIR accepts

---
 src/earthkit/regrid/backends/mir.py | 58 ++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..53d34f2 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -40,6 +40,21 @@ class MirBackend(Backend):
             kwargs["area"] = MirBackend.normalise_area(area)
         return grid, kwargs
 
+    @staticmethod
+    def engine_options(interpolation, nearest_method, distance, distance_tolerance, nclosest):
+        """Return the options in the form MIR accepts them."""
+        options = {
+            "interpolation": interpolation,
+            "distance": float(distance),
+            "distance_tolerance": float(distance_tolerance),
+            "nclosest": nclosest,
+        }
+        # MIR has no "automatic" method, it uses its default when the option is not set. All
+        # the names are spelled with dashes in MIR.
+        if nearest_method != "automatic":
+            options["nearest_method"] = nearest_method.replace("_", "-")
+        return options
+
     def regrid(
         self,
         values,
@@ -53,23 +68,23 @@ class MirBackend(Backend):
     ):
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
-
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, options = self.adjust_options(
+            out_grid,
+            self.engine_options(
+                interpolation=interpolation,
+                nearest_method=nearest_method,
+                distance=distance,
+                distance_tolerance=distance_tolerance,
+                nclosest=nclosest,
+            ),
+        )
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
-        for k, v in kwargs.items():
+        for k, v in options.items():
             job.set(k, v)
 
         job.execute(input, out)
@@ -91,22 +106,23 @@ class MirBackend(Backend):
 
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
-
-        out_grid, kwargs = self.adjust_options(grid, kwargs)
+        out_grid, options = self.adjust_options(
+            grid,
+            self.engine_options(
+                interpolation=interpolation,
+                nearest_method=nearest_method,
+                distance=distance,
+                distance_tolerance=distance_tolerance,
+                nclosest=nclosest,
+            ),
+        )
 
         in_data = mir.GribMemoryInput(message)
         out = BytesIO()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        for k, v in kwargs.items():
+        for k, v in options.items():
             job.set(k, v)
 
         job.execute(in_data, out)
-- 
2.43.0


From bc3fcbdb64d9017f3432cf8adc49a56876f8170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 24/58] fix: do not truncate the regridded values of integer
 xarray variables

---
 src/earthkit/regrid/data/xarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..b3e1288 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -287,6 +287,7 @@ class XarrayDataHandler(DataHandler):
         in_dims = ensure_list(in_dims)
         out_dims = ensure_list(out_dims)
 
+        import numpy as np
         import xarray as xr
 
         exclude_dims = set()
@@ -325,7 +326,8 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                # the regridded values are not integers even if the input values are
+                output_dtypes=[da.dtype if np.issubdtype(da.dtype, np.floating) else np.dtype(float)],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From abec7d6bfd633321e20bcfd2ddb8d9d7e63faea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 25/58] fix: do not keep the gridspec of the input in regridded
 xarray objects

---
 src/earthkit/regrid/data/xarray.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index b3e1288..fd4f393 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -222,9 +222,10 @@ class XarrayDataHandler(DataHandler):
         # TODO: ensure the grid_spec is always available on an Xarray.
         # This probably should be implemented in earthkit-geo.
         try:
+            user_grid = kwargs.pop("grid_spec", None)
             in_grid = ds.attrs.get("gridspec", None)
             if in_grid is None:
-                in_grid = kwargs.pop("grid_spec", None)
+                in_grid = user_grid
             if in_grid is None:
                 in_grid = ds.earthkit.grid_spec
         except AttributeError:
@@ -344,6 +345,11 @@ class XarrayDataHandler(DataHandler):
 
         self.add_geo_coords(ds_out, out_geo)
 
+        # attributes can be copied from the input
+        for v in [ds_out, *(ds_out.data_vars.values() if isinstance(ds_out, xr.Dataset) else [])]:
+            if "gridspec" in v.attrs:
+                v.attrs["gridspec"] = method.out_grid
+
         return ds_out
 
 
-- 
2.43.0


From 9f777f3fe50d855528f78667ac91dd792e7917ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 26/58] fix: keep weights that fill the memory cache exactly

---
 src/earthkit/regrid/utils/memcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 15eaf9c..fe8d4a7 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -124,7 +124,7 @@ class LRUPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, item = self.cache.items.popitem(0)
             self.cache.curr_mem -= item.size
             del item
@@ -152,7 +152,7 @@ class LargestPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, largest = max((v.size, k) for k, v in self.cache.items.items())
             self.cache.curr_mem -= self.cache.items[largest].size
             if self.cache.curr_mem < 0:
-- 
2.43.0


From 0bbb903a9a2e83208a55e58ec7fdda461bd33ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 27/58] fix: do not empty the lru memory cache for weights that
 cannot fit

---
 src/earthkit/regrid/utils/memcache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index fe8d4a7..599d667 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -244,9 +244,12 @@ class MemoryCache:
             self.misses += 1
 
             if data[0] is not None:
-                self.items[key] = _MemoryItem(data, self.size_fn(data[0]), time.time())
-                self.curr_mem += self.items[key].size
-                self._reduce()
+                size = self.size_fn(data[0])
+                # weights that cannot fit must not push the other ones out
+                if not self.policy.has_limit() or size <= self.max_mem:
+                    self.items[key] = _MemoryItem(data, size, time.time())
+                    self.curr_mem += size
+                    self._reduce()
 
             return data
 
-- 
2.43.0


From 1587a3dd3e9d199b8b7e88e480c6aa2e5a69bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 28/58] fix: skip index entries with unknown interpolation
 methods

---
 src/earthkit/regrid/backends/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 86d2c61..5f0acff 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -314,7 +314,9 @@ class MatrixIndex(dict):
                 # it is possible that the inventory is already updated with a new
                 # gridspecs type, but a given earthkit-regrid version is not
                 # yet supporting it. In this case loading the index should not crash.
+                # The same applies to the interpolation methods.
                 try:
+                    self.interpolation_method_name(entry)
                     in_gs = GridSpec.from_dict(entry["input"])
                     out_gs = GridSpec.from_dict(entry["output"])
                     raw = entry
-- 
2.43.0


From f2abcd1c11a3bd52813d9de29e6ce4dfab756d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 29/58] fix: accept target paths given as str when converting
 MIR matrices

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From 530e57f4412cf688800183baa98c940470b854b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 30/58] fix: do not share grid definition files between
 different coordinates

---
 src/earthkit/regrid/utils/mir.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..f460b07 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -98,8 +98,9 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
-    hash = hashlib.md5(coord.encode()).hexdigest()
+    # the text of a large array is abbreviated, it must not be used to identify the coordinates
+    coord = [str(version).encode(), *(np.asarray(x, dtype="<f8").tobytes() for x in (lat, lon))]
+    hash = hashlib.md5(b"".join(coord)).hexdigest()
 
     name = Path(hash + ".griddef")
     if dir:
-- 
2.43.0


From dd42e84a7a24f6eba023591117212c58ceaf0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 31/58] fix: keep the working cache policy when a new one
 cannot be set up

---
 src/earthkit/regrid/utils/caching.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 765771a..e0e9cc2 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -822,8 +822,17 @@ class Cache:
             with self._policy_lock:
                 # Check again, another thread/process may have modified the policy
                 if self._policy.outdated():
+                    current = self._policy
                     self._policy = None
-                    self._make_policy()
+                    try:
+                        self._make_policy()
+                    except Exception:
+                        # the new settings cannot be used, keep the working policy
+                        self._policy = current
+                        if current.managed():
+                            with self._manager_lock:
+                                self._call_manager_config_changed()
+                        raise
         elif self.policy.update() and self.policy.managed():
             with self._manager_lock:
                 self._call_manager_config_changed()
-- 
2.43.0


From 7436e31f647e67b77a11e66032b94b642aa5c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 32/58] fix: do not create the user cache directory for the
 temporary cache policy

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e0e9cc2..a7354c9 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -765,7 +765,8 @@ class TmpCachePolicy(UserCachePolicy):
     _name = "temporary"
 
     def __init__(self):
-        super().__init__()
+        # the user-cache-directory is not used, it must not be created
+        super(UserCachePolicy, self).__init__()
         root_dir = self._expand_path(self._config.get("temporary-cache-directory-root"))
         self._dir = temp_directory(dir=root_dir)
 
-- 
2.43.0


From 2d5269dfd83477262eb245f53719073c34aa6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 33/58] fix: treat the re-creation of a lost or unfinished
 cache file as a new entry

---
 src/earthkit/regrid/utils/caching.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index a7354c9..ad6b76e 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -502,6 +502,14 @@ class CacheManager(threading.Thread):
 
             return dict(db.execute("SELECT * FROM cache WHERE path=?", (path,)).fetchone())
 
+    def _start_creation(self, path, owner, args):
+        """Register a file which is about to be created. Replaces the entry left behind by a creation
+        that died or by a file that was lost.
+        """
+        with self.connection as db:
+            db.execute("DELETE FROM cache WHERE path=?", (path,))
+            self._register_cache_file(path, owner, args)
+
     def _cache_size(self):
         LOG.debug("cache_size")
         with self.connection as db:
@@ -886,6 +894,9 @@ class Cache:
     def _decache_file(self, *args, **kwargs):
         return self._call_manager(False, "decache_file", *args, **kwargs)
 
+    def _start_creation(self, *args, **kwargs):
+        return self._call_manager(False, "start_creation", *args, **kwargs)
+
     def _discard_entry(self, *args, **kwargs):
         return self._call_manager(False, "discard_entry", *args, **kwargs)
 
@@ -1073,6 +1084,8 @@ def cache_file(
             with FileLock(lock):
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
+                    if not os.path.exists(path):
+                        CACHE._start_creation(path, owner, args)
                     _remove_leftover(path + ".tmp")
                     try:
                         owner_data = create(path + ".tmp", args)
-- 
2.43.0


From 8b50d17825365309eee517fdc4a2a236fa0f8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 34/58] fix: account for cache files whose creating process
 died before recording their size

---
 src/earthkit/regrid/utils/caching.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index ad6b76e..b2c0fcf 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -227,6 +227,7 @@ class CacheManager(threading.Thread):
             self._delete_entry(entry)
 
     def _cache_entries(self):
+        self._update_cache()
         result = []
         with self.connection as db:
             for n in db.execute("SELECT * FROM cache").fetchall():
@@ -271,7 +272,9 @@ class CacheManager(threading.Thread):
             )
 
     def _update_cache(self, clean=False):
-        """Update cache size and size of each file in the database ."""
+        """Update the size of each file in the database when it is not known, e.g. because the process
+        that created the file died before it could record it.
+        """
         with self.connection as db:
             update = []
             commit = False
@@ -512,6 +515,7 @@ class CacheManager(threading.Thread):
 
     def _cache_size(self):
         LOG.debug("cache_size")
+        self._update_cache()
         with self.connection as db:
             size = db.execute("SELECT SUM(size) FROM cache").fetchone()[0]
             if size is None:
@@ -577,6 +581,7 @@ class CacheManager(threading.Thread):
         return "".join(html)
 
     def _dump_cache_database(self, matcher=lambda x: True):
+        self._update_cache()
         result = []
         with self.connection as db:
             for d in db.execute("SELECT * FROM cache"):
-- 
2.43.0


From 8e1d61a6f93590faf95d13304e360b2e563ad68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 35/58] fix: do not register files that are gone as orphans of
 the cache

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b2c0fcf..8378158 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -333,7 +333,8 @@ class CacheManager(threading.Thread):
                     if time.time() - s.st_mtime < 120:  # Two minutes
                         continue
                 except OSError:
-                    pass
+                    # removed in the meantime, e.g. the lock of a creation that has just finished
+                    continue
 
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
-- 
2.43.0


From c9cad226958628a7f7ecf6ee9740d136d983bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 36/58] fix: record the shape of all grids in the inventory
 index

---
 src/earthkit/regrid/utils/builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 241ce71..e840ac5 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -135,11 +135,19 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     # get matrix size
     z = load_npz(npz_file)
     mem_size = matrix_memory_size(z)
+    shape = z.shape
     z = None
 
+    grid_input = convert(entry["input"])
+    grid_output = convert(entry["output"])
+
+    # not all the grids come with their shape but the matrix cannot be used without it
+    grid_input.setdefault("shape", [shape[1]])
+    grid_output.setdefault("shape", [shape[0]])
+
     index["matrix"][key] = dict(
-        input=convert(entry["input"]),
-        output=convert(entry["output"]),
+        input=grid_input,
+        output=grid_output,
         interpolation=entry["interpolation"],
         nnz=entry["matrix"]["nnz"],
         memory=mem_size,
-- 
2.43.0


From 16f6b0f3133aa816a8d2ad1600103d12cabe2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 37/58] fix: do not overwrite weights when the inventory index
 is refused

---
 src/earthkit/regrid/utils/builder.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index e840ac5..42c628f 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -87,6 +87,19 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     else:
         entry["interpolation"]["method"] = method_name
 
+    if index_file is None:
+        index_file = os.path.join(output_path, "index.json")
+
+    if os.path.exists(index_file):
+        with open(index_file) as f:
+            index = json.load(f)
+            if index.get("version", None) != VERSION:
+                raise ValueError(f"{index_file=} version must be {VERSION}")
+    else:
+        index = {}
+        index["version"] = VERSION
+        index["matrix"] = {}
+
     # create output folder
     matrix_output_path = os.path.join(
         output_path,
@@ -109,19 +122,6 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     npz_file = os.path.join(matrix_output_path, f"{name}.npz")
     mir_cached_matrix_to_file(cache_file, npz_file)
 
-    if index_file is None:
-        index_file = os.path.join(output_path, "index.json")
-
-    if os.path.exists(index_file):
-        with open(index_file) as f:
-            index = json.load(f)
-            if index.get("version", None) != VERSION:
-                raise ValueError(f"{index_file=} version must be {VERSION}")
-    else:
-        index = {}
-        index["version"] = VERSION
-        index["matrix"] = {}
-
     def convert(x):
         proc = globals()[x["type"]]
         return proc(x)
-- 
2.43.0


From fbc960a3866c20fb7cfa2dfc95e9705472492ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 38/58] fix: create the MIR cache directory when it is missing

---
 src/earthkit/regrid/utils/mir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index f460b07..143816b 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import os
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -104,6 +105,8 @@ def _griddef_from_latlon(lat, lon, dir=None):
 
     name = Path(hash + ".griddef")
     if dir:
+        # MIR only creates its cache when it needs it
+        os.makedirs(dir, exist_ok=True)
         name = dir / name
 
     if not name.exists():
-- 
2.43.0


From f2ff8f3f3be87dea87cc2ce88c261298c7232b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 39/58] fix: keep a good cache file until its replacement takes
 its place

---
 src/earthkit/regrid/utils/caching.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 8378158..1677b0b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -514,6 +514,17 @@ class CacheManager(threading.Thread):
             db.execute("DELETE FROM cache WHERE path=?", (path,))
             self._register_cache_file(path, owner, args)
 
+    def _start_replacement(self, path, target, owner, args):
+        """Register a file which is about to be replaced by ``target``"""
+        if os.path.isdir(path) or os.path.isdir(target):
+            # a directory cannot be replaced in one step
+            self._decache_file(path)
+        else:
+            with self.connection as db:
+                for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)):
+                    self._delete_entry(child)
+        self._start_creation(path, owner, args)
+
     def _cache_size(self):
         LOG.debug("cache_size")
         self._update_cache()
@@ -903,6 +914,9 @@ class Cache:
     def _start_creation(self, *args, **kwargs):
         return self._call_manager(False, "start_creation", *args, **kwargs)
 
+    def _start_replacement(self, *args, **kwargs):
+        return self._call_manager(False, "start_replacement", *args, **kwargs)
+
     def _discard_entry(self, *args, **kwargs):
         return self._call_manager(False, "discard_entry", *args, **kwargs)
 
@@ -1100,9 +1114,8 @@ def cache_file(
                         raise
                     if os.path.exists(path):
                         # the file to replace is kept until the new one is available
-                        CACHE._decache_file(path)
-                        CACHE._register_cache_file(path, owner, args)
-                    os.rename(path + ".tmp", path)
+                        CACHE._start_replacement(path, path + ".tmp", owner, args)
+                    os.replace(path + ".tmp", path)
                     LOG.info(f"cache file created: {path=}")
                     CACHE._update_entry(path, owner_data, owner, args)
                     CACHE.check_size()
-- 
2.43.0


From 13471542de9e6f27edabbbda553841b7c755f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 40/58] fix: make configuration changes atomic between threads

---
 src/earthkit/regrid/utils/config.py   | 27 +++++++++++++++++++++++----
 src/earthkit/regrid/utils/memcache.py | 22 ++++++++++++++--------
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 7de7805..4fdc955 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -10,6 +10,7 @@
 import functools
 import logging
 import os
+import threading
 import warnings
 from abc import ABCMeta
 from abc import abstractmethod
@@ -231,16 +232,32 @@ for k, v in CONFIG_AND_HELP.items():
     DEFAULTS[k] = v.default
 
 
+# Only one thread at a time can change the config and notify the observers
+_CHANGE_LOCK = threading.RLock()
+
+
 @contextmanager
 def new_config(s):
     """Context manager to create new config"""
-    CONFIG._stack.append(s)
+    with _CHANGE_LOCK:
+        CONFIG._stack.append(s)
     try:
-        CONFIG._notify()
+        with _CHANGE_LOCK:
+            CONFIG._notify()
         yield None
     finally:
-        CONFIG._stack.pop()
-        CONFIG._notify()
+        with _CHANGE_LOCK:
+            CONFIG._stack.pop()
+            CONFIG._notify()
+
+
+def one_at_a_time(func):
+    @functools.wraps(func)
+    def wrapped(self, *args, **kwargs):
+        with _CHANGE_LOCK:
+            return func(self, *args, **kwargs)
+
+    return wrapped
 
 
 def forward(func):
@@ -356,6 +373,7 @@ class Config:
 
         return getter(name, value, none_ok)
 
+    @one_at_a_time
     @forward
     @undo_on_error
     def set(self, *args, **kwargs):
@@ -450,6 +468,7 @@ class Config:
 
         LOG.debug(f"_set {name}={value} stack_size={len(self._stack)}")
 
+    @one_at_a_time
     @forward
     @undo_on_error
     def reset(self, name: str = None):
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 599d667..ef2262a 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -307,14 +307,20 @@ class MemoryCache:
                 return False
 
             with self.lock:
-                if any(
-                    [
-                        _update("max_mem", self.MAX_SIZE_KEY),
-                        _update("strict", self.STRICT_KEY),
-                        _update_policy(),
-                    ]
-                ):
-                    self._reduce()
+                current = self.max_mem, self.strict, self.policy
+                try:
+                    if any(
+                        [
+                            _update("max_mem", self.MAX_SIZE_KEY),
+                            _update("strict", self.STRICT_KEY),
+                            _update_policy(),
+                        ]
+                    ):
+                        self._reduce()
+                except Exception:
+                    # nobody must see settings that cannot be used
+                    self.max_mem, self.strict, self.policy = current
+                    raise
 
     def _reduce(self, target_size=None):
         # must be called within a lock
-- 
2.43.0


From 707440d30c987a9bebe96474ac7499fa5923be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 41/58] fix: remove the lock of a cache file while it is held

---
 src/earthkit/regrid/utils/caching.py | 45 +++++++++++++++-------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 1677b0b..c906326 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1102,28 +1102,31 @@ def cache_file(
 
             lock = path + ".lock"
             with FileLock(lock):
-                # Check again, another thread/process may have created the file
-                if force or not os.path.exists(path):
-                    if not os.path.exists(path):
-                        CACHE._start_creation(path, owner, args)
-                    _remove_leftover(path + ".tmp")
+                try:
+                    # Check again, another thread/process may have created the file
+                    if force or not os.path.exists(path):
+                        if not os.path.exists(path):
+                            CACHE._start_creation(path, owner, args)
+                        _remove_leftover(path + ".tmp")
+                        try:
+                            owner_data = create(path + ".tmp", args)
+                        except BaseException:
+                            CACHE._discard_entry(path)
+                            raise
+                        if os.path.exists(path):
+                            # the file to replace is kept until the new one is available
+                            CACHE._start_replacement(path, path + ".tmp", owner, args)
+                        os.replace(path + ".tmp", path)
+                        LOG.info(f"cache file created: {path=}")
+                        CACHE._update_entry(path, owner_data, owner, args)
+                        CACHE.check_size()
+                finally:
+                    # removed while it is held: once it is released another thread/process may
+                    # hold it, and a third one would not see that if the file was gone
                     try:
-                        owner_data = create(path + ".tmp", args)
-                    except BaseException:
-                        CACHE._discard_entry(path)
-                        raise
-                    if os.path.exists(path):
-                        # the file to replace is kept until the new one is available
-                        CACHE._start_replacement(path, path + ".tmp", owner, args)
-                    os.replace(path + ".tmp", path)
-                    LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data, owner, args)
-                    CACHE.check_size()
-
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+                        os.unlink(lock)
+                    except OSError:
+                        pass
 
     else:
         # path can be a file or a directory. We have to make the name unique.
-- 
2.43.0


From 260bebe3a34e2eafa1ff3baf67537f1b9595d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 42/58] fix: leave the files of a creation alone when its entry
 is gone

---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index c906326..e54dc10 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -325,7 +325,9 @@ class CacheManager(threading.Thread):
                         parent = n["path"]
                         break
 
-                if parent is not None and self._being_created(parent):
+                # the entry may have been removed from the database while its file is being created
+                base = full.rsplit(".", 1)[0] if full.endswith((".tmp", ".lock")) else full
+                if self._being_created(base if parent is None else parent):
                     continue
 
                 try:
-- 
2.43.0


From 58c86cfc8509b8fbe0c2b76585942b5e11296510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 43/58] fix: forget the leftover of a dead creation when it is
 removed

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e54dc10..566f67d 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1110,6 +1110,7 @@ def cache_file(
                         if not os.path.exists(path):
                             CACHE._start_creation(path, owner, args)
                         _remove_leftover(path + ".tmp")
+                        CACHE._discard_entry(path + ".tmp")
                         try:
                             owner_data = create(path + ".tmp", args)
                         except BaseException:
-- 
2.43.0


From bdb70988f8bb7b0bc7dfbfffff0adb396da00922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 44/58] fix: evict orphans before the newest file of the cache

---
 src/earthkit/regrid/utils/caching.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 566f67d..2db0103 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -194,9 +194,10 @@ class CacheManager(threading.Thread):
             unfinished = db.execute("SELECT path, creation_date FROM cache WHERE size IS NULL").fetchall()
             latest = min((n["creation_date"] for n in unfinished if self._being_created(n["path"])), default=None)
             if latest is None:
-                latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
-                    0
-                ]
+                # orphans have the date when they were found
+                latest = db.execute(
+                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner<>'orphans'"
+                ).fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
@@ -441,11 +442,11 @@ class CacheManager(threading.Thread):
         with self.connection as db:
             latest = datetime.datetime.now() if purge else self._latest_date()
 
-            for stmt in (
-                "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
-                "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
+            for stmt, args in (
+                ("SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans'", ()),
+                ("SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC", (latest,)),
             ):
-                for entry in db.execute(stmt, (latest,)):
+                for entry in db.execute(stmt, args):
                     total += self._delete_entry(entry)
                     if total >= bytes:
                         LOG.warning(
-- 
2.43.0


From 48abf639b7bc7b2adfabfc7be09e1a2ce767c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 45/58] fix: remove the lock of the configuration file while it
 is held

---
 src/earthkit/regrid/utils/config.py | 53 +++++++++++++++--------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 4fdc955..054ac98 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -292,31 +292,34 @@ def save_config(path, config):
 
     lock = path + ".lock"
     with FileLock(lock):
-        # an interrupted save must not damage the existing file
-        target = os.path.realpath(path)
-        tmp = target + ".tmp"
-        with open(tmp, "w") as f:
-            print("# This file is automatically generated", file=f)
-            print(file=f)
-
-            for k, v in sorted(config.items()):
-                h = CONFIG_AND_HELP.get(k)
-                if h:
-                    print(file=f)
-                    print("#", "-" * 76, file=f)
-                    h.save(k, v, f)
-
-            print(file=f)
-            print("#", "-" * 76, file=f)
-            print("# Version of earthkit-regrid", file=f)
-            print(file=f)
-            yaml.dump({"version": VERSION}, f, default_flow_style=False)
-            print(file=f)
-        os.replace(tmp, target)
-    try:
-        os.unlink(lock)
-    except OSError:
-        pass
+        try:
+            # an interrupted save must not damage the existing file
+            target = os.path.realpath(path)
+            tmp = target + ".tmp"
+            with open(tmp, "w") as f:
+                print("# This file is automatically generated", file=f)
+                print(file=f)
+
+                for k, v in sorted(config.items()):
+                    h = CONFIG_AND_HELP.get(k)
+                    if h:
+                        print(file=f)
+                        print("#", "-" * 76, file=f)
+                        h.save(k, v, f)
+
+                print(file=f)
+                print("#", "-" * 76, file=f)
+                print("# Version of earthkit-regrid", file=f)
+                print(file=f)
+                yaml.dump({"version": VERSION}, f, default_flow_style=False)
+                print(file=f)
+            os.replace(tmp, target)
+        finally:
+            # removed while it is held: a third process would not see a lock that is gone
+            try:
+                os.unlink(lock)
+            except OSError:
+                pass
 
 
 def env_var_name(name):
-- 
2.43.0


From de087513ae452549f66eef862a0ac1665edac294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 46/58] fix: refuse GRIB messages without a target grid with a
 ValueError

regrid() of a GRIB message without the 'grid' argument failed with a
TypeError (argument of type 'NoneType' is not iterable) in the MIR backend,
while all the other input types raise ValueError.
---
 src/earthkit/regrid/data/grib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/data/grib.py b/src/earthkit/regrid/data/grib.py
index 6b9ab2b..9f73351 100644
--- a/src/earthkit/regrid/data/grib.py
+++ b/src/earthkit/regrid/data/grib.py
@@ -29,6 +29,10 @@ class GribMessageDataHandler(DataHandler):
 
     def regrid(self, values, **kwargs):
         backend = self.backend_from_kwargs(kwargs)
+
+        if kwargs.get("grid") is None:
+            raise ValueError("Missing 'grid' argument")
+
         if hasattr(backend, "regrid_grib"):
             if not isinstance(values, bytes):
                 from io import BytesIO
-- 
2.43.0


From b96c893ada7900adfbc38531aeb8c277eb1961e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 47/58] fix: give a list when an empty fieldlist is regridded
 with precomputed weights

---
 src/earthkit/regrid/data/fieldlist.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/data/fieldlist.py b/src/earthkit/regrid/data/fieldlist.py
index ad291c2..7c4cb4b 100644
--- a/src/earthkit/regrid/data/fieldlist.py
+++ b/src/earthkit/regrid/data/fieldlist.py
@@ -55,8 +55,6 @@ class FieldListDataHandler(DataHandler):
             return self._regrid_array(values, backend, grid, **kwargs)
 
     def _regrid_array(self, values, backend, grid, **kwargs):
-        import earthkit.data
-
         ds = values
         assert grid is not None
 
@@ -69,7 +67,7 @@ class FieldListDataHandler(DataHandler):
                 "Fieldlists can only be regridded to global regular lat-lon target grids. Target grid is {out_grid}"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -82,9 +80,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return ds.from_fields(r)
 
     def _regrid_grib(self, values, backend, grid, **kwargs):
         # TODO: remove this when ecCodes supports setting the gridSpec on a GRIB handle
-- 
2.43.0


From 275f6fdb0946690b967f808d99acf5ca0967dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 48/58] fix: find the geography of datasets whatever the order
 of their variables

---
 src/earthkit/regrid/data/xarray.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index fd4f393..b34490a 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -188,13 +188,15 @@ def xr_geo_dims(ds):
     """
     Determine the geographical dimensions of the dataset/dataarray.
     """
-    dims = list(ds.sizes.keys())
-    if len(ds.dims) >= 1:
-        if dims[-1] == "values":
-            return ["values"]
-    if len(dims) >= 2:
-        if dims[-2] == "latitude" and dims[-1] == "longitude":
-            return ["latitude", "longitude"]
+    # the order of the dimensions of a dataset depends on the order of its variables
+    for v in [ds, *getattr(ds, "data_vars", {}).values()]:
+        dims = list(v.sizes.keys())
+        if len(dims) >= 1:
+            if dims[-1] == "values":
+                return ["values"]
+        if len(dims) >= 2:
+            if dims[-2] == "latitude" and dims[-1] == "longitude":
+                return ["latitude", "longitude"]
 
     raise ValueError("Dataset geography is not supported.")
 
-- 
2.43.0


From 2a2b8a4444a3363133c4415290c1a73563929798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 49/58] fix: check the remote index again when the cached one
 could not be loaded

---
 src/earthkit/regrid/backends/db.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5f0acff..d7cf28d 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -499,7 +499,12 @@ class MatrixDb:
             LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
             LOG.info("Try to fetch remote index file to check for updates")
             self._accessor.reload()
-            self._load_index()
+            try:
+                self._load_index()
+            except Exception:
+                # the index was not used, it has to be checked again
+                self._accessor.reset()
+                raise
             entry = self.index.find(gridspec_in, gridspec_out, method)
 
         return entry
-- 
2.43.0


From a8e8e0b724dcec681b9452385ec0b22883b462a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 50/58] fix: use the configuration while another thread leaves
 a temporary one

---
 src/earthkit/regrid/utils/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 054ac98..6e53753 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -263,9 +263,9 @@ def one_at_a_time(func):
 def forward(func):
     @functools.wraps(func)
     def wrapped(self, *args, **kwargs):
-        if self._stack:
-            return func(self._stack[-1], *args, **kwargs)
-        return func(self, *args, **kwargs)
+        # another thread may be leaving a temporary config
+        top = self._stack[-1:]
+        return func(top[0] if top else self, *args, **kwargs)
 
     return wrapped
 
-- 
2.43.0


From 07f8b590f24c6e880671a75832ae259bc943abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 51/58] fix: leave a temporary configuration without removing
 that of another thread

---
 src/earthkit/regrid/utils/config.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 6e53753..24ca993 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -239,16 +239,24 @@ _CHANGE_LOCK = threading.RLock()
 @contextmanager
 def new_config(s):
     """Context manager to create new config"""
+
+    def leave():
+        # other threads may have entered theirs since
+        CONFIG._stack.remove(s)
+        CONFIG._notify()
+
     with _CHANGE_LOCK:
         CONFIG._stack.append(s)
-    try:
-        with _CHANGE_LOCK:
+        try:
             CONFIG._notify()
+        except BaseException:
+            leave()
+            raise
+    try:
         yield None
     finally:
         with _CHANGE_LOCK:
-            CONFIG._stack.pop()
-            CONFIG._notify()
+            leave()
 
 
 def one_at_a_time(func):
-- 
2.43.0


From 0b311d3ee37c9f092018ce65014071a92f8daf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 52/58] fix: reset an option without leaving it undefined for
 other threads

---
 src/earthkit/regrid/utils/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 24ca993..6d87d6d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -498,7 +498,6 @@ class Config:
             if name not in DEFAULTS:
                 raise KeyError("No config option name '%s'" % (name,))
 
-            self._config.pop(name, None)
             if name in DEFAULTS:
                 if self._has_env(name):
                     msg = (
-- 
2.43.0


From 766157464a7f01a2828f76a6051bf3e047b62305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 53/58] fix: do not start a temporary configuration from a
 change that is refused

---
 src/earthkit/regrid/utils/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 6d87d6d..fb2509b 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -626,6 +626,7 @@ class Config:
             return value.split(",")
         return list(value)
 
+    @one_at_a_time
     @forward
     def temporary(self, *args, config_yaml=None, **kwargs):
         tmp = Config(config_yaml, self._config)
-- 
2.43.0


From 92dc6b866d4db1c1b592bba4f9ce5f62a8f7cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 54/58] fix: restore the umask when the config directory
 appears meanwhile

---
 src/earthkit/regrid/utils/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index fb2509b..004dc20 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -705,8 +705,11 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                # another process may create it at the same time
+                os.makedirs(config_dir, 0o700, exist_ok=True)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
-- 
2.43.0


From b9a090d514f59166fbada1474df9f85c343d3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 55/58] fix: keep a configuration file that another process
 creates meanwhile

---
 src/earthkit/regrid/utils/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 004dc20..fe79831 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -294,13 +294,16 @@ def undo_on_error(func):
     return wrapped
 
 
-def save_config(path, config):
+def save_config(path, config, overwrite=True):
     LOG.debug("Saving config")
     from filelock import FileLock
 
     lock = path + ".lock"
     with FileLock(lock):
         try:
+            if not overwrite and os.path.exists(path):
+                return
+
             # an interrupted save must not damage the existing file
             target = os.path.realpath(path)
             tmp = target + ".tmp"
@@ -678,7 +681,7 @@ def _migrate_old_config(config_file):
                     return False
 
                 config.update(s)
-                save_config(config_file, config)
+                save_config(config_file, config, overwrite=False)
                 return True
         except Exception:
             LOG.error(
@@ -720,7 +723,7 @@ def _init_config_file():
         try:
             if not os.path.exists(config_file):
                 if not _migrate_old_config(config_file):
-                    save_config(config_file, DEFAULTS)
+                    save_config(config_file, DEFAULTS, overwrite=False)
         except Exception:
             LOG.error(
                 f"Cannot save settings to earthkit-regrid config file={config_file}",
-- 
2.43.0


From db608ea16f4ec2d40a6c00b84eb05fb9206dbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 56/58] fix: give a list when an empty fieldlist is
 interpolated

---
 src/earthkit/regrid/data_interpolate.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/data_interpolate.py b/src/earthkit/regrid/data_interpolate.py
index 8c067f3..46a989b 100644
--- a/src/earthkit/regrid/data_interpolate.py
+++ b/src/earthkit/regrid/data_interpolate.py
@@ -90,8 +90,6 @@ class FieldListDataHandler(DataHandler):
     def interpolate(self, values, **kwargs):
         backend = self.backend_from_kwargs(kwargs)
 
-        import earthkit.data
-
         ds = values
         in_grid = kwargs.pop("in_grid")
         out_grid = kwargs.pop("out_grid")
@@ -105,7 +103,7 @@ class FieldListDataHandler(DataHandler):
                 "interpolate(): Fieldlists can only be interpolated to global regular lat-lon target grids"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -118,9 +116,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return ds.from_fields(r)
 
 
 DATA_HANDLERS = [NumpyDataHandler(), FieldListDataHandler()]
-- 
2.43.0


From 41876885d471eb865209b859bc4670274784e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 57/58] fix: keep an inventory usable when an addition is
 interrupted

---
 src/earthkit/regrid/utils/builder.py   |  3 ++-
 src/earthkit/regrid/utils/mir.py       |  4 +++-
 src/earthkit/regrid/utils/temporary.py | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 42c628f..1322c0e 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -18,6 +18,7 @@ from earthkit.regrid.backends.db import MatrixIndex
 
 from .matrix import matrix_memory_size
 from .mir import mir_cached_matrix_to_file
+from .temporary import replaced_when_written
 
 
 def regular_ll(entry):
@@ -153,7 +154,7 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
         memory=mem_size,
     )
 
-    with open(index_file, "w") as f:
+    with replaced_when_written(index_file) as f:
         json.dump(index, f, indent=4)
 
     print("Written", npz_file)
diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 143816b..6f481ec 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -20,6 +20,7 @@ from scipy.sparse import csr_array
 from scipy.sparse import save_npz
 
 from .stream import Stream
+from .temporary import replaced_when_written
 
 
 def dtype_uint(little_endian, size):
@@ -71,7 +72,8 @@ def mir_cached_matrix_to_file(path, target):
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-    save_npz(target, z)
+    with replaced_when_written(target, "wb") as f:
+        save_npz(f, z)
 
 
 def mir_write_latlon_to_griddef(path, lats, lons):
diff --git a/src/earthkit/regrid/utils/temporary.py b/src/earthkit/regrid/utils/temporary.py
index 70db7c2..cd3afa8 100644
--- a/src/earthkit/regrid/utils/temporary.py
+++ b/src/earthkit/regrid/utils/temporary.py
@@ -9,6 +9,7 @@
 
 import os
 import tempfile
+from contextlib import contextmanager
 
 
 class TmpFile:
@@ -73,3 +74,20 @@ class TmpDirectory(tempfile.TemporaryDirectory):
 
 def temp_directory(dir=None):
     return TmpDirectory(dir=dir)
+
+
+@contextmanager
+def replaced_when_written(path, mode="w"):
+    """Open a temporary file which takes the place of ``path`` once it is written.
+
+    An interruption leaves the existing file, if any, as it is.
+    """
+    tmp = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(tmp, mode) as f:
+            yield f
+        os.replace(tmp, path)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
+        raise
-- 
2.43.0


From cac6a3aaeeb5245be165eb8d523818971be915d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 58/58] fix: do not use a grid definition whose writing was
 interrupted

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 6f481ec..37ccbfd 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -82,7 +82,7 @@ def mir_write_latlon_to_griddef(path, lats, lons):
         raise ValueError("Latitudes and longitudes must be non-empty and have the same length.")
 
     version = 1
-    with open(path, "wb") as f:
+    with replaced_when_written(path, "wb") as f:
         s = Stream(f)
         s.write_unsigned_long(version)
         s.write_unsigned_long(count)
-- 
2.43.0

