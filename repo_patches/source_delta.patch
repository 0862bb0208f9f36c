From 7341ec90d112023d095e330b6a2118b8d9c0f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:06 +0000
Subject: [PATCH 01/58] fix: LockFile: never remove a lock file which belongs
 to somebody else

Taking over an abandoned lock file and releasing the lock both removed the lock file by name.
Two waiters which both saw the same abandoned lock could thus both get the lock,
and an owner which overstayed its timeout could release the lock of the next owner.
Now the lock file is only removed if it is still the same file, guarded by flock.
---
 returnn/util/basic.py | 44 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/returnn/util/basic.py b/returnn/util/basic.py
index a5a862d..d1cd4aa 100644
--- a/returnn/util/basic.py
+++ b/returnn/util/basic.py
@@ -3132,10 +3132,45 @@ class LockFile:
             return
         print("Removing old lockfile %r (probably crashed proc)." % self.lockfile)
         try:
-            os.remove(self.lockfile)
+            fd = os.open(self.lockfile, os.O_RDWR)
+            try:
+                self._remove_lockfile(fd, only_if_old=True)
+            finally:
+                os.close(fd)
         except OSError as exc:
             print("Remove lockfile exception %r. Ignoring it." % exc)
 
+    def _remove_lockfile(self, fd, only_if_old=False):
+        """
+        Removes the lockfile, but only if it (still) is the file which was opened as `fd`.
+        Otherwise, the lock was taken over, i.e. the lockfile belongs to someone else now.
+
+        Everyone removes the lockfile only while holding flock on it (the OS releases it if the proc dies),
+        such that it cannot be replaced by a new lockfile between our check and our removal.
+
+        :param int fd: open file descriptor of the lockfile
+        :param bool only_if_old: don't remove it if it is not old (anymore), or if someone else is just removing it
+        """
+        try:
+            import fcntl
+        except ImportError:  # e.g. Windows
+            fcntl = None
+        if fcntl:
+            try:
+                fcntl.flock(fd, fcntl.LOCK_EX | (fcntl.LOCK_NB if only_if_old else 0))
+            except BlockingIOError:
+                return  # someone else is just removing it
+            except OSError:
+                pass  # not supported by the file system
+        try:
+            if not os.path.samestat(os.fstat(fd), os.stat(self.lockfile)):
+                return
+        except FileNotFoundError:
+            return
+        if only_if_old and not self.is_old_lockfile():
+            return
+        os.remove(self.lockfile)
+
     def is_locked(self):
         """
         :return: whether there is an active (not old) lockfile
@@ -3194,8 +3229,11 @@ class LockFile:
         """
         Releases the lock.
         """
-        os.close(self.fd)
-        os.remove(self.lockfile)
+        try:
+            self._remove_lockfile(self.fd)
+        finally:
+            os.close(self.fd)
+            self.fd = None
 
     def __enter__(self) -> LockFile:
         self.lock()
-- 
2.43.0


From 5a3d23a48f2d63aa166bf903ef7f876e39d070dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:24 +0000
Subject: [PATCH 02/58] fix: FileCache.get_file: no error if a retry after
 ENOSPC succeeded

---
 returnn/util/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..9ee290a 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
-- 
2.43.0


From 2df2a2ce0e2c54e2cd4cf94a60588755b253bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:24 +0000
Subject: [PATCH 03/58] fix: FileCache: remove the temporary copy if the
 copying failed

Otherwise, the next try (e.g. the retry after ENOSPC) fails with an assertion on the age of the temporary copy.
---
 returnn/util/file_cache.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 9ee290a..b9a0b08 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -355,8 +355,16 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
-                os.rename(dst_tmp_filename, dst_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                    os.rename(dst_tmp_filename, dst_filename)
+                except BaseException:
+                    # Do not leave it behind, it wastes space, and the next try would not expect it (see check above).
+                    try:
+                        os.remove(dst_tmp_filename)
+                    except OSError as exc:
+                        print(f"FileCache: Error while removing {dst_tmp_filename}: {type(exc).__name__}: {exc}")
+                    raise
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From 8410315cd1b525c304f20ff6f6de87a84d42da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:24 +0000
Subject: [PATCH 04/58] fix: FileCache: keep-alive thread must survive a failed
 mtime update

It runs concurrently to the release of lock files, so a file can be gone at the time of the update.
When the thread died, none of the files in use were protected anymore against cleanups.
---
 returnn/util/file_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index b9a0b08..19593cf 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -488,8 +488,10 @@ class _TouchFilesThread(Thread):
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
-                    print(f"FileCache: failed updating mtime of {filename}: {exc}")
-                    raise
+                    # E.g. the lock file was just released, or some temporary problem.
+                    # We must go on in any case, as all the other files are still in use.
+                    if filename in self.files:
+                        print(f"FileCache: failed updating mtime of {filename}: {exc}")
             if self.stop.wait(self.interval):
                 return
 
-- 
2.43.0


From e152a177554b33fe68cf6b98861de35c6e26a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:24 +0000
Subject: [PATCH 05/58] fix: FileCache: no truncated copy when the source is
 replaced between stat and open

---
 returnn/util/file_cache.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 19593cf..d93101a 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -415,8 +415,9 @@ def _copy_with_prealloc(src: str, dst: str):
     +1-size trick is technically not necessary -- but it also does not hurt leaving
     it in.
     """
-    file_size = os.stat(src).st_size
-    with open(dst, "wb") as dst_file:
+    with open(src, "rb") as src_file, open(dst, "wb") as dst_file:
+        # Size of the file we have opened. A file at `src` might be replaced at any time.
+        file_size = os.fstat(src_file.fileno()).st_size
         if file_size > 0:
             # Prealloc size + 1, see docstring for why.
             #
@@ -427,11 +428,10 @@ def _copy_with_prealloc(src: str, dst: str):
                 dst_file.seek(file_size)
                 dst_file.write(b"\0")
                 dst_file.seek(0)
-        with open(src, "rb") as src_file:
-            if os.name == "posix":
-                os.posix_fadvise(src_file.fileno(), 0, file_size, os.POSIX_FADV_SEQUENTIAL)
-                os.posix_fadvise(dst_file.fileno(), 0, file_size, os.POSIX_FADV_SEQUENTIAL)
-            shutil.copyfileobj(src_file, dst_file)
+        if os.name == "posix":
+            os.posix_fadvise(src_file.fileno(), 0, file_size, os.POSIX_FADV_SEQUENTIAL)
+            os.posix_fadvise(dst_file.fileno(), 0, file_size, os.POSIX_FADV_SEQUENTIAL)
+        shutil.copyfileobj(src_file, dst_file)
         dst_file.truncate(file_size)
 
 
-- 
2.43.0


From a1b3a1928966cb9667c9127df41bd95032a1455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 06/58] fix: FileCache.cleanup must not delete files which
 other processes just started to use

There was a race between the mtime check and the deletion,
and another one between get_file releasing the lock and marking the file as used.
Now files get deleted only while holding their lock, after checking the mtime again,
and get_file marks the file as used while holding the lock.
Also, lock files are only removed by cleanup when they are old for the lock itself,
and info files without cached file (from a killed copy) are not kept forever.
---
 returnn/util/basic.py      | 23 +++++++----
 returnn/util/file_cache.py | 78 +++++++++++++++++++++++++++++++-------
 2 files changed, 79 insertions(+), 22 deletions(-)

diff --git a/returnn/util/basic.py b/returnn/util/basic.py
index d1cd4aa..dd910cf 100644
--- a/returnn/util/basic.py
+++ b/returnn/util/basic.py
@@ -3207,15 +3207,8 @@ class LockFile:
                     raise
                 # Ignore those errors.
             # Now try to create the lock.
-            try:
-                self.fd = os.open(self.lockfile, os.O_CREAT | os.O_EXCL | os.O_RDWR)
+            if self.try_lock():
                 return
-            except OSError as exc:
-                # Possible errors:
-                # ENOENT (No such file or directory), e.g. if the directory was deleted.
-                # EEXIST (File exists), if the lock already exists.
-                if exc.errno not in [errno.ENOENT, errno.EEXIST]:
-                    raise  # Other error, so reraise.
             # We did not get the lock.
             # Check if it is a really old one.
             self.maybe_remove_old_lockfile()
@@ -3225,6 +3218,20 @@ class LockFile:
             if wait_count == 10:
                 print("Waiting for lock-file: %s" % self.lockfile)
 
+    def try_lock(self) -> bool:
+        """
+        Tries to acquire the lock, without waiting and without taking over an old lockfile.
+
+        :return: whether we got the lock
+        """
+        try:
+            self.fd = os.open(self.lockfile, os.O_CREAT | os.O_EXCL | os.O_RDWR)
+        except (FileNotFoundError, FileExistsError):
+            # FileNotFoundError, e.g. if the directory was deleted.
+            # FileExistsError, if the lock already exists.
+            return False
+        return True
+
     def unlock(self):
         """
         Releases the lock.
diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index d93101a..b3f2471 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -127,11 +127,6 @@ class FileCache:
                     raise e
         if last_error is not None:
             raise last_error
-        info_file = self._get_info_filename(dst_filename)
-        os.utime(dst_filename, None)
-        os.utime(info_file, None)
-        # protect info file from tempreaper, which looks at the mtime
-        self._touch_files_thread.files_extend([dst_filename, info_file])
         return dst_filename
 
     def release_files(self, filenames: Union[str, Iterable[str]]):
@@ -179,7 +174,7 @@ class FileCache:
                 fn = root + "/" + rel_fn
                 if fn == cleanup_timestamp_file:
                     continue
-                elif self._is_info_filename(fn):
+                elif self._is_info_filename(fn) and rel_fn[: -len(self._get_info_filename(""))] in files:
                     # skip keepalive files, they are processed together with the file they guard
                     continue
                 try:
@@ -235,14 +230,12 @@ class FileCache:
                     f" After deletion, have {human_bytes_size(cur_expected_free)} free space."
                 )
                 try:
-                    os.remove(fn)
+                    deleted = self._delete_unused_file(fn, expected_mtime=mtime)
                 except Exception as exc:
                     print(f"FileCache: Error while removing {fn}: {type(exc).__name__}: {exc}")
+                    deleted = False
+                if not deleted:
                     cur_expected_free -= size
-                try:
-                    os.remove(self._get_info_filename(fn))
-                except Exception as exc:
-                    print(f"FileCache: Ignoring error file removing info file of {fn}: {type(exc).__name__}: {exc}")
 
             if reached_more_recent_files and want_free_space_size <= cur_expected_free:
                 # Have enough free space now.
@@ -280,6 +273,50 @@ class FileCache:
             except Exception as exc:
                 print(f"FileCache: Error while removing empty dir {root}: {type(exc).__name__}: {exc}")
 
+    def _delete_unused_file(self, filename: str, *, expected_mtime: float) -> bool:
+        """
+        Delete the file (and its info file),
+        unless it is being used or created, or was used since we checked its mtime.
+
+        :param filename: any file in the cache directory
+        :param expected_mtime: the mtime which we have seen before
+        :return: whether we deleted it
+        """
+        if filename.endswith(".lock"):
+            LockFile(
+                directory=os.path.dirname(filename), name=os.path.basename(filename), lock_timeout=self._lock_timeout
+            ).maybe_remove_old_lockfile()
+            return not os.path.exists(filename)
+        dst_filename = filename
+        for postfix in [".returnn-info", ".copy"]:
+            if dst_filename.endswith(postfix):
+                dst_filename = dst_filename[: -len(postfix)]
+        # Others can start to use this file only while holding the lock. See _copy_file_if_needed.
+        lock = LockFile(
+            directory=os.path.dirname(dst_filename),
+            name=os.path.basename(dst_filename) + ".lock",
+            lock_timeout=self._lock_timeout,
+        )
+        lock.maybe_remove_old_lockfile()
+        if not lock.try_lock():
+            print(f"FileCache: Keep {filename}, it is locked")
+            return False
+        try:
+            if os.stat(filename).st_mtime != expected_mtime:
+                print(f"FileCache: Keep {filename}, it was used in the meantime")
+                return False
+            os.remove(filename)
+            if filename == dst_filename:
+                try:
+                    os.remove(self._get_info_filename(filename))
+                except Exception as exc:
+                    print(
+                        f"FileCache: Ignoring error file removing info file of {filename}: {type(exc).__name__}: {exc}"
+                    )
+            return True
+        finally:
+            lock.unlock()
+
     def handle_cached_files_in_config(self, config: Any) -> Tuple[Any, List[str]]:
         """
         :param config: some config, e.g. dict, or any nested structure
@@ -332,13 +369,11 @@ class FileCache:
             # Maybe it was copied in the meantime, while waiting for the lock.
             if self._check_existing_copied_file_maybe_cleanup(src_filename, dst_filename):
                 print(f"FileCache: using existing file {dst_filename}")
+                self._mark_file_used(dst_filename)
                 return
 
             print(f"FileCache: Copy file {src_filename} to cache")
 
-            # Make sure we have enough disk space, st_size +1 due to _copy_with_prealloc
-            self.cleanup(need_at_least_free_space_size=os.stat(src_filename).st_size + 1)
-
             dst_tmp_filename = dst_filename + ".copy"
             if os.path.exists(dst_tmp_filename):
                 # The minimum age should be at least the lock_timeout.
@@ -349,6 +384,10 @@ class FileCache:
                     f" from crashed previous copy attempt"
                     f" to be older than {self._lock_timeout * 0.8:.1f}s but it is {dst_tmp_file_age} seconds old"
                 )
+                os.remove(dst_tmp_filename)
+
+            # Make sure we have enough disk space, st_size +1 due to _copy_with_prealloc
+            self.cleanup(need_at_least_free_space_size=os.stat(src_filename).st_size + 1)
 
             with self._touch_files_thread.files_added_context(dst_dir):
                 # save mtime before the copy process to have it pessimistic
@@ -365,6 +404,17 @@ class FileCache:
                     except OSError as exc:
                         print(f"FileCache: Error while removing {dst_tmp_filename}: {type(exc).__name__}: {exc}")
                     raise
+            self._mark_file_used(dst_filename)
+
+    def _mark_file_used(self, dst_filename: str):
+        """
+        Make sure that no cleanup removes it from now on. Must be called while holding the lock.
+        """
+        info_file = self._get_info_filename(dst_filename)
+        os.utime(dst_filename, None)
+        os.utime(info_file, None)
+        # protect info file from tempreaper, which looks at the mtime
+        self._touch_files_thread.files_extend([dst_filename, info_file])
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From 8d208cdfb85d50f2041d346b7fe406da7a29ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 07/58] fix: FileCache: no failure when a cleanup concurrently
 removes the empty dir

---
 returnn/util/file_cache.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index b3f2471..14bff3b 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -358,11 +358,10 @@ class FileCache:
         """
         Copy the file to the cache directory.
         """
-        # Create dirs.
         dst_dir = os.path.dirname(dst_filename)
-        os.makedirs(dst_dir, exist_ok=True)
 
         # Copy the file, while holding a lock. See comment on lock_timeout above.
+        # The lock also creates the dir (also when some cleanup is just about to remove the empty dir).
         with LockFile(
             directory=dst_dir, name=os.path.basename(dst_filename) + ".lock", lock_timeout=self._lock_timeout
         ) as lock, self._touch_files_thread.files_added_context(lock.lockfile):
-- 
2.43.0


From d5cec45737d7c555a5f98836da293d32c268bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 08/58] fix: cleanup_old_models: NaN scores made the kept best
 epochs arbitrary

sorted/min/max on NaN give arbitrary results, so the best checkpoint could be deleted.
Treat NaN as the worst possible score.
---
 returnn/engine/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index df75cce..bce987e 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -378,8 +378,16 @@ class EngineBase:
         assert score_keys
         score_keys = sorted(score_keys)
         score_values = {key: [] for key in score_keys}
+        # NaN cannot be ordered (sorted/min/max would give arbitrary results), so treat it as the worst possible value.
+        epochs_scores = {
+            epoch: {
+                key: float("inf") if value != value else value
+                for key, value in lr_control.epoch_data[epoch].error.items()
+            }
+            for epoch in epochs
+        }
         for epoch in epochs:
-            epoch_scores = lr_control.epoch_data[epoch].error
+            epoch_scores = epochs_scores[epoch]
             for key in epoch_scores.keys():
                 score_values[key].append(epoch_scores[key])
         for key in list(score_keys):
@@ -398,9 +406,7 @@ class EngineBase:
         # so the maximum value is the worst possible value.
         worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}
         for key in score_keys:
-            scores = sorted(
-                [(lr_control.epoch_data[epoch].error.get(key, worst_score_values[key]), epoch) for epoch in epochs]
-            )
+            scores = sorted([(epochs_scores[epoch].get(key, worst_score_values[key]), epoch) for epoch in epochs])
             scores = scores[:keep_best_n]
             keep_epochs.update([v[1] for v in scores])
         keep_epochs.intersection_update(epochs)
-- 
2.43.0


From b10a5bd208e4f068b9da6a7c98905c31904567c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:49 +0000
Subject: [PATCH 09/58] fix: cleanup_old_models: do not delete the only model
 usable to resume training

When the training was interrupted between saving the model and its optimizer state,
this incomplete epoch counted as the last one,
and the last complete checkpoint could be deleted.
---
 returnn/engine/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index bce987e..46f6324 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -371,6 +371,9 @@ class EngineBase:
             default_keep_pattern.add(n)
         keep_epochs.update(opts.get("keep", default_keep_pattern))
         keep_epochs.update(epochs[-keep_last_n:])
+        # The last model might have no optimizer state (e.g. interrupted in between saving both).
+        # Never delete the model which we would use to resume the training.
+        keep_epochs.update(sorted(self.get_existing_models(config=self.config, for_training=True))[-1:])
         score_keys = set()  # e.g. "dev_error", "dev_score", etc.
         # Collect all possible score keys. Note that we could have different ones for different epochs.
         for data in lr_control.epoch_data.values():
-- 
2.43.0


From 6e21df527d7763f5cef0589d23b6056739fd358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:43 +0000
Subject: [PATCH 10/58] fix: NativeCodeCompiler: don't delete libs which were
 used recently

Every use touches the info file, but the cleanup looked at the lib file,
i.e. it deleted libs which were built a long time ago but are still in use.
---
 returnn/util/native_code_compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..2a4246d 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -131,7 +131,8 @@ class NativeCodeCompiler:
             if not os.path.exists(so_path):
                 self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
                 continue
-            dt = time.time() - os.path.getmtime(so_path)
+            # The info file is touched on every use.
+            dt = time.time() - max(os.path.getmtime(so_path), os.path.getmtime(info_path))
             if dt > cleanup_time_limit_secs:
                 self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
 
-- 
2.43.0


From 526c1a6bbbaabdf39ead6eb8d1af7f1cfb89f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:26 +0000
Subject: [PATCH 11/58] fix: NativeCodeCompiler: never expose an incomplete lib
 or info file

Lib and info file were written directly under their final names.
Other procs could load an incomplete lib, e.g. when it was rebuilt because of a newer include,
and a proc killed while writing left a corrupt lib or info file (SyntaxError in eval) behind forever.
---
 returnn/util/native_code_compiler.py | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 2a4246d..8897d25 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -151,9 +151,11 @@ class NativeCodeCompiler:
         :rtype: dict[str]|None
         """
         filename = self._info_filename
-        if not os.path.exists(filename):
+        try:
+            with open(filename) as f:
+                s = f.read()
+        except FileNotFoundError:
             return None
-        s = open(filename).read()
         res = eval(s)
         assert isinstance(res, dict)
         return res
@@ -196,8 +198,19 @@ class NativeCodeCompiler:
 
     def _save_info(self):
         filename = self._info_filename
-        with open(filename, "w") as f:
+        tmp_filename = self._get_tmp_filename(filename)
+        with open(tmp_filename, "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.replace(tmp_filename, filename)  # atomic, other procs never see an incomplete file
+
+    @staticmethod
+    def _get_tmp_filename(filename):
+        """
+        :param str filename:
+        :return: unique per process. note that the compiler might outlive its parent process.
+        :rtype: str
+        """
+        return "%s.%s.%i.tmp" % (filename, util.get_hostname(), os.getpid())
 
     def _need_recompile(self):
         """
@@ -300,7 +313,9 @@ class NativeCodeCompiler:
         common_opts += ["-D_GLIBCXX_USE_CXX11_ABI=%i" % (1 if self.use_cxx11_abi else 0)]
         common_opts += ["-D%s=%s" % item for item in sorted(self.c_macro_defines.items())]
         common_opts += ["-g"]
-        opts = common_opts + [self._c_filename, "-o", self._so_filename]
+        # Other procs might use the lib or check for it at any time, so it must never exist there incompletely.
+        so_tmp_filename = self._get_tmp_filename(self._so_filename)
+        opts = common_opts + [self._c_filename, "-o", so_tmp_filename]
         opts += list(map(self._transform_ld_flag, self.ld_flags))
         cmd_bin = self._get_compiler_bin()
         cmd_args = [cmd_bin] + opts
@@ -322,7 +337,11 @@ class NativeCodeCompiler:
                 print("Your GCC version might be too new. This is a problem with some nvcc versions.")
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
-        assert os.path.exists(self._so_filename)
+        assert os.path.exists(so_tmp_filename)
+        if os.path.exists(self._info_filename):
+            # Could belong to other code (static_version_name), so do not combine it with the new lib.
+            os.remove(self._info_filename)
+        os.replace(so_tmp_filename, self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
             if self.verbose:
                 print("%s: write compile log to: %s" % (self.__class__.__name__, f.name))
-- 
2.43.0


From d423aa0ef7a7187e04c1d9d5bda607aa1db7b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:55 +0000
Subject: [PATCH 12/58] fix: NativeCodeCompiler: cleanup of other dirs only
 under their lock

The cleanup could delete a dir which another proc just started to build in (or just started to use),
and two concurrent cleanups could fail with an exception.
Also check again after waiting for the lock, instead of rebuilding a lib which is maybe just being used.
---
 returnn/util/native_code_compiler.py | 110 +++++++++++++++++++--------
 1 file changed, 79 insertions(+), 31 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 8897d25..3bd3c2b 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -110,9 +110,6 @@ class NativeCodeCompiler:
         my_mod_path_name = os.path.basename(mod_path)
         if not os.path.exists(base_mod_path):
             return
-        import time
-
-        cleanup_time_limit_secs = self._cleanup_time_limit_days * 24 * 60 * 60
         for p in os.listdir(base_mod_path):
             if p == my_mod_path_name:
                 continue
@@ -122,27 +119,60 @@ class NativeCodeCompiler:
             lock = util.LockFile(full_dir_path)
             if lock.is_locked():
                 continue
-            lock.maybe_remove_old_lockfile()
-            info_path = "%s/info.py" % full_dir_path
-            if not os.path.exists(info_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing info.py")
-                continue
-            so_path = "%s/%s.so" % (full_dir_path, self.base_name)
-            if not os.path.exists(so_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
-                continue
-            # The info file is touched on every use.
-            dt = time.time() - max(os.path.getmtime(so_path), os.path.getmtime(info_path))
-            if dt > cleanup_time_limit_secs:
-                self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
+            try:
+                if not self._get_cleanup_reason(full_dir_path):
+                    continue
+                lock.maybe_remove_old_lockfile()
+                # Delete only when holding the lock, as another proc could just start to build or use it.
+                if not lock.try_lock():
+                    continue
+                try:
+                    reason = self._get_cleanup_reason(full_dir_path)  # check again
+                    if reason:
+                        self._cleanup_old_path(full_dir_path, reason=reason)
+                finally:
+                    lock.unlock()
+            except OSError as exc:  # e.g. another proc also cleans up, or no permission
+                print("%s cleanup exception (%s). Will ignore." % (self.__class__.__name__, exc))
+
+    def _get_cleanup_reason(self, path):
+        """
+        :param str path: dir of some (other) module in the cache
+        :return: reason why it should be deleted, or None if it should be kept
+        :rtype: str|None
+        """
+        info_path = "%s/info.py" % path
+        if not os.path.exists(info_path):
+            return "corrupt dir, missing info.py"
+        so_path = "%s/%s.so" % (path, self.base_name)
+        if not os.path.exists(so_path):
+            return "corrupt dir, missing so"
+        dt = self._get_time_since_last_use(so_path=so_path, info_path=info_path)
+        if dt > self._cleanup_time_limit_days * 24 * 60 * 60:
+            return "%s old" % util.hms(dt)
+        return None
+
+    @staticmethod
+    def _get_time_since_last_use(so_path, info_path):
+        """
+        :param str so_path:
+        :param str info_path: touched on every use
+        :return: secs
+        :rtype: float
+        """
+        import time
+
+        return time.time() - max(os.path.getmtime(so_path), os.path.getmtime(info_path))
 
     def _cleanup_old_path(self, p, reason):
         print("%s delete old, %s: %s" % (self.__class__.__name__, reason, p))
-        assert os.path.exists(p)
         import shutil
 
         try:
-            shutil.rmtree(p)
+            # Rename first, such that other procs never see (or write into) a partially deleted dir.
+            tmp_path = "%s.del.%s.%i" % (p, util.get_hostname(), os.getpid())
+            os.rename(p, tmp_path)
+            shutil.rmtree(tmp_path)
         except OSError as exc:
             print("%s delete exception (%s). Will ignore and try to continue anyway." % (self.__class__.__name__, exc))
 
@@ -216,10 +246,11 @@ class NativeCodeCompiler:
         """
         :rtype: bool
         """
-        if not os.path.exists(self._so_filename):
+        try:
+            so_mtime = os.path.getmtime(self._so_filename)
+        except FileNotFoundError:
             return True
         if self.include_deps:
-            so_mtime = os.path.getmtime(self._so_filename)
             for fn in self.include_deps:
                 if os.path.getmtime(fn) > so_mtime:
                     return True
@@ -242,24 +273,40 @@ class NativeCodeCompiler:
         """
         On successful return, self._so_filename should exist and be up-to-date.
         """
-        if not self._need_recompile():
+        if not self._need_recompile() and self._touch_recently_used():
             if self.verbose:
                 print("%s: No need to recompile: %s" % (self.__class__.__name__, self._so_filename))
-            # Touch it so that we can see that we used it recently.
-            os.utime(self._info_filename, None)
             return
         lock = util.LockFile(self._mod_path)
-        if not self._need_recompile():  # check again
-            if self.verbose:
-                print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
-            os.utime(self._info_filename, None)
-            return
         if self._should_cleanup_old_mydir and not lock.is_locked():
-            if os.path.exists(self._mod_path):
+            if os.path.exists(self._mod_path) and self._need_recompile():
                 self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
+            if not self._need_recompile():  # check again
+                if self.verbose:
+                    print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
+                os.utime(self._info_filename, None)
+                return
             self._maybe_compile_inner()
 
+    def _touch_recently_used(self):
+        """
+        Touch it so that we can see that we used it recently.
+        If it was not used for a long time, another proc might be just about to delete it,
+        and then we need to hold the lock for this.
+
+        :return: whether it was touched, and can be used without the lock
+        :rtype: bool
+        """
+        try:
+            dt = self._get_time_since_last_use(so_path=self._so_filename, info_path=self._info_filename)
+            if dt > self._cleanup_time_limit_days * 24 * 60 * 60 / 2:
+                return False
+            os.utime(self._info_filename, None)
+        except FileNotFoundError:  # another proc just recompiles it
+            return False
+        return True
+
     def _get_compiler_bin(self):
         """
         :rtype: str
@@ -338,8 +385,9 @@ class NativeCodeCompiler:
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
         assert os.path.exists(so_tmp_filename)
-        if os.path.exists(self._info_filename):
-            # Could belong to other code (static_version_name), so do not combine it with the new lib.
+        old_info = self._load_info()
+        if old_info and old_info != self._info_dict:
+            # Belongs to other code (static_version_name), so do not combine it with the new lib.
             os.remove(self._info_filename)
         os.replace(so_tmp_filename, self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
-- 
2.43.0


From 2bd76dd033c2205df28b1e53f37eef65efab71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 13/58] fix: lru_cache: cache_set must replace an existing
 entry

---
 returnn/util/lru_cache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 1f45760..dd8d793 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -169,10 +169,12 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         """
         Sets a value in the cache directly.
         """
-        nonlocal root, full
-        if maxsize > 0:
-            key = make_key(args, kwargs, typed)
-            _cache_insert(key, result)
+        key = make_key(args, kwargs, typed)
+        with lock:
+            if maxsize > 0:
+                # Replace any existing entry. _cache_insert would keep it.
+                cache_pop(*args, fallback=None, **kwargs)
+                _cache_insert(key, result)
 
     def cache_peek(*args, update_statistics: bool = True, fallback=None, **kwargs):
         """
-- 
2.43.0


From 0187c631aee087f3a7c5269c51e69ffa0317cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 14/58] fix: lru_cache: no KeyError or oversized cache on
 concurrent cache_set_maxsize(0)

---
 returnn/util/lru_cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index dd8d793..4b3f3f3 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -101,14 +101,16 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 return result
             misses += 1
         result = user_function(*args, **kwds)
-        if maxsize > 0:
-            _cache_insert(key, result)
+        _cache_insert(key, result)
         return result
 
     def _cache_insert(key, result):
         nonlocal root, full
         with lock:
-            if key in cache:
+            if maxsize <= 0:
+                # Check this under the lock, as it could be changed concurrently via cache_set_maxsize.
+                pass
+            elif key in cache:
                 # Getting here means that this same key was added to the
                 # cache while the lock was released.  Since the link
                 # update is already done, we need only return the
-- 
2.43.0


From 330b50abeb7e0518a2b5b9dbb430ec7ddc7a37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 15/58] fix: MultiProcDataset, get_complete_frac: unknown
 num_seqs

---
 returnn/datasets/basic.py      | 2 +-
 returnn/datasets/multi_proc.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..eaaefb6 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -972,7 +972,7 @@ class Dataset:
             except Exception:  # also not always available
                 num_seqs = None  # ignore
 
-        if math.isinf(num_seqs):
+        if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
                 # cannot compute meaningful complete_frac for infinite num_seqs
                 return None
diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..7222bef 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -447,9 +447,11 @@ class MultiProcDataset(CachedDataset2):
         # The complete_frac values from the subprocesses are not necessarily monotonic
         # due to rounding errors in the sharding and such.
         # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        # It is None if unknown, e.g. if the sub dataset does not know its num_seqs.
+        if data.complete_frac is not None:
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
-- 
2.43.0


From 96146a1e4e6e8e7e6afa63bb4aaaa2a820efdfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:53 +0000
Subject: [PATCH 16/58] fix: MultiProcDataset, DistributeFilesDataset: skipping
 forward failed depending on the worker speed

---
 returnn/datasets/distrib_files.py | 2 ++
 returnn/datasets/multi_proc.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..506265d 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -632,6 +632,8 @@ def _worker_proc_loop(
             return None
         assert next_seq_idx <= seq_idx
         while True:
+            # In case we skip forward, earlier seqs are not needed.
+            cache[:] = [seq for seq in cache if seq.seq_idx >= seq_idx]
             if not _add_to_cache():
                 raise Exception(
                     f"buffer too small, requested seq idx {seq_idx},"
diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 7222bef..b334e77 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -278,6 +278,8 @@ class MultiProcDataset(CachedDataset2):
                 return None
             assert next_seq_idx <= seq_idx
             while True:
+                # In case we skip forward, earlier seqs are not needed.
+                cache[:] = [seq for seq in cache if seq.seq_idx >= seq_idx]
                 if not _add_to_cache():
                     raise Exception(
                         f"buffer too small, requested seq idx {seq_idx},"
-- 
2.43.0


From 4fea16d6e9902f86ff4b0becc999e1ecc2094e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 17/58] fix: MultiProcDataset: dedicated sharding lost seqs (or
 failed) with shards of unequal size

---
 returnn/datasets/multi_proc.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index b334e77..77a30f9 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,7 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Dict, List, Tuple
 import sys
 import gc
 import multiprocessing as mp
@@ -76,6 +76,8 @@ class MultiProcDataset(CachedDataset2):
         self._seq_order_proc = None  # type: Optional[mp.Process]
         self._worker_procs = None  # type: Optional[List[mp.Process]]
         self._cur_max_complete_frac: Optional[float] = None
+        self._dedicated_workers_queue: List[Tuple[int, int]] = []  # (worker idx, next seq idx in worker)
+        self._next_dedicated_seq_idx = 0
 
         if _meta_info_cache:
             # This allows to skip the lazy init in self.initialize().
@@ -412,6 +414,8 @@ class MultiProcDataset(CachedDataset2):
         if self._sharding_method == "dedicated":
             for worker_conn in self._worker_parent_conns:
                 worker_conn.send(("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order}))
+            self._dedicated_workers_queue = [(i, 0) for i in range(self.num_workers)]
+            self._next_dedicated_seq_idx = 0
             num_child_seqs = []
             for worker_conn in self._worker_parent_conns:
                 msg, num_seqs = worker_conn.recv()
@@ -438,11 +442,20 @@ class MultiProcDataset(CachedDataset2):
         return True
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
-        worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
-        msg, data = worker.recv()
-        assert msg == "data_seq"
+        if self._sharding_method == "dedicated":
+            # Round-robin over the workers which still have data. The shards can be of different size.
+            data = None
+            while self._next_dedicated_seq_idx <= seq_idx:
+                if not self._dedicated_workers_queue:
+                    return None
+                worker_idx, worker_seq_idx = self._dedicated_workers_queue.pop(0)
+                data = self._get_seq_from_worker(worker_idx, worker_seq_idx)
+                if data is None:
+                    continue
+                self._dedicated_workers_queue.append((worker_idx, worker_seq_idx + 1))
+                self._next_dedicated_seq_idx += 1
+        else:
+            data = self._get_seq_from_worker(seq_idx % self.num_workers, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
@@ -457,6 +470,13 @@ class MultiProcDataset(CachedDataset2):
         data.seq_idx = seq_idx
         return data
 
+    def _get_seq_from_worker(self, worker_idx: int, worker_seq_idx: int) -> Optional[DatasetSeq]:
+        worker = self._worker_parent_conns[worker_idx]
+        worker.send(("get_data_seq", {"seq_idx": worker_seq_idx}))
+        msg, data = worker.recv()
+        assert msg == "data_seq"
+        return data
+
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
-- 
2.43.0


From 77af3da42af483eb1798baa38576f047882c1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 18/58] fix: DistributeFilesDataset: sub dataset must not shard
 the seqs again

---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 506265d..8ff94a8 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # The files are already sharded, see init_seq_order. The sub dataset must not shard its seqs again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From fa776aea4c6b147dc3535d905d95063b35e0f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:57 +0000
Subject: [PATCH 19/58] fix: DistributeFilesDataset: pickling with
 distrib_shard_files

---
 returnn/datasets/distrib_files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 8ff94a8..c70f412 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -168,17 +168,18 @@ class DistributeFilesDataset(CachedDataset2):
 
         self.distrib_shard_files = distrib_shard_files
         if distrib_shard_files:
-            assert self._num_shards == 1 and self._shard_index == 0, (  # ensure defaults are set
-                f"{self}: Cannot use both dataset-sharding via properties _num_shards and _shard index "
-                f"and {self.__class__.__name__}'s own sharding implementation based on the trainings rank and size."
-            )
             if _distrib_info:
                 # If we're in a child process `_get_rank_and_size()` no longer works,
                 # so we pass the info about the shards via a pickled property.
                 # See also Dataset.__reduce__.
+                # (It then also sets _num_shards and _shard_index.)
                 self._shard_index = _distrib_info["_shard_index"]
                 self._num_shards = _distrib_info["_num_shards"]
             else:
+                assert self._num_shards == 1 and self._shard_index == 0, (  # ensure defaults are set
+                    f"{self}: Cannot use both dataset-sharding via properties _num_shards and _shard index "
+                    f"and {self.__class__.__name__}'s own sharding implementation based on the trainings rank and size."
+                )
                 self._shard_index, self._num_shards = _get_rank_and_size()
         assert 0 <= self._shard_index < self._num_shards
 
-- 
2.43.0


From 6dec1439ee81f7ee44ea08ff93f01db5cd89fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 20/58] fix: DistributeFilesDataset: read the same epoch again,
 or go back

---
 returnn/datasets/distrib_files.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index c70f412..ae5a9f0 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -300,8 +300,10 @@ class DistributeFilesDataset(CachedDataset2):
             self._files_order_cache[full_epoch_0idx_] = file_bins[self_index_base:self_index_end]
 
         # Cleanup and fill _workers.
+        # A worker can only go forward in its sub epoch, so do not reuse it when it already delivered data,
+        # e.g. when the same epoch is read again, or when going back to an earlier epoch.
         for k, worker in list(self._workers.items()):
-            if k < epoch:
+            if k < epoch or worker.used:
                 worker.exit()
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
@@ -534,6 +536,7 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self.used = False  # whether some data was requested already
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -551,6 +554,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self.used = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From fed452ab9b960a42941dc1a1442365ee5ba3e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:28 +0000
Subject: [PATCH 21/58] fix: online_shuffle_batches, allow epoch without any
 batch

E.g. when all seqs of the epoch were filtered out,
the same epoch works without online_shuffle_batches.
---
 returnn/torch/data/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/data/pipeline.py b/returnn/torch/data/pipeline.py
index fa6237d..d8abeff 100644
--- a/returnn/torch/data/pipeline.py
+++ b/returnn/torch/data/pipeline.py
@@ -566,7 +566,8 @@ class ShufflingDataPipe(torch.utils.data.IterDataPipe):
                     has_ended = True
 
             if len(self._buffer) < self._buffer_size:
-                assert has_ended and not self._next_buffer
+                # If the dataset is empty, the buffer is empty from the beginning, and we never ran into its end above.
+                assert (has_ended or not self._buffer) and not self._next_buffer
                 break
 
             self._buffer.clear()
-- 
2.43.0


From 89c4547f1b9ed7d2cfa8b0a5d73a321e9b8b17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 22/58] fix: ExternSprintDataset, reset the cache before the
 reader thread starts

Otherwise, the user of the dataset can come before the reader thread,
and then still sees the state of the previous epoch (e.g. reached_final_seq),
or the reset comes after the first load_seqs.
---
 returnn/datasets/sprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/sprint.py b/returnn/datasets/sprint.py
index 346a800..1e68c77 100644
--- a/returnn/datasets/sprint.py
+++ b/returnn/datasets/sprint.py
@@ -826,6 +826,9 @@ class ExternSprintDataset(SprintDatasetBase):
             self._exit_child(wait_thread=False)
 
         else:
+            # Reset the cache here, not in the reader thread.
+            # Otherwise the state of the previous epoch would still be visible until the reader thread gets there.
+            self.init_sprint_epoch(epoch)
             self.reader_thread = Thread(
                 target=self._reader_thread_proc, args=(pid, epoch), name="%s reader thread" % self
             )
@@ -947,7 +950,6 @@ class ExternSprintDataset(SprintDatasetBase):
         try:
             self.add_data_thread_id = thread.get_ident()
 
-            self.init_sprint_epoch(epoch)
             have_seen_the_whole = False
 
             seq_count = 0
-- 
2.43.0


From 064c0b3608baae71e7483f84f3ba0263d899cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 23/58] fix: SprintDatasetBase, wait for Sprint to start the
 epoch

With multiple epochs, getSegmentList() waits for RETURNN to start the epoch and only then resets the cache.
When the train thread was faster, it saw the state of the previous epoch.
---
 returnn/datasets/sprint.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/sprint.py b/returnn/datasets/sprint.py
index 1e68c77..ea46884 100644
--- a/returnn/datasets/sprint.py
+++ b/returnn/datasets/sprint.py
@@ -242,6 +242,29 @@ class SprintDatasetBase(Dataset):
                 assert epoch > self.returnn_epoch
                 self.cond.wait()
 
+    def _is_waiting_for_sprint_epoch(self):
+        """
+        :return: whether Sprint has not started the current RETURNN epoch yet.
+            SprintInterface.getSegmentList() waits for us (:func:`wait_for_returnn_epoch`)
+            and only then calls :func:`init_sprint_epoch`,
+            so before that, all the state here is still from the previous epoch.
+        :rtype: bool
+        """
+        return (
+            self.multiple_epochs
+            and self.sprint_epoch is not None
+            and self.returnn_epoch is not None
+            and self.sprint_epoch < self.returnn_epoch
+            and not self.sprint_finalized
+        )
+
+    def _wait_for_sprint_epoch(self):
+        """
+        Called by RETURNN train thread.
+        """
+        while self._is_waiting_for_sprint_epoch():
+            self.cond.wait()
+
     def _wait_for_seq_can_pass_check(self, seq_start, seq_end):
         """
         :param int seq_start:
@@ -266,6 +289,7 @@ class SprintDatasetBase(Dataset):
         """
         if seq_end is None:
             seq_end = seq_start + 1
+        self._wait_for_sprint_epoch()
         if seq_end > self.requested_load_seq_end:
             self.requested_load_seq_end = seq_end
             self.cond.notify_all()
@@ -353,6 +377,7 @@ class SprintDatasetBase(Dataset):
         :param int start:
         :param int end:
         """
+        self._wait_for_sprint_epoch()
         assert start >= self.expected_load_seq_start
         if start > self.expected_load_seq_start:
             # Cleanup old data.
@@ -540,7 +565,7 @@ class SprintDatasetBase(Dataset):
         with self.lock:
             if self.predefined_seq_list_order:
                 return len(self.predefined_seq_list_order)
-            if not self.reached_final_seq:
+            if not self.reached_final_seq or self._is_waiting_for_sprint_epoch():
                 raise NotImplementedError
             return self.next_seq_to_be_added
 
@@ -549,6 +574,7 @@ class SprintDatasetBase(Dataset):
         :rtype: bool
         """
         with self.lock:
+            self._wait_for_sprint_epoch()
             if self.next_seq_to_be_added > 0:
                 return True
             self._wait_for_seq(0)
-- 
2.43.0


From 6d7a6c2d46df253b1332befff2beefefb64cd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 24/58] fix: SprintDatasetBase.wait_for_returnn_epoch before
 the first RETURNN epoch

Sprint can be through the first epoch before the train thread has started it.
---
 returnn/datasets/sprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/sprint.py b/returnn/datasets/sprint.py
index ea46884..018474f 100644
--- a/returnn/datasets/sprint.py
+++ b/returnn/datasets/sprint.py
@@ -239,7 +239,7 @@ class SprintDatasetBase(Dataset):
         """
         with self.lock:
             while epoch != self.returnn_epoch:
-                assert epoch > self.returnn_epoch
+                assert self.returnn_epoch is None or epoch > self.returnn_epoch
                 self.cond.wait()
 
     def _is_waiting_for_sprint_epoch(self):
-- 
2.43.0


From aa5ebceddf53989c78401d3f8c7a6a6aece1a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:09 +0000
Subject: [PATCH 25/58] fix: TranslationDataset with seq_list_file, which has
 line numbers, not tags

---
 returnn/datasets/lm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..c303dd8 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1743,12 +1743,12 @@ class TranslationDataset(CachedDataset2):
         """
         super(TranslationDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
 
-        if seq_list is None and self.seq_list:
-            seq_list = self.seq_list
         if seq_order is not None:
             self._seq_order = seq_order
         elif seq_list is not None:
             self._seq_order = [int(s[len(self._tag_prefix) :]) for s in seq_list]
+        elif self.seq_list:
+            self._seq_order = self.seq_list  # line numbers
         else:
             num_seqs = self._get_data_len()
             self._seq_order = self.get_seq_order_for_epoch(
-- 
2.43.0


From ec71b523c0e9198578e4be32ceb3195319e16fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:25 +0000
Subject: [PATCH 26/58] fix: TranslationDataset, request of the line after the
 last one waited forever

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index c303dd8..cb0f499 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1662,7 +1662,7 @@ class TranslationDataset(CachedDataset2):
         while True:
             with self._lock:
                 if self._data_len is not None:
-                    assert line_nr <= self._data_len
+                    assert line_nr < self._data_len
                 cur_len = len(self._data[key])
                 if line_nr < cur_len:
                     return self._data[key][line_nr]
-- 
2.43.0


From a714841c3ad97e4491b43ecab3fbb17aee86e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:38 +0000
Subject: [PATCH 27/58] fix: TranslationDataset.get_all_tags while the data is
 still being loaded

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index cb0f499..7027b23 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1699,7 +1699,7 @@ class TranslationDataset(CachedDataset2):
         """
         :rtype: list[str]
         """
-        return [self._tag_prefix + str(line_nr) for line_nr in range(len(self._data[self.main_source_data_key]))]
+        return [self._tag_prefix + str(line_nr) for line_nr in range(self._get_data_len())]
 
     def get_corpus_seq_idx(self, seq_idx):
         """
-- 
2.43.0


From a6c8ae626aaf617e6e7c583b21e10703ed9f166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 28/58] fix: MetaDataset, init_seq_order without predefined
 order must not keep the predefined order of the same epoch

---
 returnn/datasets/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..8db5603 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -291,6 +291,7 @@ class MetaDataset(CachedDataset2):
 
         self.orig_seq_order_is_initialized = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
+        self._seq_list_ordered_is_predefined = False
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
         """
@@ -395,6 +396,7 @@ class MetaDataset(CachedDataset2):
             self.epoch is None
             or self.epoch != epoch
             or self.seq_list_ordered is None
+            or self._seq_list_ordered_is_predefined
             or seq_list is not None
             or seq_order is not None
             or self.expected_load_seq_start > 0
@@ -438,6 +440,7 @@ class MetaDataset(CachedDataset2):
             seq_index = self.get_seq_order_for_epoch(epoch, self.num_total_seqs, get_seq_len)
         self._num_seqs = len(seq_index)
         self.seq_list_ordered = {key: [ls[s] for s in seq_index] for (key, ls) in self.seq_list_original.items()}
+        self._seq_list_ordered_is_predefined = seq_list is not None or seq_order is not None
 
         for dataset_key, dataset in self.datasets.items():
             assert isinstance(dataset, Dataset)
-- 
2.43.0


From 1f872ef6ff40d8b99c9509a87f6f744b59764f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 29/58] fix: ConcatDataset, restart of the same epoch must also
 restart the sub-datasets

---
 returnn/datasets/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 8db5603..d1205b9 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -785,7 +785,7 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
-- 
2.43.0


From a38883b56ac47de53a280629d055871114051d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 30/58] fix: CombinedDataset, restart of the same epoch must
 also restart the sub-datasets

---
 returnn/datasets/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index d1205b9..b45ebaf 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1036,7 +1036,7 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
-- 
2.43.0


From a27b8829fe3eb87e840fd2377f005f13736cb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:29 +0000
Subject: [PATCH 31/58] fix: CombinedDataset, random_dataset with unknown
 num_seqs: order depends only on the epoch

---
 returnn/datasets/meta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index b45ebaf..388ea70 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -996,6 +996,7 @@ class CombinedDataset(CachedDataset2):
 
         self._estimated_num_seqs = sum([self.datasets[k].estimated_num_seqs for k in sorted(self.datasets.keys())])
         self.estimated_num_seq_per_subset = [self.datasets[k].estimated_num_seqs for k in sorted(self.datasets.keys())]
+        self._initial_estimated_num_seq_per_subset = list(self.estimated_num_seq_per_subset)
 
         if data_dims:
             data_dims = convert_data_dims(data_dims)
@@ -1026,6 +1027,7 @@ class CombinedDataset(CachedDataset2):
         self.dataset_seq_idx_boundaries = None  # type: typing.Optional[typing.List[int]]
         self.dataset_sorted_seq_idx_list = None  # type: typing.Optional[typing.List[typing.Tuple[int,int]]]
         self.used_num_seqs_per_subset = None  # type: typing.Optional[typing.List[int]]
+        self._random_dataset_rng = None  # type: typing.Optional[numpy.random.RandomState]
 
     def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
         """
@@ -1104,6 +1106,8 @@ class CombinedDataset(CachedDataset2):
         else:
             self.dataset_sorted_seq_idx_list = []  # We will fill this as we go
             self.used_num_seqs_per_subset = [0] * len(self.datasets)
+            self.estimated_num_seq_per_subset = list(self._initial_estimated_num_seq_per_subset)
+            self._random_dataset_rng = numpy.random.RandomState(self._get_random_seed_for_epoch(epoch=epoch))
 
         return True
 
@@ -1287,13 +1291,13 @@ class CombinedDataset(CachedDataset2):
                                 nonempty_datasets.append(j)
                         if not nonempty_datasets:
                             return False  # No more data to add
-                        dataset_idx = numpy.random.choice(nonempty_datasets)
+                        dataset_idx = self._random_dataset_rng.choice(nonempty_datasets)
                         self.estimated_num_seq_per_subset[dataset_idx] += 1
                         break
 
                     else:  # We sample from all sets which should contain more data
                         prob_table = [remaining / total_remaining for remaining in expected_remaining_seqs]
-                        dataset_idx = numpy.random.choice(len(self.datasets), p=prob_table)
+                        dataset_idx = self._random_dataset_rng.choice(len(self.datasets), p=prob_table)
                         if self.datasets[self.dataset_idx2key_map[dataset_idx]].is_less_than_num_seqs(
                             self.used_num_seqs_per_subset[dataset_idx]
                         ):
-- 
2.43.0


From 46e79b8bdbc1fee59658ada99526d736d8f4ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:29 +0000
Subject: [PATCH 32/58] fix: CombinedDataset, sampling_sizes with sub-datasets
 which have no seqs before the first epoch

---
 returnn/datasets/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 388ea70..412c970 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1198,6 +1198,10 @@ class CombinedDataset(CachedDataset2):
 
         epoch = self.epoch or 1
 
+        if any(dataset.num_seqs == 0 for dataset in self.datasets.values()):
+            # E.g. epoch None, via initialize(). Nothing to sample from.
+            return []
+
         total_num_seqs = sum(self.sampling_sizes.values())
 
         seq_order = numpy.zeros(total_num_seqs, dtype="int32")
-- 
2.43.0


From bd05f3a153e2472384a76bef561a77fea590c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 33/58] fix: TextDictDataset, load the data also with
 predefined seq_order

---
 returnn/datasets/text_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/text_dict.py b/returnn/datasets/text_dict.py
index 5799232..efda1e7 100644
--- a/returnn/datasets/text_dict.py
+++ b/returnn/datasets/text_dict.py
@@ -149,6 +149,7 @@ class TextDictDataset(CachedDataset2):
             raise ValueError(f"invalid item_format {self.item_format!r}")
 
         if seq_order is not None:
+            self._load()
             self._seq_order = seq_order
         elif seq_list is not None:
             raise NotImplementedError(f"{self}: seq_list not supported yet")
-- 
2.43.0


From 197cbe0066373ecf336a4b7bfd8a056901b99830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 34/58] fix: LmDataset, sampling orth_vocab depends only on the
 epoch

---
 returnn/datasets/lm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 7027b23..d2e30ba 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -507,6 +507,8 @@ class LmDataset(CachedDataset2):
         self.num_unknown = 0
         if self.seq_gen:
             self.seq_gen.random_seed(self._get_random_seed_for_epoch(epoch))
+        if self.orth_vocab:
+            self.orth_vocab.set_random_seed(self._get_random_seed_for_epoch(epoch))
         return True
 
     def get_current_seq_order(self) -> List[int]:
-- 
2.43.0


From 2dff9674932b884ea63e1956cf2d3fd4d24d8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 35/58] fix: CombinedDataset with partition_epoch and
 epoch-dependent order of sub-datasets: every seq once per full epoch

---
 returnn/datasets/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 412c970..b622ab4 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1052,8 +1052,12 @@ class CombinedDataset(CachedDataset2):
         # This way, sorting and partition epoch of the individual sub-datasets is still supported.
         # Later we will call init_seq_order again with a sequence list
         # to e.g. apply joint sorting or partition epoch of all sequences.
+        sub_epoch = epoch
+        if epoch is not None and self.partition_epoch and self.partition_epoch > 1:
+            # Taking partitions requires the same list of available sequences during the full epoch.
+            sub_epoch = (epoch - 1) // self.partition_epoch + 1
         for dataset in self.datasets.values():
-            dataset.init_seq_order(epoch=epoch)
+            dataset.init_seq_order(epoch=sub_epoch)
 
         # noinspection PyBroadException
         try:
-- 
2.43.0


From 834a1f0abff7df3f9354183b5cf4189bdf40166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 36/58] fix: PostprocessingDataset with a dataset with unknown
 num_seqs

---
 returnn/datasets/postprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..ed5ed8b 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -334,6 +334,8 @@ class PostprocessingDataset(CachedDataset2):
             if complete_frac is not None:
                 comp_frac_raw_tensor = numpy.array(complete_frac, dtype=numpy.float32)
                 tensor_dict.data["complete_frac"].raw_tensor = comp_frac_raw_tensor
+            else:
+                del tensor_dict.data["complete_frac"]
             seq_tag_raw_tensor = str_to_numpy_array(self._dataset.get_tag(seq_index))
             tensor_dict.data["seq_tag"].raw_tensor = seq_tag_raw_tensor
 
-- 
2.43.0


From 904b6f7dbf011827d3fd452e6e0f93db19c071b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:51 +0000
Subject: [PATCH 37/58] fix: Dataset.get_complete_frac with too low
 estimated_num_seqs

---
 returnn/datasets/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index eaaefb6..08ef762 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -971,6 +971,8 @@ class Dataset:
                 num_seqs = self.estimated_num_seqs
             except Exception:  # also not always available
                 num_seqs = None  # ignore
+            if num_seqs is not None:
+                num_seqs = max(num_seqs, sorted_seq_idx + 1)  # the estimate might be too low
 
         if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
-- 
2.43.0


From c92ff6e5457ffbb7b8f90b43f634295c29b0ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:30 +0000
Subject: [PATCH 38/58] fix: NativeCodeCompiler: should_cleanup_old_mydir:
 delete only while holding the lock

Before, it deleted (renamed) the directory after it saw that it is not locked,
but another process could have taken the lock in the meantime and be building there,
whose build then failed.
---
 returnn/util/native_code_compiler.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 3bd3c2b..44a333f 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -278,17 +278,37 @@ class NativeCodeCompiler:
                 print("%s: No need to recompile: %s" % (self.__class__.__name__, self._so_filename))
             return
         lock = util.LockFile(self._mod_path)
-        if self._should_cleanup_old_mydir and not lock.is_locked():
-            if os.path.exists(self._mod_path) and self._need_recompile():
-                self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
             if not self._need_recompile():  # check again
                 if self.verbose:
                     print("%s: No need to recompile after we waited: %s" % (self.__class__.__name__, self._so_filename))
                 os.utime(self._info_filename, None)
                 return
+            if self._should_cleanup_old_mydir:
+                self._cleanup_old_mydir(lock)
             self._maybe_compile_inner()
 
+    def _cleanup_old_mydir(self, lock):
+        """
+        Delete everything in our dir. We hold the lock, thus no other proc is just building there.
+
+        :param util.LockFile lock:
+        """
+        import shutil
+
+        print("%s delete old, need recompile: %s" % (self.__class__.__name__, self._mod_path))
+        for name in os.listdir(self._mod_path):
+            if name == lock.name:
+                continue
+            path = "%s/%s" % (self._mod_path, name)
+            if os.path.isdir(path):
+                shutil.rmtree(path, ignore_errors=True)
+            else:
+                try:
+                    os.remove(path)
+                except FileNotFoundError:  # e.g. temp file of the compiler of some crashed proc
+                    pass
+
     def _touch_recently_used(self):
         """
         Touch it so that we can see that we used it recently.
-- 
2.43.0


From 0ffab2519c5d9356b47e6530ae0dbedd308a94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 39/58] fix: torch gradient_checkpoint: keep track of all
 saved_tensors_hooks scopes, in all threads

---
 returnn/torch/util/gradient_checkpoint.py | 99 ++++++++++-------------
 1 file changed, 42 insertions(+), 57 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 901a1ce..5c5acc3 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -24,7 +24,7 @@ from typing import Optional, Union, Any, Callable, Sequence, List, Dict
 from types import MethodType
 from dataclasses import dataclass, field
 import contextlib
-from weakref import ref, WeakSet
+from weakref import ref
 import threading
 import atexit
 
@@ -161,7 +161,7 @@ class gradient_checkpoint_scope:
             # by giving it a ref to the graph tensor.
             # However, we must track any further external calls to saved_tensors_hooks_scope,
             # to be able to properly remove it from the stack at the right point.
-            _register_custom_saved_tensors_hooks(existing_scope=self.saved_tensors_hooks_scope)
+            # See _register_custom_saved_tensors_hooks.
             _register_custom_saved_tensors_hooks_thread_local_callback(
                 _WeakMethod(self._custom_saved_tensors_hooks_callback, return_if_dead=False)
             )
@@ -509,80 +509,66 @@ def _can_exit_saved_tensors_hooks_inside_hooks() -> bool:
     return False
 
 
+class _CustomSavedTensorsHooksThreadLocal(threading.local):
+    # __init__ is called once for every thread
+    def __init__(self):
+        self.stack: List[torch.autograd.graph.saved_tensors_hooks] = []  # all currently entered scopes of this thread
+        self.in_callback = False
+        self.callbacks: List[Callable[[], bool]] = []
+        self.queued_exits: List[torch.autograd.graph.saved_tensors_hooks] = []
+
+
 _orig_saved_tensors_hooks_enter = torch.autograd.graph.saved_tensors_hooks.__enter__
 _orig_saved_tensors_hooks_exit = torch.autograd.graph.saved_tensors_hooks.__exit__
-_custom_saved_tensors_hooks_tls_ctx = threading.local()
-_custom_saved_tensors_hooks_lock = threading.Lock()  # only needed for non thread-locals, i.e. threads, methods
-_custom_saved_tensors_hooks_registered_threads = WeakSet()
+_custom_saved_tensors_hooks_tls_ctx = _CustomSavedTensorsHooksThreadLocal()
 
 
-def _register_custom_saved_tensors_hooks(*, existing_scope: torch.autograd.graph.saved_tensors_hooks):
+def _register_custom_saved_tensors_hooks():
     """
     The purpose of our custom saved_tensors_hooks __enter__/__exit__ is to make sure that
     the order of __exit__ is correct, i.e. that we exit the scope in the correct order.
 
     See :func:`_custom_saved_tensors_hooks_enter` and :func:`_custom_saved_tensors_hooks_exit`.
 
-    There is no need to call :func:`_unregister_custom_saved_tensors_hooks` later.
-    It will be called automatically when the last scope is exited.
+    We always need this, for all scopes in all threads:
+    Any scope (of other code, or another gradient_checkpoint_scope) might be entered before
+    and exited after some gradient_checkpoint_scope,
+    and the ``with`` statement already looks up the ``__exit__`` when the scope is entered.
     """
-    thread = threading.current_thread()
-    with _custom_saved_tensors_hooks_lock:
-        if thread in _custom_saved_tensors_hooks_registered_threads:
-            return
-        if getattr(_custom_saved_tensors_hooks_tls_ctx, "stack", None) is None:
-            _custom_saved_tensors_hooks_tls_ctx.stack = []
-            _custom_saved_tensors_hooks_tls_ctx.in_callback = False
-            _custom_saved_tensors_hooks_tls_ctx.callbacks = []
-            _custom_saved_tensors_hooks_tls_ctx.queued_exits = []
-        _custom_saved_tensors_hooks_tls_ctx.active = True
-        _custom_saved_tensors_hooks_tls_ctx.stack.append(existing_scope)
-        _custom_saved_tensors_hooks_registered_threads.add(thread)
-        if len(_custom_saved_tensors_hooks_registered_threads) == 1:
-            torch.autograd.graph.saved_tensors_hooks.__enter__ = _custom_saved_tensors_hooks_enter
-            torch.autograd.graph.saved_tensors_hooks.__exit__ = _custom_saved_tensors_hooks_exit
+    torch.autograd.graph.saved_tensors_hooks.__enter__ = _custom_saved_tensors_hooks_enter
+    torch.autograd.graph.saved_tensors_hooks.__exit__ = _custom_saved_tensors_hooks_exit
 
 
 def _unregister_custom_saved_tensors_hooks():
-    thread = threading.current_thread()
-    with _custom_saved_tensors_hooks_lock:
-        assert thread in _custom_saved_tensors_hooks_registered_threads
-        assert (
-            not _custom_saved_tensors_hooks_tls_ctx.stack
-            and (_custom_saved_tensors_hooks_tls_ctx.in_callback or not _custom_saved_tensors_hooks_tls_ctx.callbacks)
-            and not _custom_saved_tensors_hooks_tls_ctx.queued_exits
-        ), (
-            f"_unregister_custom_saved_tensors_hooks:"
-            f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
-            f" in_callback {_custom_saved_tensors_hooks_tls_ctx.in_callback},"
-            f" callbacks {_custom_saved_tensors_hooks_tls_ctx.callbacks},"
-            f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits}"
-        )
-        _custom_saved_tensors_hooks_tls_ctx.active = False
-        _custom_saved_tensors_hooks_registered_threads.remove(thread)
-        if not _custom_saved_tensors_hooks_registered_threads:
-            torch.autograd.graph.saved_tensors_hooks.__enter__ = _orig_saved_tensors_hooks_enter
-            torch.autograd.graph.saved_tensors_hooks.__exit__ = _orig_saved_tensors_hooks_exit
+    """
+    The last scope of this thread was exited.
+    """
+    assert (
+        not _custom_saved_tensors_hooks_tls_ctx.stack
+        and (_custom_saved_tensors_hooks_tls_ctx.in_callback or not _custom_saved_tensors_hooks_tls_ctx.callbacks)
+        and not _custom_saved_tensors_hooks_tls_ctx.queued_exits
+    ), (
+        f"_unregister_custom_saved_tensors_hooks:"
+        f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
+        f" in_callback {_custom_saved_tensors_hooks_tls_ctx.in_callback},"
+        f" callbacks {_custom_saved_tensors_hooks_tls_ctx.callbacks},"
+        f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits}"
+    )
 
 
 def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_hooks):
     _custom_saved_tensors_hooks_call_callbacks()
-    # The callbacks might have unregistered us. Only add to the stack if we are still active.
-    if _custom_saved_tensors_hooks_tls_ctx.active:
-        _custom_saved_tensors_hooks_tls_ctx.stack.append(self)
-    return _orig_saved_tensors_hooks_enter(self)
+    res = _orig_saved_tensors_hooks_enter(self)
+    _custom_saved_tensors_hooks_tls_ctx.stack.append(self)
+    return res
 
 
 def _custom_saved_tensors_hooks_exit(
     self: torch.autograd.graph.saved_tensors_hooks, exc_type=None, exc_val=None, exc_tb=None
 ):
     if self not in _custom_saved_tensors_hooks_tls_ctx.stack:
-        raise Exception(
-            f"saved_tensors_hooks __exit__ mismatch."
-            f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
-            f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits},"
-            f" got self {self}"
-        )
+        # Entered before our custom hooks were registered, thus before all the others.
+        _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, self)
     _custom_saved_tensors_hooks_tls_ctx.queued_exits.append(self)
     _custom_saved_tensors_hooks_call_callbacks()
     while _custom_saved_tensors_hooks_tls_ctx.stack:
@@ -596,9 +582,7 @@ def _custom_saved_tensors_hooks_exit(
         _orig_saved_tensors_hooks_exit(scope, exc_type, exc_val, exc_tb)
         exc_type, exc_val, exc_tb = None, None, None  # do not propagate this again (even though it's ignored anyway)
     if not _custom_saved_tensors_hooks_tls_ctx.stack:
-        assert not _custom_saved_tensors_hooks_tls_ctx.queued_exits
-        if _custom_saved_tensors_hooks_tls_ctx.active:  # might have been unregistered in the meantime by callbacks
-            _unregister_custom_saved_tensors_hooks()
+        _unregister_custom_saved_tensors_hooks()
 
 
 def _register_custom_saved_tensors_hooks_thread_local_callback(cb: Callable[[], bool]):
@@ -618,12 +602,13 @@ def _custom_saved_tensors_hooks_call_callbacks():
         _custom_saved_tensors_hooks_tls_ctx.callbacks = [
             cb for cb in _custom_saved_tensors_hooks_tls_ctx.callbacks if cb()
         ]
-        if not _custom_saved_tensors_hooks_tls_ctx.active:  # was cleaned up by some of the callbacks
-            assert not _custom_saved_tensors_hooks_tls_ctx.callbacks and not _custom_saved_tensors_hooks_tls_ctx.stack
     finally:
         _custom_saved_tensors_hooks_tls_ctx.in_callback = False
 
 
+_register_custom_saved_tensors_hooks()
+
+
 def _python_exit_handler():
     global _python_exit
     _python_exit = True
-- 
2.43.0


From 41587b75d1653efe2626f4c8264a246d6835ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 40/58] fix: torch gradient_checkpoint: recompute only once
 when backprop runs in several threads

---
 returnn/torch/util/gradient_checkpoint.py | 32 +++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 5c5acc3..0d194a7 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -268,6 +268,8 @@ class _Graph:
     stored_device_amp_states: Dict[torch.device, Any] = field(default_factory=dict)
     # Keep scope alive as long as any _GraphTensor is alive due to backprop pack_hook.
     gradient_checkpoint_scope_backref: Optional[gradient_checkpoint_scope] = None
+    # Backprop might run in multiple threads.
+    recompute_lock: threading.Lock = field(default_factory=threading.Lock)
 
     def is_any_recorded_tensor_alive(self) -> bool:
         """
@@ -292,7 +294,8 @@ class _Graph:
             kwargs=wrapped_kwargs,
             out_flat_num=len(out_flat),
         )
-        self.ops_to_be_recomputed.append(op)
+        with self.recompute_lock:
+            self.ops_to_be_recomputed.append(op)
         for i, out_flat_elem in enumerate(out_flat):
             if isinstance(out_flat_elem, torch.Tensor):
                 if out_flat_elem in self.graph_tensor_from_weak_raw_tensor:
@@ -351,19 +354,20 @@ class _Graph:
         However, we can at least remove the op from the list once it is computed.
         So once any referenced tensor is not needed anymore, it can be garbage collected.
         """
-        if not self.ops_to_be_recomputed:
-            return
-        with _reset_rng_states_scope(self.stored_device_rng_states), _reset_amp_states_scope(
-            self.stored_device_amp_states
-        ):
-            ops_reversed_queue = list(self.ops_to_be_recomputed)
-            ops_reversed_queue.reverse()
-            self.ops_to_be_recomputed.clear()
-            while ops_reversed_queue:
-                op = ops_reversed_queue.pop(-1)
-                op.recompute()
-        self.stored_device_rng_states.clear()
-        self.stored_device_amp_states.clear()
+        with self.recompute_lock:
+            if not self.ops_to_be_recomputed:
+                return
+            with _reset_rng_states_scope(self.stored_device_rng_states), _reset_amp_states_scope(
+                self.stored_device_amp_states
+            ):
+                ops_reversed_queue = list(self.ops_to_be_recomputed)
+                ops_reversed_queue.reverse()
+                self.ops_to_be_recomputed.clear()
+                while ops_reversed_queue:
+                    op = ops_reversed_queue.pop(-1)
+                    op.recompute()
+            self.stored_device_rng_states.clear()
+            self.stored_device_amp_states.clear()
 
 
 @dataclass
-- 
2.43.0


From 2a3e332f7840c0f24cff1c42eaccc974eb5ed814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 41/58] fix: torch gradient_checkpoint: do not record the
 recomputation when backprop runs inside a scope

---
 returnn/torch/util/gradient_checkpoint.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 0d194a7..3bb4887 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -241,6 +241,13 @@ class gradient_checkpoint_scope:
             return False  # we are done, can delete callback
 
 
+class _RecomputeThreadLocal(threading.local):
+    active = False
+
+
+_recompute_tls_ctx = _RecomputeThreadLocal()
+
+
 class _RecordGraph(TorchDispatchMode):
     def __init__(self):
         super().__init__()
@@ -248,6 +255,9 @@ class _RecordGraph(TorchDispatchMode):
 
     def __torch_dispatch__(self, func, types, args=(), kwargs=None):
         kwargs = {} if kwargs is None else kwargs
+        if _recompute_tls_ctx.active:
+            # Backprop inside the scope. Do not record the recomputation.
+            return func(*args, **kwargs)
         graph = self.graph
         graph.maybe_store_rng_state(torch.device("cpu"))
         graph.maybe_store_amp_state(torch.device("cpu"))
@@ -363,9 +373,13 @@ class _Graph:
                 ops_reversed_queue = list(self.ops_to_be_recomputed)
                 ops_reversed_queue.reverse()
                 self.ops_to_be_recomputed.clear()
-                while ops_reversed_queue:
-                    op = ops_reversed_queue.pop(-1)
-                    op.recompute()
+                _recompute_tls_ctx.active = True
+                try:
+                    while ops_reversed_queue:
+                        op = ops_reversed_queue.pop(-1)
+                        op.recompute()
+                finally:
+                    _recompute_tls_ctx.active = False
             self.stored_device_rng_states.clear()
             self.stored_device_amp_states.clear()
 
-- 
2.43.0


From 9a506fbae0cccef172c3c58897a484c94fdf4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 42/58] fix: torch gradient_checkpoint: recompute without
 autocast, as the recorded ops are those after autocast

---
 returnn/torch/util/gradient_checkpoint.py | 42 ++++++++---------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 3bb4887..5ca1a90 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -20,7 +20,7 @@ https://gist.github.com/soulitzer/ec1049a947be046de7fbc2af61a4ee8c
 
 from __future__ import annotations
 
-from typing import Optional, Union, Any, Callable, Sequence, List, Dict
+from typing import Optional, Union, Any, Callable, Sequence, Iterable, List, Dict
 from types import MethodType
 from dataclasses import dataclass, field
 import contextlib
@@ -77,7 +77,8 @@ __all__ = ["gradient_checkpoint_scope"]
 # We also discuss some potentially better PyTorch API to implement this in an easier way:
 # https://github.com/pytorch/pytorch/issues/129867)
 #
-# For the recomputation, we make sure that we properly reset the RNG and AMP states,
+# For the recomputation, we make sure that we properly reset the RNG state,
+# that autocast is disabled (as the recorded ops are those after autocast),
 # and that we perform the recomputation in the exact same order, such that RNG state is correct.
 #
 # Once some recomputed tensor was used and is not needed anymore, the GC should free it.
@@ -260,7 +261,6 @@ class _RecordGraph(TorchDispatchMode):
             return func(*args, **kwargs)
         graph = self.graph
         graph.maybe_store_rng_state(torch.device("cpu"))
-        graph.maybe_store_amp_state(torch.device("cpu"))
         pytree.tree_map(graph.maybe_store_rng_state, args)
         pytree.tree_map(graph.maybe_store_rng_state, kwargs)
         out = func(*args, **kwargs)
@@ -275,7 +275,6 @@ class _Graph:
         default_factory=WeakTensorKeyDictionary
     )
     stored_device_rng_states: Dict[torch.device, Any] = field(default_factory=dict)
-    stored_device_amp_states: Dict[torch.device, Any] = field(default_factory=dict)
     # Keep scope alive as long as any _GraphTensor is alive due to backprop pack_hook.
     gradient_checkpoint_scope_backref: Optional[gradient_checkpoint_scope] = None
     # Backprop might run in multiple threads.
@@ -330,17 +329,6 @@ class _Graph:
         if device not in self.stored_device_rng_states:
             self.stored_device_rng_states[device] = _get_dev_rng_state(device)
 
-    def maybe_store_amp_state(self, arg: Any):
-        """store AMP state if not yet stored for this device."""
-        if isinstance(arg, torch.Tensor):
-            device = arg.device
-        elif isinstance(arg, torch.device):
-            device = arg
-        else:
-            return
-        if device not in self.stored_device_amp_states:
-            self.stored_device_amp_states[device] = _get_dev_amp_state(device)
-
     def maybe_map_raw_tensor_to_graph_tensor(self, tensor: torch.Tensor) -> Union[_GraphTensor, torch.Tensor]:
         """raw tensor to graph tensor if available, otherwise return raw tensor."""
         return self.graph_tensor_from_weak_raw_tensor.get(tensor, tensor)
@@ -367,8 +355,8 @@ class _Graph:
         with self.recompute_lock:
             if not self.ops_to_be_recomputed:
                 return
-            with _reset_rng_states_scope(self.stored_device_rng_states), _reset_amp_states_scope(
-                self.stored_device_amp_states
+            with _reset_rng_states_scope(self.stored_device_rng_states), _disable_amp_scope(
+                self.stored_device_rng_states
             ):
                 ops_reversed_queue = list(self.ops_to_be_recomputed)
                 ops_reversed_queue.reverse()
@@ -381,7 +369,6 @@ class _Graph:
                 finally:
                     _recompute_tls_ctx.active = False
             self.stored_device_rng_states.clear()
-            self.stored_device_amp_states.clear()
 
 
 @dataclass
@@ -450,16 +437,17 @@ def _set_dev_rng_state(dev: torch.device, state: Any):
 
 
 @contextlib.contextmanager
-def _reset_amp_states_scope(states: Dict[torch.device, Any]):
+def _disable_amp_scope(devs: Iterable[torch.device]):
+    """
+    TorchDispatchMode is below autocast, i.e. we recorded the ops after autocast (all casts are separate recorded ops).
+    So for the recomputation, autocast must be disabled,
+    no matter whether it was enabled for the forward computation (or maybe only for parts of it),
+    and also no matter whether backprop runs under autocast.
+    """
     with contextlib.ExitStack() as stack:
-        for dev, state in states.items():
-            if not state:
-                continue
-            if dev.type == "cpu":
-                stack.enter_context(torch.cpu.amp.autocast(**state))
-            else:
-                device_module = getattr(torch, dev.type)
-                stack.enter_context(device_module.amp.autocast(**state))
+        for dev in devs:
+            if _get_dev_amp_state(dev):
+                stack.enter_context(torch.autocast(dev.type, enabled=False))
         yield
 
 
-- 
2.43.0


From e1a8c8cf9825a31452d7620ba8e33f686e395ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 43/58] fix: torch gradient_checkpoint: do not exit
 saved_tensors_hooks scopes inside backprop

---
 returnn/torch/util/gradient_checkpoint.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 5ca1a90..be9070f 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -175,7 +175,7 @@ class gradient_checkpoint_scope:
         if not self.exit_args:
             return
         # If we are in the right thread, maybe we can do the cleanup now.
-        if self.entered_thread_ref() is threading.current_thread():
+        if self.entered_thread_ref() is threading.current_thread() and not _is_in_backprop():
             if not self.record_graph_scope.graph.is_any_recorded_tensor_alive():
                 self.exit_saved_tensors_hooks_scope()
 
@@ -515,6 +515,18 @@ def _can_exit_saved_tensors_hooks_inside_hooks() -> bool:
     return False
 
 
+def _is_in_backprop() -> bool:
+    """
+    :return: whether we are inside backprop in the current thread.
+        Then we must not exit any saved_tensors_hooks scope which was entered outside of it
+        (e.g. when some tensor is freed, or when torch.utils.checkpoint enters some saved_tensors_hooks scope),
+        as PyTorch restores the thread-local saved_tensors_hooks stack at the end of backprop,
+        which would then have the exited hooks again, where the refs are potentially already freed.
+    """
+    # noinspection PyUnresolvedReferences,PyProtectedMember
+    return torch._C._current_graph_task_id() != -1
+
+
 class _CustomSavedTensorsHooksThreadLocal(threading.local):
     # __init__ is called once for every thread
     def __init__(self):
@@ -603,6 +615,8 @@ def _register_custom_saved_tensors_hooks_thread_local_callback(cb: Callable[[],
 def _custom_saved_tensors_hooks_call_callbacks():
     if _custom_saved_tensors_hooks_tls_ctx.in_callback:
         return  # avoid recursive calls
+    if _is_in_backprop():
+        return  # the callbacks might exit other scopes, see _is_in_backprop
     try:
         _custom_saved_tensors_hooks_tls_ctx.in_callback = True
         _custom_saved_tensors_hooks_tls_ctx.callbacks = [
-- 
2.43.0


From c877fd8aed3a591252862b7e096771bb047931fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:59 +0000
Subject: [PATCH 44/58] fix: CachedDataset: only a single preload thread at a
 time, wait for it, handle its errors

When sequences were requested which were just being loaded, they were marked as loaded,
and the data was all zero.
---
 returnn/datasets/cached.py | 57 ++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/returnn/datasets/cached.py b/returnn/datasets/cached.py
index f095525..9999693 100644
--- a/returnn/datasets/cached.py
+++ b/returnn/datasets/cached.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 from typing import List
 import gc
-import sys
 import time
 import numpy
 import threading
@@ -38,7 +37,10 @@ class CachedDataset(Dataset):
         self.definite_cache_leftover = 0
         self.cache_num_frames_free = 0
         self.preload_set = set([])
+        self.preload_start = 0
         self.preload_end = 0
+        self._preload_thread = None  # type: typing.Optional[threading.Thread]
+        self._preload_exception = None  # type: typing.Optional[BaseException]
         self.alloc_intervals = None  # type: typing.Optional[list]
         self._seq_start = []  # [numpy.array([0,0])]  # uses sorted seq idx, see set_batching()
         self._seq_index = []  # type: typing.List[int]  # Via init_seq_order(). seq_index idx -> hdf seq idx
@@ -94,6 +96,13 @@ class CachedDataset(Dataset):
                 epoch, self._num_seqs, lambda s: self._get_seq_length_by_real_idx(s)[0]
             )
 
+        # Below we might reset anything what the preload thread uses.
+        self._wait_for_preload_thread()
+        if self._preload_exception:
+            # Not everything was loaded. Start from scratch.
+            self._preload_exception = None
+            self.start_cache_initialized = False
+
         old_index_map = self._index_map[:]
         self._index_map = range(len(seq_index))  # sorted seq idx -> seq_index idx
 
@@ -163,6 +172,7 @@ class CachedDataset(Dataset):
         assert self.num_inputs > 0
         assert self.window > 0
         self.preload_set = set([])
+        self.preload_start, self.preload_end = 0, 0
         self.alloc_intervals = [
             (0, 0, numpy.zeros([1] + self.get_data_shape("data"), dtype=self.get_data_dtype("data"))),
             (
@@ -205,11 +215,7 @@ class CachedDataset(Dataset):
         self.num_seqs_cached_at_start = num_cached
         self.cached_bytes_at_start = cached_bytes
         if num_cached > 0:
-            self.preload_end = num_cached
-            if sys.version_info >= (3, 0):
-                threading.Thread(target=self._preload_seqs, args=(0, num_cached), daemon=True).start()
-            else:
-                threading.Thread(target=self._preload_seqs, args=(0, num_cached)).start()
+            self._start_preload_thread(0, num_cached)
 
     def load_seqs(self, start, end):
         """
@@ -230,7 +236,12 @@ class CachedDataset(Dataset):
             return
 
         if self.cache_byte_size_limit_at_start > 0:  # If the cache is enabled.
-            self._load_seqs_with_cache(start, end)
+            if not self.preload_start <= start <= end <= self.preload_end:  # not being loaded right now
+                self._wait_for_preload_thread()
+                if self.is_cached(start, end):
+                    return
+                self._check_preload_exception()
+                self._load_seqs_with_cache(start, end)
             return self.is_cached(start, end, blocking=True)
 
         super(CachedDataset, self).load_seqs(start, end)
@@ -246,7 +257,7 @@ class CachedDataset(Dataset):
                 self.cache_num_frames_free += self.delete(num_needed_cache_frames - self.cache_num_frames_free)
                 gc.collect()
             self.cache_num_frames_free -= num_needed_cache_frames
-            threading.Thread(target=self._preload_seqs, args=(start, end)).start()
+            self._start_preload_thread(start, end)
         else:
             # First, delete everything.
             self.cache_num_frames_free += self.delete(None)
@@ -258,13 +269,34 @@ class CachedDataset(Dataset):
                     break
                 self.cache_num_frames_free -= num_needed_cache_frames
                 end += 1
-            self.preload_end = end
-            threading.Thread(target=self._preload_seqs, args=(start, end)).start()
+            self._start_preload_thread(start, end)
+
+    def _start_preload_thread(self, start, end):
+        """
+        There is only ever a single preload thread, as it modifies the cache.
+        """
+        self._wait_for_preload_thread()
+        self.preload_start, self.preload_end = start, end
+        self._preload_thread = threading.Thread(target=self._preload_seqs, args=(start, end), daemon=True)
+        self._preload_thread.start()
+
+    def _wait_for_preload_thread(self):
+        if self._preload_thread:
+            self._preload_thread.join()
+            self._preload_thread = None
+            self.preload_start, self.preload_end = 0, self.num_seqs_cached_at_start
 
     def _preload_seqs(self, start, end):
         print("Preloading cache from", start, "to", end, file=log.v4)
-        super(CachedDataset, self).load_seqs(start, end)
-        self.preload_end = self.num_seqs_cached_at_start
+        try:
+            super(CachedDataset, self).load_seqs(start, end)
+        except BaseException as exc:
+            self._preload_exception = exc  # will be raised when any such seq is requested
+            raise
+
+    def _check_preload_exception(self):
+        if self._preload_exception:
+            raise Exception("%s: failed to preload seqs" % self) from self._preload_exception
 
     def _shuffle_frames_in_seqs(self, start, end):
         """
@@ -556,6 +588,7 @@ class CachedDataset(Dataset):
         assert start < end
         if blocking and end <= self.preload_end:
             while not set(range(start, end)) <= self.preload_set:
+                self._check_preload_exception()
                 time.sleep(0.2)
             return True
         return set(range(start, end)) <= self.preload_set
-- 
2.43.0


From 8f358b7f76aab7e92717d35111d3b683a7cc70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:56 +0000
Subject: [PATCH 45/58] fix: CachedDataset: cache_num_frames_free: count what
 was requested, reset when the cache is reset

The requested seqs were counted when deleted but not when loaded, thus the cache grew over its limit.
---
 returnn/datasets/cached.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/cached.py b/returnn/datasets/cached.py
index 9999693..b169931 100644
--- a/returnn/datasets/cached.py
+++ b/returnn/datasets/cached.py
@@ -173,6 +173,8 @@ class CachedDataset(Dataset):
         assert self.window > 0
         self.preload_set = set([])
         self.preload_start, self.preload_end = 0, 0
+        if self.nbytes:
+            self.cache_num_frames_free = max(0, self.cache_byte_size_total_limit) // self.nbytes
         self.alloc_intervals = [
             (0, 0, numpy.zeros([1] + self.get_data_shape("data"), dtype=self.get_data_dtype("data"))),
             (
@@ -262,9 +264,14 @@ class CachedDataset(Dataset):
             # First, delete everything.
             self.cache_num_frames_free += self.delete(None)
             gc.collect()
+            # What was requested is loaded in any case.
+            for i in range(max(start, self.num_seqs_cached_at_start), end):
+                self.cache_num_frames_free -= self.get_seq_length_nd(i)[0]
             # Preload as much as we can so that we fill up the cache.
             while end < self.num_seqs:
-                num_needed_cache_frames = self.get_seq_length_nd(end)[0]
+                num_needed_cache_frames = 0  # already loaded
+                if end >= self.num_seqs_cached_at_start:
+                    num_needed_cache_frames = self.get_seq_length_nd(end)[0]
                 if self.cache_num_frames_free - num_needed_cache_frames < 0:
                     break
                 self.cache_num_frames_free -= num_needed_cache_frames
-- 
2.43.0


From bf8996479fdbaad7362ef5fa536952881ad7aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:56 +0000
Subject: [PATCH 46/58] fix: CachedDataset: fully cached but then other seqs
 (via seq_list or seq_order) with same number of seqs

---
 returnn/datasets/cached.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/cached.py b/returnn/datasets/cached.py
index b169931..781fc69 100644
--- a/returnn/datasets/cached.py
+++ b/returnn/datasets/cached.py
@@ -122,6 +122,8 @@ class CachedDataset(Dataset):
             self.cache_byte_size_limit_at_start == 0
             or self.num_seqs_cached_at_start != len(seq_index)
             or not self.start_cache_initialized
+            or self.num_seqs_cached_at_start != len(self._seq_index)
+            or not set(seq_index).issubset(self._seq_index)
         ):
             self._seq_index = seq_index
             self._seq_index_inv = {}  # reset, create later if needed
-- 
2.43.0


From 449a4ab3acd06a1243ee7e2ed604ae0ac654224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:56 +0000
Subject: [PATCH 47/58] fix: HDFDataset.get_data with cache_byte_size=-1: use
 the order of the current epoch

---
 returnn/datasets/hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..4306c41 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -298,7 +298,7 @@ class HDFDataset(CachedDataset):
             return super(HDFDataset, self).get_data(seq_idx, key)
 
         # Otherwise, directly read it from file now.
-        real_seq_idx = self._seq_index[seq_idx]
+        real_seq_idx = self._seq_index[self._index_map[seq_idx]]
         return self._get_data_by_real_seq_idx(real_seq_idx, key)
 
     def get_data_by_seq_tag(self, seq_tag, key):
-- 
2.43.0


From a6b0443da7c571ef1d3b39a42a79805f4cecf81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:18 +0000
Subject: [PATCH 48/58] fix: SiameseHDFDataset: sample triplets reproducibly
 per epoch, without reseeding the global RNG

numpy.random.seed() took a new seed from the OS in every epoch, so the triplets of an epoch could never be reproduced (e.g. after a restart), and it also reset the global Numpy RNG of the whole process.
---
 returnn/datasets/hdf.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 4306c41..c4b6935 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -848,6 +848,7 @@ class SiameseHDFDataset(CachedDataset2):
         self.target_to_seqs = {}  # (int) class_index -> (string) sequence_names
         self.curr_epoch_triplets = []
         self.targets_stream = seq_label_stream
+        self._random = numpy.random.RandomState()
         if files:
             for fn in files:
                 self.add_file(fn)
@@ -943,7 +944,7 @@ class SiameseHDFDataset(CachedDataset2):
             self.seq_order = self.get_seq_order_for_epoch(epoch, len(self.all_seq_names), self._get_seq_length)
 
         # init random seed for siamese triplet sampling
-        numpy.random.seed()
+        self._random.seed(self._get_random_seed_for_epoch(epoch=epoch))
         self._init_triplets()
 
     def _init_triplets(self):
@@ -958,10 +959,10 @@ class SiameseHDFDataset(CachedDataset2):
             # randomly sample same pair
             same_words = self.target_to_seqs[seq_target]
             if len(same_words) > 1:
-                pair_word_idx = numpy.random.randint(0, len(same_words))
+                pair_word_idx = self._random.randint(0, len(same_words))
                 # sample again if pair sequence is the same sequence
                 while same_words[pair_word_idx] == seq_name:
-                    pair_word_idx = numpy.random.randint(0, len(same_words))
+                    pair_word_idx = self._random.randint(0, len(same_words))
                 pair_seq_name = same_words[pair_word_idx]
                 real_pair_idx = self.seq_name_to_idx[pair_seq_name]
             else:
@@ -972,7 +973,7 @@ class SiameseHDFDataset(CachedDataset2):
             while rand_target_val == seq_target:
                 rand_target_val = self._sample_diff_class(seq_target)
             # sample an example from random_target
-            rand_seq_id = numpy.random.randint(0, len(self.target_to_seqs[rand_target_val]))
+            rand_seq_id = self._random.randint(0, len(self.target_to_seqs[rand_target_val]))
             rand_seq_name = self.target_to_seqs[rand_target_val][rand_seq_id]
             real_third_idx = self.seq_name_to_idx[rand_seq_name]
             self.curr_epoch_triplets.append(tuple((real_seq_idx, real_pair_idx, real_third_idx)))
@@ -988,9 +989,9 @@ class SiameseHDFDataset(CachedDataset2):
             classes = list(map(int, list(self.target_to_seqs.keys())))
             probs = numpy.array(distrib[classes])
             probs /= numpy.sum(probs)
-            rand_target_val = numpy.random.choice(classes, size=1, p=probs)[0]
+            rand_target_val = self._random.choice(classes, size=1, p=probs)[0]
         else:
-            random_target = numpy.random.randint(0, len(list(self.target_to_seqs.keys())))
+            random_target = self._random.randint(0, len(list(self.target_to_seqs.keys())))
             rand_target_val = list(self.target_to_seqs.keys())[random_target]
 
         return rand_target_val
-- 
2.43.0


From c5cf3280608b29f1be38cac69f05a83a0a9dca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:18 +0000
Subject: [PATCH 49/58] fix: TaskVariableAssignmentDataset: random.choice needs
 a sequence, not dict keys

This always failed in Python 3.
---
 returnn/datasets/generating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..8b41e8e 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -583,7 +583,7 @@ class TaskVariableAssignmentDataset(GeneratingDataset):
             seq += "S(%s,%s)" % (key, value)
             store[key] = value
         # Now one query.
-        key = self.random.choice(store.keys())
+        key = self.random.choice(list(store.keys()))
         value = store[key]
         seq += ",Q(%s)" % key
         seq += "%s." % value
-- 
2.43.0


From 11b0dc8fa2ca77eeb96c7528f34d51a9d92f0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 50/58] fix: SimpleHDFWriter extend_existing_file: keep the
 existing labels of the extra data

---
 returnn/datasets/hdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index c4b6935..490971b 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1196,7 +1196,9 @@ class SimpleHDFWriter:
             if data_key in extra_labels:
                 labels = extra_labels[data_key]
                 assert len(labels) == dim
-            hdf5_strings(self._file, "targets/labels/%s" % data_key, labels)
+            # When extending, keep the existing labels, unless we explicitly got new ones.
+            if not self.extend_existing_file or data_key in extra_labels:
+                hdf5_strings(self._file, "targets/labels/%s" % data_key, labels)
             if ndim == 0:
                 ndim = 1  # we will automatically add a dummy-dim
             shape = [None] * ndim  # type: typing.List[typing.Optional[int]]
-- 
2.43.0


From 074dfa869aff7126888ae4eff1f42147cbd90c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 51/58] fix: SimpleHDFWriter extend_existing_file: correct seq
 lengths with multiple extra data keys

---
 returnn/datasets/hdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 490971b..2a4d3dd 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,7 @@ class SimpleHDFWriter:
             self._seq_tags = self._file.create_dataset("seqTags", (0,), dtype=dt, maxshape=(None,))
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
+        self._extra_cur_seq_len = {}  # type: typing.Dict[str,int]  # key -> num-steps of the last inserted seq
         self._prepared_extra = set()
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
@@ -1286,8 +1287,9 @@ class SimpleHDFWriter:
             # Thus, seq_lengths might have become invalid. Reinit them.
             assert seq_idx == 0 or self.extend_existing_file  # We can only do that in the beginning.
             for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra)):
-                self._seq_lengths[seq_idx, data_key_idx_0 + 1] = self._extra_num_time_steps[data_key_]
+                self._seq_lengths[seq_idx, data_key_idx_0 + 1] = self._extra_cur_seq_len.get(data_key_, 0)
 
+        self._extra_cur_seq_len[data_key] = raw_data.shape[0]
         self._extra_num_time_steps[data_key] += raw_data.shape[0]
         self._datasets[data_key].resize(self._extra_num_time_steps[data_key], axis=0)
 
-- 
2.43.0


From b723c89222c78121ba5bd74fa8e511e13deb2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:30 +0000
Subject: [PATCH 52/58] fix: SimpleHDFWriter.close: replace the destination
 atomically, also when the rename fails

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 2a4d3dd..e6fcecb 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1404,7 +1404,8 @@ class SimpleHDFWriter:
                 os.path.basename(self.filename),
             )
             shutil.copyfile(self.tmp_filename, tmp_dest_filename)
-            shutil.move(tmp_dest_filename, self.filename)
+            # Not shutil.move: That falls back to a (non-atomic) copy when the rename fails.
+            os.replace(tmp_dest_filename, self.filename)
             os.remove(self.tmp_filename)
             self.tmp_filename = None
 
-- 
2.43.0


From 31f32d4a6144079872b3f51f73b96f525681ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:10 +0000
Subject: [PATCH 53/58] fix: import_: never use an incomplete Git clone or work
 tree of a killed or concurrent process

---
 returnn/import_/git.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/returnn/import_/git.py b/returnn/import_/git.py
index 7e7f69f..6d0d429 100644
--- a/returnn/import_/git.py
+++ b/returnn/import_/git.py
@@ -40,8 +40,10 @@ Currently always assumed to be remote, and then cached in our repo cache.
 """
 
 import os
+import shutil
 import typing
-from subprocess import check_call, check_output, SubprocessError
+import uuid
+from subprocess import call, check_call, check_output, SubprocessError
 import re
 from . import common
 
@@ -185,6 +187,15 @@ def _version_from_date_and_rev(date, rev):
     return "%s-%s" % (date, rev)
 
 
+def _tmp_path(repo):
+    """
+    :param str repo:
+    :return: some unused path in the same directory as the main repo dir and all the version dirs
+    :rtype: str
+    """
+    return "%s.tmp-%s" % (_main_repo_path(repo), uuid.uuid4().hex)
+
+
 def _sys_git_clone_repo(repo):
     """
     :param str repo:
@@ -192,7 +203,17 @@ def _sys_git_clone_repo(repo):
     url = _repo_remote_url(repo)
     main_path = _main_repo_path(repo)
     common.logger.info("Git clone %s", repo)
-    check_call(["git", "clone", url, main_path])
+    # Clone to a temporary path first, such that an incomplete clone (killed, or another process still clones)
+    # is never mistaken for the repo.
+    tmp_path = _tmp_path(repo)
+    check_call(["git", "clone", url, tmp_path])
+    try:
+        os.rename(tmp_path, main_path)
+    except OSError:
+        if not os.path.exists(main_path):
+            raise
+        # Another process was faster.
+        shutil.rmtree(tmp_path, ignore_errors=True)
 
 
 def _sys_git_fetch(repo):
@@ -216,8 +237,23 @@ def _sys_git_create_repo_workdir(repo, version):
     main_path = _main_repo_path(repo)
     rev = _rev_from_version(version)
     version_path = _repo_path(repo, version)
+    if os.path.exists(version_path):  # another process might have created it meanwhile
+        return
     common.logger.info("Git add worktree %s: %s", repo, version)
-    check_call(["git", "worktree", "add", version_path, rev], cwd=main_path)
+    # Use a temporary path first, such that an incomplete worktree (killed, or another process is still at it)
+    # is never mistaken for that version.
+    tmp_path = _tmp_path(repo)
+    check_call(["git", "worktree", "add", "--detach", tmp_path, rev], cwd=main_path)
+    try:
+        os.rename(tmp_path, version_path)
+    except OSError:
+        if not os.path.exists(version_path):
+            raise
+        # Another process was faster.
+        shutil.rmtree(tmp_path, ignore_errors=True)
+        return
+    # Let Git know about the final path. Not critical.
+    call(["git", "worktree", "repair", version_path], cwd=main_path)
 
 
 def _sys_git_stat_local_rev(repo, rev):
-- 
2.43.0


From 4733862b7c16b8761aa472fba649fead4fb8cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:10 +0000
Subject: [PATCH 54/58] fix: import_: making the package dirs ready works with
 concurrent or killed processes

---
 returnn/import_/common.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/returnn/import_/common.py b/returnn/import_/common.py
index e9dfe2e..e653c92 100644
--- a/returnn/import_/common.py
+++ b/returnn/import_/common.py
@@ -5,6 +5,7 @@ Some global configurations
 import sys
 import os
 import typing
+import uuid
 import logging
 
 ModuleNamePrefix = "returnn_import."
@@ -92,15 +93,16 @@ def _mk_py_pkg_dirs(start_path, end_path=None):
         end_path = start_path
     path = start_path
     while True:
-        if os.path.exists(path):
-            assert os.path.isdir(path) and not os.path.islink(path) and os.path.exists(path + "/__init__.py")
-        else:
-            os.mkdir(path)
-            with open(path + "/__init__.py", "x") as f:
+        # Note: Other processes might do this at the same time, or might have been killed in the middle of it.
+        os.makedirs(path, exist_ok=True)
+        assert os.path.isdir(path) and not os.path.islink(path)
+        if not os.path.exists(path + "/__init__.py"):
+            tmp_filename = "%s/.__init__.py.tmp-%s" % (path, uuid.uuid4().hex)
+            with open(tmp_filename, "x") as f:
                 f.write("# automatically generated by RETURNN\n")
                 f.write("from returnn.import_.common import setup_py_pkg\n")
                 f.write("setup_py_pkg(globals())\n")
-                f.close()
+            os.replace(tmp_filename, path + "/__init__.py")
         if len(path) == len(end_path):
             break
         p = end_path.find("/", len(path) + 1)
@@ -219,11 +221,13 @@ def module_name(repo, repo_path, path, version, make_ready=True):
         symlink_target = "%s%s/%s" % (repo_path, rel_pkg_dir, rel_pkg_path0)
         symlink_file = symlink_file.rstrip("/")
         symlink_target = symlink_target.rstrip("/")
-        if os.path.exists(symlink_file):
-            assert os.readlink(symlink_file) == symlink_target
-        else:
+        if not os.path.exists(symlink_file):
             logger.debug("Symlink %s -> %s", symlink_file, symlink_target)
-            os.symlink(symlink_target, symlink_file, target_is_directory=os.path.isdir(symlink_target))
+            try:
+                os.symlink(symlink_target, symlink_file, target_is_directory=os.path.isdir(symlink_target))
+            except FileExistsError:
+                pass  # another process was faster. checked below
+        assert os.readlink(symlink_file) == symlink_target
 
         _register_module(
             mod_name=ModuleNamePrefix + _normalize_pkg_name(repo_v + rel_pkg_dir).replace("/", "."),
-- 
2.43.0


From 0afae3df5b3cfee4fdb1b838e07ea6a0d35a4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:09 +0000
Subject: [PATCH 55/58] fix: split batch on OOM in forward, batch-independent
 values (num_seqs, epoch, complete_frac)

---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..ddedefd 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if v.ndim == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac, see collate_batch
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From 423e1ccd1bbd642cbdb0fb66dc9791a4e4f46dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:09 +0000
Subject: [PATCH 56/58] fix: torch engine, log verbosity 5 with unknown num
 seqs (complete_frac -1)

---
 returnn/torch/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index b0b1940..52df252 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -1449,6 +1449,8 @@ def _print_process(
     :param log_memory_usage_device: if given, will log memory usage (peak allocated memory)
     :return: nothing, will be printed to log
     """
+    if complete_frac is not None and complete_frac < 0:
+        complete_frac = None  # unknown, see ReturnnDatasetIterDataPipe
     if log.verbose[5]:  # report every minibatch
         if step == 0 and num_seqs is not None and num_seqs >= 0:
             print(f"{report_prefix} num_seqs: {num_seqs}", file=log.v5)
-- 
2.43.0


From 0d1d783d03beaba2da2dfe32a915ca161eae06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:09 +0000
Subject: [PATCH 57/58] fix: torch engine, forward with
 dataset_init_epoch=False and multiprocessing loader opts

---
 returnn/torch/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index 52df252..83eeddd 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -793,6 +793,9 @@ class Engine(EngineBase):
             # Multiprocessing does not quite work with this
             # (the serialization of the dataset state does not cover the current seq order).
             loader_opts["num_workers"] = 0
+            # These are only allowed together with multiprocessing.
+            for opt in ["prefetch_factor", "persistent_workers", "timeout", "multiprocessing_context"]:
+                loader_opts.pop(opt, None)
 
         data_loader = data_pipeline.create_data_loader_from_batches(batches_dataset, loader_opts)
 
-- 
2.43.0


From 595a213daa6672d85e7581d6c3a7f3d7c402b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:31 +0000
Subject: [PATCH 58/58] fix: learning rate control, newbob with Numpy scores
 (Numpy bools)

---
 returnn/learning_rate_control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/learning_rate_control.py b/returnn/learning_rate_control.py
index 3d59e3e..bd17590 100644
--- a/returnn/learning_rate_control.py
+++ b/returnn/learning_rate_control.py
@@ -223,10 +223,11 @@ class LearningRateControl:
         :return: lr with decay or growth applied
         :rtype: float
         """
-        assert isinstance(decay, bool)
+        # The scores might be Numpy scalars, thus comparisons might give Numpy bools.
+        assert isinstance(decay, (bool, numpy.bool_))
         if grow is None:
             grow = not decay
-        assert isinstance(grow, bool)
+        assert isinstance(grow, (bool, numpy.bool_))
         assert not (grow and decay)  # not sure if this makes sense...
         if decay:
             learning_rate = self._calc_learning_rate_decay(learning_rate)
-- 
2.43.0

