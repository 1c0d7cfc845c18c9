From 34a262f81374b0756883b9b3cae5710d8c82e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 01/95] fix: a process killed by a signal has finished

Only CLD_EXITED marked a process as done, so waiting for a pipeline with
a killed (or core dumped) process never returned. WCOREDUMP() is only
meaningful for signaled processes: a continued process has that bit set
too, and must not be taken for a dumped one.
---
 pieshell/signalio/__init__.py    | 2 +-
 pieshell/signalio/signalutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..f8ae059 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,7 +68,7 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
+            elif os.WIFSIGNALED(status) and os.WCOREDUMP(status):
                 res["ssi_code"] = CLD_DUMPED
                 res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFCONTINUED(status):
-- 
2.43.0


From efb68324dc07b1f1c7350529fdb515bb73cecaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 02/95] fix: a function that raised has finished

The exception went through await_finish(), so the pipeline was never
told, and wait() never returned if the function was last to finish.
---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..7b69783 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Available as self.iohandler.exception, see is_failed
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From b8b3839a61f8c06215d1dc8ddd57791efb46a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 03/95] fix: STRING content that is not valid UTF-8 no longer
 hangs the pipeline

Decoding errors were raised while the pipeline was being finished, so
wait() never returned (stderr is a STRING redirect by default).
---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7b69783..edc2a06 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -212,7 +212,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, encoding="utf-8", errors="replace") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 8f600e190912612876c0ef194ab5897b081d2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 04/95] fix: several tasks can wait for the same pipeline

Each call to wait() replaced the future of the previous one, which was
then never woken up. Cancelling a wait() (e.g. asyncio.wait_for) left a
cancelled future behind that could not be given a result.
---
 pieshell/pipeline/running.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index edc2a06..b489d9d 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,11 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    # Shared by everyone waiting, so one of them being
+                    # cancelled must not cancel it for the others.
+                    await asyncio.shield(self.finish_future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
-- 
2.43.0


From 0d20dff561b746864cf417eada5e0584cee391fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 05/95] fix: several redirects can have the same source fd

Redirect("stderr", 1) closed fd 1 when stdout was moved out of the way,
so moving it again for stderr failed, and the command ran with both
closed. In the parent the shared fd was closed twice, or even though
one of the redirects had only borrowed it.
---
 pieshell/redir.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..37c53a6 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -111,10 +111,10 @@ class Redirect(object):
     def move(self, fd):
         self = Redirect(self)
         if isinstance(self.source, int):
+            # Do not close the old source, another redirect might have
+            # it as source too - close_other_fds() closes it in the end.
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
@@ -223,7 +223,12 @@ class Redirects(object):
             else:
                 log.log("CLOSE OTHER FDS %s" % (i,), "fd")
     def close_source_fds(self):
+        # Several redirects can have the same source
+        sources = {}
         for redirect in self.redirects.values():
+            if redirect.borrowed or redirect.source not in sources:
+                sources[redirect.source] = redirect
+        for redirect in sources.values():
             redirect.close_source_fd()
     def __getattr__(self, name):
         if name == "redirects":
-- 
2.43.0


From b23a26ae64b749716978c7afc429981ee478e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/95] fix: do not run commands whose redirects failed

If a redirect could not be set up (e.g. the file does not exist), the
error was only logged, and the command was run anyway, with whatever fds
the shell had open. A file that was opened as the very fd it should be
redirected to is not an error.
---
 pieshell/redir.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 37c53a6..4910e58 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,10 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            # The file happened to be opened as the right fd
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -211,6 +214,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From baee390ac9c35bb5e4ae515fd05df8e449a5395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 07/95] fix: writing an item must not block the event loop

A ready pipe only guarantees that PIPE_BUF bytes can be written without
blocking, and only until something else is written. A bigger item (or one
written on the previous event) blocked the whole event loop in write(),
for ever if what was to read the pipe depended on that same loop.
---
 pieshell/iterio.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..00ced25 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -69,6 +69,7 @@ class OutputHandler(IOHandler):
 
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
+        self.pending = b""
         self.recursion_lock = False
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
@@ -94,7 +95,16 @@ class OutputHandler(IOHandler):
         IOHandler.destroy(self)
 
     def handle_event(self, event):
-        asyncio.get_event_loop().create_task(self.send_output())
+        if not self.pending:
+            asyncio.get_event_loop().create_task(self.send_output())
+            return
+        # Being ready for writing only guarantees that this much can
+        # be written without blocking the whole event loop.
+        try:
+            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            self.pending = self.pending[written:]
+        except Exception as e:
+            self.destroy(e)
 
     def get_iter(self):
         if not hasattr(self.iter, "__anext__"):
@@ -104,14 +114,14 @@ class OutputHandler(IOHandler):
         return self.iter
             
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.pending: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val)                
+                self.pending = memoryview(val)
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -126,14 +136,14 @@ class OutputHandler(IOHandler):
 
 class LineOutputHandler(OutputHandler):
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.pending: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val + b"\n")
+                self.pending = memoryview(val + b"\n")
             log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
-- 
2.43.0


From b287ba71ff3f63de380de59cd128fb2318010f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 08/95] fix: close the standard in of a function that has
 returned

If it had not read all of its input, what was writing to it was never
told that noone was reading anymore, and the pipeline never finished.
---
 pieshell/pipeline/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..81af666 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -83,11 +83,11 @@ class Function(base.Pipeline):
             else:
                 return str(x).encode("utf-8")
 
+        stdin = None
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -108,6 +108,10 @@ class Function(base.Pipeline):
                 redirects.stdout.open(False),
                 thing,
                 usage=self))
+        if stdin is not None:
+            # A function does not have to read all of its input
+            self._running_process.iohandler.done_future.add_done_callback(
+                lambda future: stdin.destroy())
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
-- 
2.43.0


From 57839c8ea3d2844a255673a963c06d49da10e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 09/95] fix: builtins that run nothing are not running
 pipelines

cd, bg and clear_dir_cache were added to running_pipelines after they
had finished, and so never removed, and replaced last_pipeline, so that
fg after bg did nothing.
---
 pieshell/pipeline/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..54771b0 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -149,8 +149,11 @@ class Pipeline(DescribableObject):
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
-        self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if processes:
+            # cd, bg and the like run nothing, and must not hide what
+            # was last run from e.g. fg.
+            self._env.last_pipeline = pipeline
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From d2f89fc498b01ce472353699105d17ab421d0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 10/95] fix: an environment without environment variables is
 its own

env(exports={}) used, and modified, os.environ.
---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..dc8f635 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,7 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        return os.environ if self._exports_value is None else self._exports_value
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From 70302f488557fe17a53aff67c55b12bca78f01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 11/95] fix: dir(env) with a non-existing directory in PATH

---
 pieshell/environ.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index dc8f635..68c23d8 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -170,7 +170,10 @@ class Environment(object):
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                try:
+                    self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # Directories in PATH do not have to exist
             self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
             self._dir_cache.sort()
         return self._dir_cache
-- 
2.43.0


From 3574f5ca2e57834bd84afb3c6952d834321dcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 12/95] fix: clear_dir_cache cleared nothing

self.env is a command with the argument "env", not the environment.
---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..6c9e2c4 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -85,7 +85,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-- 
2.43.0


From 86737f1b6afb179915ec72a54c5a0bf92298df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 13/95] fix: CTRL-Z without signalfd

The asyncio signal manager took every signal for the last one in its
mask, and never told anyone about a SIGTSTP.
---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..49cc730 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, self.handle_event, signo)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From 820fdc3a38b16be908abc462c169b5651283f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 14/95] fix: unpickling R()

Looking for __setstate__ recursed for ever, so e.g. remote() could not run
commands with R() arguments.
---
 pieshell/environ.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 68c23d8..5a85ac5 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,7 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str": raise AttributeError(name) # Not unpickled yet
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
-- 
2.43.0


From fd7420f7b5db30b05f1b1804cf748e3954f13e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 15/95] fix: importing a missing module of a namespace package

The path of a namespace package is iterable, but not a list or tuple, and
was taken for a single path, so a TypeError was raised in place of an
ImportError (and pysh modules in namespace packages were not found).
---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..659a6f0 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -31,7 +31,7 @@ class Finder(object):
         paths = sys.path
         if path is not None:
             paths = path
-        if not isinstance(paths, (list, tuple)):
+        if isinstance(paths, str):
             paths = [paths]
         found = None
         for path in paths:
-- 
2.43.0


From 6f53867417591b65a1728c7be5c0d48cce212cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 16/95] fix: pieshell --log

log.debug is gone since logging is done with the logging module.
---
 pieshell/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..3fefb6e 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -5,6 +5,7 @@ import readline
 import atexit
 import pickle
 import base64
+import logging
 
 from . import environ
 from . import log
@@ -61,7 +62,7 @@ Where OPTIONS are any of
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-                log.debug[name] = True
+                logging.getLogger(name).setLevel(logging.INFO)
 
         with environ.envScope:
             environ.envScope["args"] = args
-- 
2.43.0


From 07aa00c21b53da5f0aef6fb0e265d2dabf0262dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 17/95] fix: a failing cd must not change the environment

It was possible to cd to a file, and in an interactive environment the
current directory was changed even when os.chdir() failed.
---
 pieshell/environ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 5a85ac5..8ac745a 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -95,11 +95,11 @@ class Environment(object):
         return res
     def _cd(self, cwd):
         cwd = self._expand_path(cwd)
-        if not os.path.exists(cwd):
+        if not os.path.isdir(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From a92024a864893b923d86effecacab2f45cafe2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 18/95] fix: files to redirect to are relative to the
 environment

Relative names in redirects were relative to the current directory of
the python process, unlike everything else in a command line, which is
relative to the current directory of the environment.
---
 pieshell/pipeline/builtins.py | 2 +-
 pieshell/pipeline/command.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 6c9e2c4..0ecdd61 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -180,8 +180,8 @@ class SubShell(command.Command, builtin.Builtin):
         return item
                        
     def _child(self, redirects, args):
-        redirects.perform()
         os.chdir(self._env._cwd)
+        redirects.perform()
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
         try:
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..eafb27f 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -173,8 +173,8 @@ class Command(command.BaseCommand):
     find). """
 
     def _child(self, redirects, args):
-        redirects.perform()
         os.chdir(self._env._cwd)
+        redirects.perform()
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From 522e4bd5ac5b080d4b884699f84de35a2d787203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 19/95] fix: all output of a + b can be read or piped

Each of them got a pipe of its own, and only the one of b was connected
to anything, so the output of a was lost, or blocked it for ever.
---
 pieshell/pipeline/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..46c649e 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,8 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both pipelines write to the same pipes
+        redirects = redirects.make_pipes()
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -43,7 +45,7 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
-        self._redirects = self.a._redirects.merge(self.b._redirects)
+        self._redirects = redirects
 
         redirects.close_source_fds()
 
-- 
2.43.0


From 006fe3f281e22ec2fc2277a0a00bbcc73d73975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 20/95] fix: close the pipe to a command whose standard in is
 redirected

In foo | (bar < "file") noone reads what foo writes, but the reading end
of its pipe was left open in the shell, so foo was never told.
---
 pieshell/pipeline/redirect.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index c85aab5..8eecbf0 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -38,6 +38,11 @@ class CmdRedirect(base.Pipeline):
 
         log.log(indentation + "Running [%s] with %s" % (repr(self), repr(redirects)), "cmd")
 
-        res = self.pipeline._run(redirects.merge(self.cmd_redirects), indentation + "  ")
+        for fd in self.cmd_redirects.redirects:
+            if fd in redirects.redirects:
+                # Replaced, so noone else will
+                redirects.redirects[fd].close_source_fd()
+
+        res = self.pipeline._run(redirects.merge(self.cmd_redirects), sess, indentation + "  ")
         self._redirects = self.pipeline._redirects
         return res
-- 
2.43.0


From f058585005a76ecdc57e40614bcb16f3776842f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 21/95] fix: a subshell never returns to the code that started
 it

SystemExit was not caught in the child process, so it ran the finally
clauses, exit handlers and so on of the parent. A subshell also
succeeded when a pipeline in it failed unless its last process did.
---
 pieshell/pipeline/builtins.py | 8 +++++++-
 pieshell/pipeline/command.py  | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 0ecdd61..6904855 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -189,10 +189,16 @@ class SubShell(command.Command, builtin.Builtin):
         except Exception as e:
             sys.stderr.write(str(e))
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
+                sys.exit(e.pipeline.exit_code or 1)
             sys.exit(1)
+        finally:
+            sys.stdout.flush()
         sys.exit(0)
 
+    def _run(self, redirects, sess, indentation = ""):
+        sys.stdout.flush() # Or it would be written by the child too
+        return command.Command._run(self, redirects, sess, indentation)
+
 class Remote(builtin.Builtin):
     name = "remote"
 
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index eafb27f..a4ccc1a 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -226,7 +226,9 @@ class Command(command.BaseCommand):
             ecode = -1
             try:
                 self._child(redirects, args)
-            except Exception as e:
+            except SystemExit as e:
+                ecode = e.code if isinstance(e.code, int) else 1
+            except BaseException as e:
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
                 ecode = getattr(e, "errno", ecode)
             # If we ever get to here, all is lost...
-- 
2.43.0


From 950ee76cba27897c792adb5d83b67692ac4131fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 22/95] fix: do not send signals to processes that have
 finished

wait() sent SIGCONT to the pids of all processes of the pipeline, also
those of finished ones, which can have been reused by then.
---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b489d9d..4f11b8e 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -267,11 +267,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return # The pid could be someone else by now
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From 82995c0c8aa3cb83b10a7b06c97dfb11eca06338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 23/95] fix: fg of a pipeline that fails or is suspended again

---
 pieshell/pipeline/builtins.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 6904855..4a5b6fc 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -57,15 +57,24 @@ class BgBuiltin(builtin.Builtin):
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
         self.wrapped_pipeline = pipeline
+        self.suspended = False
         asyncio.get_event_loop().create_task(self.await_finish())
     @property
     def is_running(self):
-        return self.wrapped_pipeline.is_running
+        return self.wrapped_pipeline.is_running and not self.suspended
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        try:
+            await self.wrapped_pipeline.wait()
+        except running.PipelineSuspended:
+            # In the background again, and what the next fg is about
+            self.suspended = True
+            self.running_pipeline.pipeline_suspended = True
+            self.running_pipeline.pipeline._env.last_pipeline = self.wrapped_pipeline
+        except running.PipelineError:
+            pass # See is_failed
         self.running_pipeline.handle_finish()
     
 class FgBuiltin(builtin.Builtin):
-- 
2.43.0


From 7f31e738c70d45cdaa6a67a84d5d72766997df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 24/95] fix: CTRL-C raises PipelineInterrupted

---
 pieshell/pipeline/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 54771b0..6626201 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -162,7 +162,14 @@ class Pipeline(DescribableObject):
         return pipeline
     
     def run_interactive(self):
-        return asyncio.get_event_loop().run_until_complete(self.async_run_interactive())
+        pipeline = self.run()
+        try:
+            asyncio.get_event_loop().run_until_complete(pipeline.wait())
+        except KeyboardInterrupt as e:
+            # CTRL-C is raised in whatever the event loop was doing
+            if isinstance(e, running.PipelineError): raise
+            raise running.PipelineInterrupted(pipeline)
+        return pipeline
         
     def __pos__(self):
         return self.run_interactive()
-- 
2.43.0


From f3eaf9fe51aabfe23fa6127ae756228b7ced2db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 25/95] fix: commands do not inherit the log

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..89a00df 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, inheritable=False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From 773c009743b9e187fcdadba07956d00381dcc1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 26/95] fix: cancelling a read must not break the next one

---
 pieshell/iterio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 00ced25..559ad49 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -168,7 +168,8 @@ class InputHandler(IOHandler):
                 self.eof = True
                 self.destroy()
         if self.future is not None:
-            self.future.set_result(None)
+            if not self.future.done(): # Cancelled
+                self.future.set_result(None)
             self.future = None
 
     def __aiter__(self):
@@ -207,7 +208,8 @@ class LineInputHandler(InputHandler):
                 self.eof = True
                 self.destroy()
             if self.future is not None:
-                self.future.set_result(None)
+                if not self.future.done(): # Cancelled
+                    self.future.set_result(None)
                 self.future = None
 
     def __aiter__(self):
-- 
2.43.0


From b979884e25630c4778c9b3eebf912f350bad4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 27/95] fix: CTRL-Z after waiting for a background pipeline

---
 pieshell/pipeline/running.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4f11b8e..4cc416b 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -104,7 +104,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                stop_signal_handler.current_pipeline = None
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From d7b1fcefb0c0e4d29c4fc68bbbd29954a1fa4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 28/95] fix: setting the default redirects of an environment

---
 pieshell/environ.py | 2 +-
 pieshell/redir.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 8ac745a..128e1f3 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -140,7 +140,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4910e58..4322cfa 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -245,7 +245,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From bc1f20fb6549cbcb6ce409d3db7c209c2da07f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 29/95] fix: default redirects are the environment's own

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 128e1f3..d377696 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -120,7 +120,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
-- 
2.43.0


From ba1f5e09eea31e8540b2097fa2c9b41df8101989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 30/95] fix: functions with their standard in or out redirected
 to files

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 559ad49..99434c2 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Files and the like can not be polled, they are always ready
+            def always_ready():
+                if self.enabled and not self.destroyed:
+                    callback(self.events)
+                    loop.call_soon(always_ready)
+            loop.call_soon(always_ready)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From f813743f01be91434d11682bf781052d297aac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 31/95] fix: a function that is not a generator fails its
 pipeline too

---
 pieshell/pipeline/function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 81af666..3f79041 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -25,6 +25,10 @@ from . import command
 import types
 
     
+async def failed(exception):
+    raise exception
+    yield
+
 class Function(base.Pipeline):
     """Encapsulates a function or iterator so that it can be used
     inside a pipeline. An iterator can only have its output piped into
@@ -87,7 +91,11 @@ class Function(base.Pipeline):
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
             stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+            try:
+                thing = thing(stdin, *self._arg, **self._kw)
+            except Exception as e:
+                # Same as if it had been raised when iterating
+                thing = failed(e)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
-- 
2.43.0


From 6d50861c4ec20e728f2fcf7bbc702059e92388c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 32/95] fix: the standard in of a command after a redirected
 one is empty

---
 pieshell/pipeline/pipe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 64afa7d..6f7dabd 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -42,7 +42,10 @@ class Pipe(base.Pipeline):
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
         src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
-        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", self.src._redirects.stdout.pipe), sess, indentation + "  ")
+        src_stdout = self.src._redirects.stdout.pipe
+        if src_stdout is None:
+            src_stdout = "/dev/null" # The source has redirected it
+        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", src_stdout), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
-- 
2.43.0


From 9e7b50482f224431e86da57279d7152b03d74c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 33/95] fix: using the default configuration without a copy of
 it

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index d377696..8ba3a59 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -262,6 +262,8 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
+        if isinstance(content, bytes): # From a resource
+            content = content.decode("utf-8")
         code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
 
     def execute_expr(self, expr):
-- 
2.43.0


From 8f088535a3761365ecd3deaada612c38d517f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 34/95] fix: variables in arguments in pysh modules

---
 pieshell/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index 659a6f0..165aca3 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -21,6 +21,7 @@ class Loader(object):
         if fullname not in sys.modules:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
+            scope["env"] = env
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
         sys.modules[fullname]._scope.execute_file(self.path)
         return sys.modules[fullname]
-- 
2.43.0


From 69ad8a40df236a3c7e32ecce23416b8d70d59545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 35/95] fix: pipelines can be run from any event loop

---
 pieshell/signalio/manager_asyncio.py  | 12 ++++++++++--
 pieshell/signalio/manager_signalfd.py | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 49cc730..ab48529 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -11,8 +11,15 @@ class SignalManager(object):
     def __init__(self, mask = [signal.SIGCHLD, signal.SIGTSTP]):
         self.mask = mask
         self.signal_handlers = {}
-        for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, self.handle_event, signo)
+        self.enable()
+
+    def enable(self):
+        # Signals are for whichever event loop is running
+        loop = asyncio.get_event_loop()
+        for signo in self.mask:
+            loop.add_signal_handler(signo, self.handle_event, signo)
+        # Children might have died before that
+        loop.call_soon(self.handle_event, signal.SIGCHLD)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -23,6 +30,7 @@ class SignalManager(object):
 
         key = self.filter_to_key(signal_handler.filter)
         self.signal_handlers[key] = signal_handler
+        self.enable()
         log.log("REGISTER %s, %s" % (key, signal_handler), "signalreg")
 
     def deregister(self, signal_handler):
diff --git a/pieshell/signalio/manager_signalfd.py b/pieshell/signalio/manager_signalfd.py
index c2b7bb1..01aa886 100644
--- a/pieshell/signalio/manager_signalfd.py
+++ b/pieshell/signalio/manager_signalfd.py
@@ -5,6 +5,7 @@ import errno
 from .. import log
 import signalfd
 import asyncio
+import weakref
 
 from ..iterio import IOHandler
 from . import signalutils
@@ -16,9 +17,17 @@ class SignalManager(IOHandler):
     def __init__(self, mask = [signal.SIGCHLD, signal.SIGTSTP]):
         self.mask = mask
         self.signal_handlers = {}
+        self.loops = weakref.WeakSet()
         IOHandler.__init__(self, signalfd.signalfd(-1, mask, signalfd.SFD_CLOEXEC | signalfd.SFD_NONBLOCK), usage="SignalManager")
         signalfd.sigprocmask(signalfd.SIG_BLOCK, mask)
 
+    def enable(self):
+        # Signals are for whichever event loop is running
+        loop = asyncio.get_event_loop()
+        if loop in self.loops: return
+        self.loops.add(loop)
+        IOHandler.enable(self)
+
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
         return tuple(key)
@@ -28,6 +37,7 @@ class SignalManager(IOHandler):
 
         key = self.filter_to_key(signal_handler.filter)
         self.signal_handlers[key] = signal_handler
+        self.enable()
         log.log("REGISTER %s, %s" % (key, signal_handler), "signalreg")
 
     def deregister(self, signal_handler):
-- 
2.43.0


From 1f97ac539449c1cfec4ab4a504b0265242d1d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 36/95] fix: bashsource of values and functions bash has to
 quote

---
 pieshell/pipeline/builtins.py | 83 +++++++++++++++++------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 4a5b6fc..0268e82 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,7 @@
 import os
 import os.path
+import re
 import shlex
-import io
 import asyncio
 import sys
 import base64
@@ -108,47 +108,46 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
-
-    lastlineno = 1
-    line = []
-    lines = []
-    while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
+declare_re = re.compile(
+    r"""declare -[-a-zA-Z]+ (?P<name>[^\s=]+)"""
+    r"""(?:=(?:"(?P<quoted>(?:[^"\\]|\\.)*)"|\$'(?P<ansi_c>(?:[^'\\]|\\.)*)'|(?P<array>\((?:"(?:[^"\\]|\\.)*"|[^")])*\))))?"""
+    r"""(?:\n|$)""",
+    re.DOTALL)
+function_re = re.compile(r"^(?P<name>\S+) \(\) *\n\{ *\n", re.MULTILINE)
+function_attr_re = re.compile(r"^declare -[a-zA-Z]*f[a-zA-Z]* \S+\n?", re.MULTILINE)
+ansi_c_re = re.compile(rb"\\(?:([0-7]{1,3})|x([0-9a-fA-F]{1,2})|(.))", re.DOTALL)
+ansi_c_chars = {
+    b"a": b"\a", b"b": b"\b", b"e": b"\x1b", b"E": b"\x1b", b"f": b"\f",
+    b"n": b"\n", b"r": b"\r", b"t": b"\t", b"v": b"\v"}
+
+def unquote_ansi_c(value):
+    def unquote(match):
+        octal, hexadecimal, char = match.groups()
+        if octal: return bytes([int(octal, 8) & 0xff])
+        if hexadecimal: return bytes([int(hexadecimal, 16)])
+        return ansi_c_chars.get(char, char)
+    return ansi_c_re.sub(unquote, value.encode("utf-8")).decode("utf-8", "surrogateescape")
 
+def parse_declares(data):
+    """Parses the output of declare -x; declare -f"""
     vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
-    funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
-        else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
-
-    return vars, funcs
+    pos = 0
+    while True:
+        match = declare_re.match(data, pos)
+        if not match: break
+        pos = match.end()
+        if match.group("quoted") is not None:
+            vars[match.group("name")] = re.sub(r'\\([$`"\\])', r"\1", match.group("quoted"))
+        elif match.group("ansi_c") is not None:
+            vars[match.group("name")] = unquote_ansi_c(match.group("ansi_c"))
+        elif match.group("array") is None:
+            vars[match.group("name")] = ""
+
+    data = data[pos:]
+    starts = list(function_re.finditer(data))
+    ends = [match.start() for match in starts[1:]] + [len(data)]
+    return vars, {match.group("name"): function_attr_re.sub("", data[match.start():end]).strip("\n")
+                  for match, end in zip(starts, ends)}
 
 class BashSource(builtin.Builtin):
     """Runs a bash script and imports all environment variables at the
@@ -161,11 +160,11 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source " + shlex.quote(exp))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)),
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From dc3985dbbf2fd89840e266f0fa7de9ef380d6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 37/95] fix: captured output was changed by newline translation

---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4cc416b..b6343c3 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -216,7 +216,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path, encoding="utf-8", errors="replace") as f:
+            with open(redirect.pipe.path, encoding="utf-8", errors="replace", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 3f6c2c1af9489986726fdae748c2dad0d2f70074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 38/95] fix: functions took input they never asked for from
 others sharing it

---
 pieshell/iterio.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 99434c2..c7e5845 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -170,15 +170,24 @@ class InputHandler(IOHandler):
         IOHandler.__init__(self, fd, borrowed, usage)
 
     def handle_event(self, event):
+        if self.future is None:
+            # What nobody asks for is left for others sharing the input
+            self.disable()
+            return
         if self.buffer is None:
             self.buffer = os.read(self.fd, 1024)
             if not self.buffer:
                 self.eof = True
                 self.destroy()
-        if self.future is not None:
-            if not self.future.done(): # Cancelled
-                self.future.set_result(None)
-            self.future = None
+        if not self.future.done(): # Cancelled
+            self.future.set_result(None)
+        self.future = None
+
+    async def wait_for_data(self):
+        future = self.future = asyncio.get_event_loop().create_future()
+        if not self.enabled:
+            self.enable()
+        await future
 
     def __aiter__(self):
         return self
@@ -188,8 +197,7 @@ class InputHandler(IOHandler):
             if self.eof:
                 if self.at_eof: await self.at_eof()
                 raise StopAsyncIteration
-            future = self.future = asyncio.get_event_loop().create_future()
-            await future
+            await self.wait_for_data()
         try:
             return self.buffer
         finally:
@@ -209,24 +217,25 @@ class LineInputHandler(InputHandler):
         self.buffer = b""
 
     def handle_event(self, event):
+        if self.future is None:
+            self.disable()
+            return
         if b'\n' not in self.buffer:
             read_data = os.read(self.fd, 1024)
             self.buffer += read_data
             if not read_data:
                 self.eof = True
                 self.destroy()
-            if self.future is not None:
-                if not self.future.done(): # Cancelled
-                    self.future.set_result(None)
-                self.future = None
+            if not self.future.done(): # Cancelled
+                self.future.set_result(None)
+            self.future = None
 
     def __aiter__(self):
         return self
     
     async def __anext__(self):
         while not self.eof and b'\n' not in self.buffer:
-            future = self.future = asyncio.get_event_loop().create_future()
-            await future
+            await self.wait_for_data()
         if not self.buffer:
             assert self.eof
             if self.at_eof: await self.at_eof()
-- 
2.43.0


From 444cc2c97618ca81759ff99e5f35272e3bae8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 39/95] fix: sharing a pipe with other processes or functions
 could block the event loop for ever

---
 pieshell/iterio.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index c7e5845..c97a897 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -2,6 +2,7 @@ import os
 import select
 import signal
 import errno
+import stat
 from . import log
 import asyncio
 from .utils.asyncutils import asyncmap, itertoasync
@@ -17,13 +18,28 @@ def events_to_str(events):
 
 class IOHandler(object):
     events = 0
+    flag = None
     def __init__(self, fd, borrowed = False, usage = None):
         self.fd = fd
         self.borrowed = borrowed
         self.enabled = True
         self.usage = usage
         self.destroyed = False
+        self.make_nonblocking()
         self.enable()
+    def make_nonblocking(self):
+        # Others, and other processes, can use the same pipe, so that
+        # it's no longer ready when we get to use it. Using it must
+        # not block the whole event loop then, but it has to be
+        # blocking still for those processes, so open it anew.
+        if self.flag is None or self.borrowed: return
+        if not stat.S_ISFIFO(os.fstat(self.fd).st_mode): return
+        try:
+            fd = os.open("/dev/fd/%s" % self.fd, self.flag | os.O_NONBLOCK | os.O_CLOEXEC)
+        except OSError:
+            return # Nobody reads from it, or it's someone else's
+        os.dup2(fd, self.fd, inheritable=False)
+        os.close(fd)
     def handle_event(self, event):
         pass
     def destroy(self):
@@ -74,6 +90,7 @@ class IOHandler(object):
 
 class OutputHandler(IOHandler):
     events = select.POLLOUT
+    flag = os.O_WRONLY
 
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
@@ -111,6 +128,8 @@ class OutputHandler(IOHandler):
         try:
             written = os.write(self.fd, self.pending[:select.PIPE_BUF])
             self.pending = self.pending[written:]
+        except BlockingIOError:
+            pass
         except Exception as e:
             self.destroy(e)
 
@@ -161,6 +180,7 @@ class LineOutputHandler(OutputHandler):
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
+    flag = os.O_RDONLY
     
     def __init__(self, fd, borrowed = False, usage = None, at_eof = None):
         self.buffer = None
@@ -175,7 +195,10 @@ class InputHandler(IOHandler):
             self.disable()
             return
         if self.buffer is None:
-            self.buffer = os.read(self.fd, 1024)
+            try:
+                self.buffer = os.read(self.fd, 1024)
+            except BlockingIOError:
+                return
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -221,7 +244,10 @@ class LineInputHandler(InputHandler):
             self.disable()
             return
         if b'\n' not in self.buffer:
-            read_data = os.read(self.fd, 1024)
+            try:
+                read_data = os.read(self.fd, 1024)
+            except BlockingIOError:
+                return
             self.buffer += read_data
             if not read_data:
                 self.eof = True
-- 
2.43.0


From 7b3db1fbfeacebc76133736d41ddef3aea9bf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 40/95] fix: the error of a command that can not be started
 could be lost

It was written to a buffer that was thrown away, unless standard err was
a terminal or python unbuffered; and if it could not be written, the child
continued with the code of the shell.
---
 pieshell/pipeline/builtins.py | 5 ++++-
 pieshell/pipeline/command.py  | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 0268e82..9f3ff66 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -201,10 +201,13 @@ class SubShell(command.Command, builtin.Builtin):
             sys.exit(1)
         finally:
             sys.stdout.flush()
+            sys.stderr.flush()
         sys.exit(0)
 
     def _run(self, redirects, sess, indentation = ""):
-        sys.stdout.flush() # Or it would be written by the child too
+        # Or it would be written by the child too
+        sys.stdout.flush()
+        sys.stderr.flush()
         return command.Command._run(self, redirects, sess, indentation)
 
 class Remote(builtin.Builtin):
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index a4ccc1a..f26d1d6 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -229,10 +229,13 @@ class Command(command.BaseCommand):
             except SystemExit as e:
                 ecode = e.code if isinstance(e.code, int) else 1
             except BaseException as e:
-                sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
                 ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+                # Not sys.stderr: it can have a buffer, even one with
+                # output of the shell in it
+                os.write(2, ("Unable to execute %s: %s\n" % (repr(self), e)).encode("utf-8", "replace"))
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From 4b7aed8ff86b88a7e727f091200a3b9c63d0f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 41/95] fix: the reason a redirect or directory fails is in
 standard err of the command

What is already open, like the file standard err is captured to, is
redirected before files are opened and the directory changed.
---
 pieshell/pipeline/builtins.py |  3 +--
 pieshell/pipeline/command.py  |  3 +--
 pieshell/redir.py             | 15 ++++++++++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9f3ff66..1122d01 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -188,8 +188,7 @@ class SubShell(command.Command, builtin.Builtin):
         return item
                        
     def _child(self, redirects, args):
-        os.chdir(self._env._cwd)
-        redirects.perform()
+        redirects.perform(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
         try:
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f26d1d6..fda3e52 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -173,8 +173,7 @@ class Command(command.BaseCommand):
     find). """
 
     def _child(self, redirects, args):
-        os.chdir(self._env._cwd)
-        redirects.perform()
+        redirects.perform(self._env._cwd)
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4322cfa..c3437c6 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -205,10 +205,19 @@ class Redirects(object):
             new_fd += 1
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
-    def perform(self):
+    def perform(self, cwd = "."):
+        """Performs all redirects, files being relative to cwd"""
         try:
-            for redirect in self.move_existing_fds():
-                redirect.perform()
+            redirects = self.move_existing_fds()
+            # What is open already comes first, so that errors opening
+            # the rest end up in standard err
+            for redirect in redirects:
+                if isinstance(redirect.source, int):
+                    redirect.perform()
+            os.chdir(cwd)
+            for redirect in redirects:
+                if not isinstance(redirect.source, int):
+                    redirect.perform()
             self.close_other_fds()
         except Exception as e:
             import traceback
-- 
2.43.0


From 2035da190610029aa03121c7c1ba3ea2090aac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 42/95] fix: files shared by several processes are opened once

The sides of a group, the commands of a pipe with a redirected standard
err, and a command and its arguments each opened the file by themselves,
and so overwrote each other's output. Files of functions are opened
relative to their environment's directory, like those of commands.
---
 pieshell/pipeline/command.py  |  5 +++++
 pieshell/pipeline/function.py |  4 ++--
 pieshell/pipeline/group.py    |  3 ++-
 pieshell/pipeline/pipe.py     |  4 ++++
 pieshell/redir.py             | 20 ++++++++++++++++++--
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index fda3e52..c0828c1 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -131,6 +131,11 @@ class BaseCommand(base.Pipeline):
             return "/dev/fd/X"
     
     def _arg_list(self, redirects = None, sess = None, indentation = ""):
+        if redirects is not None and any(not isinstance(item, (str, environ.R))
+                                         for arg in self._arg
+                                         for item in (arg.values() if isinstance(arg, dict) else [arg])):
+            # Arguments write to the same files
+            redirects.open_files(self._env._cwd)
         orig_redirects = redir.Redirects(redirects) if redirects is not None else redir.Redirects()
         orig_redirects.borrow()
         def handle_arg_pipes(item):
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 3f79041..15cf384 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -90,7 +90,7 @@ class Function(base.Pipeline):
         stdin = None
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
             try:
                 thing = thing(stdin, *self._arg, **self._kw)
             except Exception as e:
@@ -113,7 +113,7 @@ class Function(base.Pipeline):
         self._running_process = running.RunningFunction(
             self,
             iterio.LineOutputHandler(
-                redirects.stdout.open(False),
+                redirects.stdout.open(False, self._env._cwd),
                 thing,
                 usage=self))
         if stdin is not None:
diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 46c649e..223bb3f 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,8 +36,9 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
-        # Both pipelines write to the same pipes
+        # Both pipelines write to the same pipes and files
         redirects = redirects.make_pipes()
+        redirects.open_files(self._env._cwd)
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 6f7dabd..6ea00c9 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -37,6 +37,10 @@ class Pipe(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both pipelines write to the same files
+        redirects = redir.Redirects(redirects)
+        redirects.open_files(self._env._cwd, [fd for fd in redirects.redirects if fd > 1])
+
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index c3437c6..c5450d8 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -86,11 +86,13 @@ class Redirect(object):
     def __deepcopy__(self, memo = {}):
         return type(self)(self.fd, copy.deepcopy(self.source), self.flag, self.mode, self.pipe, self.borrowed)
 
-    def open(self, borrow = True):
+    def is_file(self):
+        return self.source is not None and not isinstance(self.source, (int, type))
+    def open(self, borrow = True, cwd = "."):
         source = self.source
         if not isinstance(source, int):
             log.log("Opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
-            source = os.open(source, self.flag, self.mode)
+            source = os.open(os.path.join(os.fsencode(cwd), os.fsencode(source)), self.flag, self.mode)
             log.log("Done opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
         elif not borrow:
             log.log("Opening %s for %s" % (self.source, self.fd), "fd")
@@ -197,6 +199,20 @@ class Redirects(object):
     def make_pipes(self):
         return type(self)(*[redirect.make_pipe()
                             for redirect in self.redirects.values()])
+    def open_files(self, cwd, fds = None):
+        """Opens the files written to by several processes; if each of
+        them did, they would overwrite each other's output. Files
+        which can not be opened are left for them to fail with."""
+        for fd, redirect in list(self.redirects.items()):
+            if fds is not None and fd not in fds: continue
+            if not redirect.is_file() or not redirect.flag & (os.O_WRONLY | os.O_RDWR): continue
+            path = os.path.join(os.fsencode(cwd), os.fsencode(redirect.source))
+            if os.path.exists(path) and not os.path.isfile(path): continue
+            try:
+                source = redirect.open(cwd = cwd)
+            except OSError:
+                continue
+            self.redirects[fd] = Redirect(fd, source, redirect.flag, redirect.mode)
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
         redirects = []
-- 
2.43.0


From a031fda7165f3062214c659164bac71b56130d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 43/95] fix: an argument can redirect the output it is read
 from elsewhere

---
 pieshell/pipeline/command.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index c0828c1..f09412f 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -204,10 +204,14 @@ class Command(command.BaseCommand):
             sess,
             indentation + "  ")
 
+        source = getattr(thing._redirects, direction).pipe
+        if source is None:
+            source = "/dev/null" # The argument has redirected it
+
         fd = redirects.find_free_fd()
         redirects.redirect(
             fd,
-            getattr(thing._redirects, direction).pipe,
+            source,
             {"stdin": os.O_WRONLY, "stdout": os.O_RDONLY}[direction])
 
         self._running_processes.extend(arg_pipe)
-- 
2.43.0


From b523eb005368d124af12a7b1ff38b261b2dc457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 44/95] fix: a function whose files can not be opened fails,
 and nothing else does

---
 pieshell/pipeline/function.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 15cf384..6a4f1d5 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -90,8 +90,8 @@ class Function(base.Pipeline):
         stdin = None
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
             try:
+                stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
                 thing = thing(stdin, *self._arg, **self._kw)
             except Exception as e:
                 # Same as if it had been raised when iterating
@@ -109,11 +109,18 @@ class Function(base.Pipeline):
         if hasattr(thing, "__iter__"):
             thing = itertoasync(thing)
         thing = convert(thing)
+
+        try:
+            stdout = redirects.stdout.open(False, self._env._cwd)
+        except OSError as e:
+            # Same as for a command, it is not run
+            thing = failed(e)
+            stdout = os.open("/dev/null", os.O_WRONLY)
             
         self._running_process = running.RunningFunction(
             self,
             iterio.LineOutputHandler(
-                redirects.stdout.open(False, self._env._cwd),
+                stdout,
                 thing,
                 usage=self))
         if stdin is not None:
-- 
2.43.0


From ff46ea239166467096d08292a48f7340e4da4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 45/95] fix: output that has been redirected elsewhere is read
 as empty

---
 pieshell/pipeline/running.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b6343c3..b60e0a9 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -72,10 +72,15 @@ class RunningPipeline(object):
         # Just in case all the processes have already terminated...
         # They could have been blindingly fast after all :)
         self.handle_finish()
+    def open_output(self):
+        fd = self.pipeline._redirects.stdout.pipe
+        if fd is None: # The pipeline has redirected it
+            fd = os.open("/dev/null", os.O_RDONLY)
+        return fd
     def __aiter__(self):
-        return iterio.LineInputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait).__aiter__()
+        return iterio.LineInputHandler(self.open_output(), usage=self, at_eof=self.wait).__aiter__()
     def iterbytes(self):
-        return iterio.InputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait)
+        return iterio.InputHandler(self.open_output(), usage=self, at_eof=self.wait)
     def restart(self):
         self.pipeline_suspended = False
         for process in self.processes:
-- 
2.43.0


From eace0ae07e60925bb1607de1c976c6ee54341b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 46/95] fix: errors when reading input are raised where it is
 read, not lost

---
 pieshell/iterio.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index c97a897..6780dae 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -199,6 +199,9 @@ class InputHandler(IOHandler):
                 self.buffer = os.read(self.fd, 1024)
             except BlockingIOError:
                 return
+            except OSError as e:
+                self.fail(e)
+                return
             if not self.buffer:
                 self.eof = True
                 self.destroy()
@@ -206,6 +209,14 @@ class InputHandler(IOHandler):
             self.future.set_result(None)
         self.future = None
 
+    def fail(self, exception):
+        # Raised where the data is asked for; nothing more will come
+        self.eof = True
+        self.destroy()
+        if not self.future.done(): # Cancelled
+            self.future.set_exception(exception)
+        self.future = None
+
     async def wait_for_data(self):
         future = self.future = asyncio.get_event_loop().create_future()
         if not self.enabled:
@@ -248,6 +259,9 @@ class LineInputHandler(InputHandler):
                 read_data = os.read(self.fd, 1024)
             except BlockingIOError:
                 return
+            except OSError as e:
+                self.fail(e)
+                return
             self.buffer += read_data
             if not read_data:
                 self.eof = True
-- 
2.43.0


From 2a8da7e4f2eab9164f61db125362eca746659442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 47/95] fix: remove_output_files when parts share a file

---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b60e0a9..4de3879 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -188,7 +188,10 @@ class BaseRunningItem(object):
         for fd, name in self.output_files.items():
             if hasattr(name, "path"):
                 name = name.path
-            os.unlink(name)
+            try:
+                os.unlink(name)
+            except FileNotFoundError:
+                pass # Shared with another part, that removed it
     def restart(self):
         pass
     def suspend(self):
-- 
2.43.0


From b81b90f83fbbcd7c4494e154f6333d8e87a5a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 48/95] fix: piping, reading or giving as argument what is
 captured in a temporary file

---
 pieshell/pipeline/command.py | 2 +-
 pieshell/pipeline/pipe.py    | 2 +-
 pieshell/pipeline/running.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f09412f..b225bd7 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -205,7 +205,7 @@ class Command(command.BaseCommand):
             indentation + "  ")
 
         source = getattr(thing._redirects, direction).pipe
-        if source is None:
+        if not isinstance(source, int):
             source = "/dev/null" # The argument has redirected it
 
         fd = redirects.find_free_fd()
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 6ea00c9..2c3806a 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -47,7 +47,7 @@ class Pipe(base.Pipeline):
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
         src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
         src_stdout = self.src._redirects.stdout.pipe
-        if src_stdout is None:
+        if not isinstance(src_stdout, int):
             src_stdout = "/dev/null" # The source has redirected it
         dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", src_stdout), sess, indentation + "  ")
 
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4de3879..945ceea 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -74,7 +74,7 @@ class RunningPipeline(object):
         self.handle_finish()
     def open_output(self):
         fd = self.pipeline._redirects.stdout.pipe
-        if fd is None: # The pipeline has redirected it
+        if not isinstance(fd, int): # The pipeline has redirected it
             fd = os.open("/dev/null", os.O_RDONLY)
         return fd
     def __aiter__(self):
-- 
2.43.0


From c935760796b4b9c78fe68a90fb738b651b496e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 49/95] fix: close all other descriptors, also when the limit
 of open files has been changed

---
 pieshell/redir.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index c5450d8..f91d31a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -241,8 +241,11 @@ class Redirects(object):
             log.log(traceback.format_exc(), "fd")
             raise
     def close_other_fds(self):
-        # FIXME: Use os.closerange if available
-        for i in range(0, MAXFD):
+        try:
+            fds = [int(fd) for fd in os.listdir("/dev/fd")]
+        except OSError:
+            fds = range(0, MAXFD)
+        for i in fds:
             if i in self.redirects: continue
             if i == log.logfd: continue
             try:
-- 
2.43.0


From bf293602f35d4c277d7bffaeca8b3cd30d035fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 50/95] fix: paths starting with ~ and no user's name are
 relative to the environment's directory

---
 pieshell/environ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 8ba3a59..cd84f8c 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -70,9 +70,10 @@ class Environment(object):
     def _exports(self):
         self._exports_value = None
     def _expand_path(self, pth):
-        if not pth.startswith("/") and not pth.startswith("~"):
-            pth = os.path.join(self._cwd, pth)
+        # A name can start with ~ without there being such a user
         pth = os.path.expanduser(pth)
+        if not pth.startswith("/"):
+            pth = os.path.join(self._cwd, pth)
         pth = os.path.abspath(pth)
         return pth
     def _expand_argument(self, arg):
-- 
2.43.0


From acaf92cfc4977a46c99d8cddf328be296714cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 51/95] fix: globs in a directory whose name contains *, ? or [

---
 pieshell/environ.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index cd84f8c..c5ca281 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -87,7 +87,12 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        pattern = arg
+        if not arg.startswith("/"):
+            # The name of the directory is not a part of the pattern
+            pattern = os.path.join(glob.escape(self._cwd), arg)
+        pattern = os.path.abspath(pattern)
+        res = glob.glob(pattern)
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From 029fda5aa4e72004b0594040b34c1388acbe1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 52/95] fix: globs ending in / match only directories

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index c5ca281..2bb7a1b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -91,7 +91,9 @@ class Environment(object):
         if not arg.startswith("/"):
             # The name of the directory is not a part of the pattern
             pattern = os.path.join(glob.escape(self._cwd), arg)
-        pattern = os.path.abspath(pattern)
+        # abspath removes the slash that means directories only
+        slash = "/" if arg.endswith("/") else ""
+        pattern = os.path.abspath(pattern) + slash
         res = glob.glob(pattern)
         if not res: return [arg]
         if self._cwd != "/":
-- 
2.43.0


From 49d3edccb12717db555f99da19347fd445da3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 53/95] fix: pyshfunction keeps the defaults of keyword only
 arguments

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 2bb7a1b..81d6306 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -194,11 +194,13 @@ class Environment(object):
         finally:
             self._scope["env"] = self    
     def pyshfunction(self, fn):
-        return types.FunctionType(
+        res = types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
             name=fn.__name__,
             argdefs=fn.__defaults__,
             closure=fn.__closure__)
+        res.__kwdefaults__ = fn.__kwdefaults__
+        return res
 
     def __getstate__(self):
         def mangle(k, v):
-- 
2.43.0


From c4c4bb94fb2cfd560becd79b847786a0fced5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 54/95] fix: bashsource of arrays with any values, and
 variables with none

An array whose elements are written as $'...' ended the import early,
variables that have no value, like OLDPWD, were made empty, and nothing
was imported if a script set IFS to something in the name of the file
written to.
---
 pieshell/pipeline/builtins.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 1122d01..e8c4826 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -110,7 +110,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
 
 declare_re = re.compile(
     r"""declare -[-a-zA-Z]+ (?P<name>[^\s=]+)"""
-    r"""(?:=(?:"(?P<quoted>(?:[^"\\]|\\.)*)"|\$'(?P<ansi_c>(?:[^'\\]|\\.)*)'|(?P<array>\((?:"(?:[^"\\]|\\.)*"|[^")])*\))))?"""
+    r"""(?:=(?:"(?P<quoted>(?:[^"\\]|\\.)*)"|\$'(?P<ansi_c>(?:[^'\\]|\\.)*)'|(?:\((?:"(?:[^"\\]|\\.)*"|\$'(?:[^'\\]|\\.)*'|[^"$)])*\))))?"""
     r"""(?:\n|$)""",
     re.DOTALL)
 function_re = re.compile(r"^(?P<name>\S+) \(\) *\n\{ *\n", re.MULTILINE)
@@ -140,8 +140,7 @@ def parse_declares(data):
             vars[match.group("name")] = re.sub(r'\\([$`"\\])', r"\1", match.group("quoted"))
         elif match.group("ansi_c") is not None:
             vars[match.group("name")] = unquote_ansi_c(match.group("ansi_c"))
-        elif match.group("array") is None:
-            vars[match.group("name")] = ""
+        # Arrays, and variables with no value, are not in the environment
 
     data = data[pos:]
     starts = list(function_re.finditer(data))
@@ -161,7 +160,7 @@ class BashSource(builtin.Builtin):
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
                 args.append("source " + shlex.quote(exp))
-        args.append("{ declare -x; declare -f; } > $0")
+        args.append("{ declare -x; declare -f; } > \"$0\"")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
             environ.R("; ".join(args)),
-- 
2.43.0


From ac49a0bf696e7685cb764a9717597a46f7759db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 55/95] fix: lines that are not UTF-8 are read and written
 unchanged

Iterating over output with e.g. the name of a file that is not UTF-8 in
it, or piping it to a function, raised UnicodeDecodeError. Such bytes
are now decoded as they are everywhere else in Python: with
surrogateescape.
---
 pieshell/iterio.py            | 2 +-
 pieshell/pipeline/builtins.py | 2 +-
 pieshell/pipeline/function.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 6780dae..2b7cd94 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -283,5 +283,5 @@ class LineInputHandler(InputHandler):
         if b'\n' not in self.buffer:
             self.buffer += b'\n' # No newline at end of file...
         ret, self.buffer = self.buffer.split(b"\n", 1)
-        return ret.decode("utf-8")
+        return ret.decode("utf-8", "surrogateescape")
 
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index e8c4826..485cf4b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -126,7 +126,7 @@ def unquote_ansi_c(value):
         if octal: return bytes([int(octal, 8) & 0xff])
         if hexadecimal: return bytes([int(hexadecimal, 16)])
         return ansi_c_chars.get(char, char)
-    return ansi_c_re.sub(unquote, value.encode("utf-8")).decode("utf-8", "surrogateescape")
+    return ansi_c_re.sub(unquote, value.encode("utf-8", "surrogateescape")).decode("utf-8", "surrogateescape")
 
 def parse_declares(data):
     """Parses the output of declare -x; declare -f"""
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 6a4f1d5..cf968ac 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -83,9 +83,9 @@ class Function(base.Pipeline):
             elif isinstance(x, bytes):
                 return x
             elif isinstance(x, str):
-                return x.encode("utf-8")
+                return x.encode("utf-8", "surrogateescape")
             else:
-                return str(x).encode("utf-8")
+                return str(x).encode("utf-8", "surrogateescape")
 
         stdin = None
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
-- 
2.43.0


From 37ac7834c514a1ce0347aab29c50ce154b91de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 56/95] fix: CTRL-Z suspends all pipelines waited for, not the
 one last waited for

---
 pieshell/pipeline/running.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 945ceea..1aabdb8 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -28,14 +28,15 @@ except:
 
 class StopSignalHandler(signalio.SignalHandler):
     def __init__(self):
-        self.current_pipeline = None
+        # The pipelines being waited for, once for everyone waiting
+        self.current_pipelines = []
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
     def handle_event(self, event):
-        if self.current_pipeline is not None:
-            self.current_pipeline.pipeline_suspended = True
-            if self.current_pipeline.finish_future is not None:
-                self.current_pipeline.finish_future.set_result(None)
-                self.current_pipeline.finish_future = None
+        for pipeline in self.current_pipelines:
+            pipeline.pipeline_suspended = True
+            if pipeline.finish_future is not None:
+                pipeline.finish_future.set_result(None)
+                pipeline.finish_future = None
         return True
 
 stop_signal_handler = None
@@ -90,9 +91,10 @@ class RunningPipeline(object):
         for process in self.processes:
             process.suspend()
     async def wait(self):
+        handler = stop_signal_handler if self.pipeline._env._interactive else None
         try:
-            if self.pipeline._env._interactive:
-                stop_signal_handler.current_pipeline = self
+            if handler is not None:
+                handler.current_pipelines.append(self)
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
@@ -109,8 +111,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            if stop_signal_handler.current_pipeline is self:
-                stop_signal_handler.current_pipeline = None
+            if handler is not None:
+                handler.current_pipelines.remove(self)
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 7f81b6b10f01b95c3cb298caefdbfe7adca364cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 57/95] fix: errors of a failed fg can be printed, exit_code of
 fg

---
 pieshell/pipeline/builtins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 485cf4b..a860cda 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -65,6 +65,11 @@ class RunnningFg(running.BaseRunningItem):
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def __repr__(self, display_output=False):
+        return repr(self.wrapped_pipeline)
     async def await_finish(self):
         try:
             await self.wrapped_pipeline.wait()
-- 
2.43.0


From a6fabfd976ac23ef7db008b6107bb99348f92d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 58/95] fix: fg of an ended pipeline stays in running_pipelines

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 6626201..9e8d452 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -153,7 +153,8 @@ class Pipeline(DescribableObject):
             # cd, bg and the like run nothing, and must not hide what
             # was last run from e.g. fg.
             self._env.last_pipeline = pipeline
-            self._env.running_pipelines.append(pipeline)
+            if pipeline.is_running:
+                self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From dd1f7798daf8ef7e8663f96a8c99de92af9fe49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 59/95] fix: waiting ends before captured output has been
 collected

---
 pieshell/pipeline/running.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 1aabdb8..2575cf2 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -97,7 +97,9 @@ class RunningPipeline(object):
                 handler.current_pipelines.append(self)
             try:
                 self.restart()
-                while not self.pipeline_suspended and self.is_running:
+                # What has ended is only finished once its output has been
+                # collected
+                while not self.pipeline_suspended and not self.finished:
                     if self.finish_future is None:
                         self.finish_future = asyncio.get_event_loop().create_future()
                     # Shared by everyone waiting, so one of them being
-- 
2.43.0


From 55e242b7895779bcd51b5252d6363ec3c1c6c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 60/95] fix: temporary files of a group left when its parts
 have redirected them

---
 pieshell/pipeline/group.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 223bb3f..0d9a10f 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -37,6 +37,7 @@ class Group(base.Pipeline):
         base.Pipeline._run(self, redirects, sess, indentation)
 
         # Both pipelines write to the same pipes and files
+        made = [fd for fd, redirect in redirects.redirects.items() if isinstance(redirect.source, type)]
         redirects = redirects.make_pipes()
         redirects.open_files(self._env._cwd)
         child_redirects = redir.Redirects(redirects)
@@ -46,6 +47,15 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
+        # Nobody else will remove files that both have redirected
+        used = [id(redirect.pipe)
+                for process in a + b if hasattr(process, "cmd")
+                for redirect in process.cmd._redirects.redirects.values()]
+        for fd in made:
+            pipe = redirects.redirects[fd].pipe
+            if isinstance(pipe, redir.TMP) and id(pipe) not in used:
+                os.unlink(pipe.path)
+
         self._redirects = redirects
 
         redirects.close_source_fds()
-- 
2.43.0


From 7332a818c4a8815b27f86aef1a2c92d853424cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 61/95] fix: processes of programs with other characters than
 letters are not found by name

---
 pieshell/pipeline/running.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2575cf2..7dccc56 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -344,12 +344,11 @@ class RunningProcess(RunningItem):
         if level is None:
             return str(id(self))
         prefix, suffix = self.cmd._split_args
-        if len(prefix) == 1 and level >= 1:
+        if len(prefix) <= 1 and level >= 1:
             level += 1
-        elif len(prefix) == 0:
-            level += 2
         if level == 0:
-            return prefix[0]
+            name = (prefix or suffix)[0]
+            return os.path.basename(str(getattr(name, "str", name))) # It might be an R()
         elif level == 1:
             return ".".join(prefix)
         elif level == 2:
-- 
2.43.0


From 62b32704ee95483ae68c55b6bc821e891038b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 62/95] fix: pipelines with functions raising BaseExceptions
 never end

Only Exceptions were caught, so for example a function awaiting something
that had been cancelled left its part of the pipeline running for ever, with
nothing to run.
---
 pieshell/iterio.py           | 4 +++-
 pieshell/pipeline/running.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 2b7cd94..8eb4a3c 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -175,8 +175,10 @@ class LineOutputHandler(OutputHandler):
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-        except Exception as e:
+        except BaseException as e:
+            # Whatever it is, nothing more can be gotten from iter
             self.destroy(e)
+            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7dccc56..fddda65 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -212,8 +212,9 @@ class RunningItem(BaseRunningItem):
     async def await_finish(self):
         try:
             await self.iohandler.wait()
-        except Exception:
-            pass # Available as self.iohandler.exception, see is_failed
+        except BaseException as e:
+            # Available as self.iohandler.exception, see is_failed
+            if e is not self.iohandler.exception: raise
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From 5c9a370a2dfbff89413373c349c49196c5895e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 63/95] fix: subshells close file descriptors and reset signals
 in use

The event loop and files of the shell, which the child has closed the file
descriptors of, close them again when garbage collected there, by then being
those of the pipeline run, and the event loop resets the signal handlers, so
that the subshell waits for ever, or fails.
---
 pieshell/pipeline/builtins.py | 13 +++++++++++--
 pieshell/redir.py             | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index a860cda..2366023 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -185,6 +185,9 @@ class BashSource(builtin.Builtin):
         self._env._exports.update(vars)
         self._env._bashfunctions.update(funcs)
         
+# Closing an event loop resets the signal handlers of the process
+inherited_event_loops = []
+
 class SubShell(command.Command, builtin.Builtin):
     name = "subshell"
     
@@ -192,7 +195,9 @@ class SubShell(command.Command, builtin.Builtin):
         return item
                        
     def _child(self, redirects, args):
-        redirects.perform(self._env._cwd)
+        # Files of the shell are still there, and close their file
+        # descriptors once they are garbage collected.
+        redirects.perform(self._env._cwd, reserve=True)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
         try:
@@ -211,7 +216,11 @@ class SubShell(command.Command, builtin.Builtin):
         # Or it would be written by the child too
         sys.stdout.flush()
         sys.stderr.flush()
-        return command.Command._run(self, redirects, sess, indentation)
+        inherited_event_loops.append(asyncio.get_event_loop())
+        try:
+            return command.Command._run(self, redirects, sess, indentation)
+        finally:
+            inherited_event_loops.pop()
 
 class Remote(builtin.Builtin):
     name = "remote"
diff --git a/pieshell/redir.py b/pieshell/redir.py
index f91d31a..9b9470f 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -221,8 +221,10 @@ class Redirects(object):
             new_fd += 1
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
-    def perform(self, cwd = "."):
-        """Performs all redirects, files being relative to cwd"""
+    def perform(self, cwd = ".", reserve = False):
+        """Performs all redirects, files being relative to cwd. If
+        reserve is True the file descriptors closed are not free to be
+        reused afterwards."""
         try:
             redirects = self.move_existing_fds()
             # What is open already comes first, so that errors opening
@@ -234,22 +236,26 @@ class Redirects(object):
             for redirect in redirects:
                 if not isinstance(redirect.source, int):
                     redirect.perform()
-            self.close_other_fds()
+            self.close_other_fds(reserve)
         except Exception as e:
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
             raise
-    def close_other_fds(self):
+    def close_other_fds(self, reserve = False):
+        null = os.open("/dev/null", os.O_RDWR) if reserve else None
         try:
             fds = [int(fd) for fd in os.listdir("/dev/fd")]
         except OSError:
             fds = range(0, MAXFD)
         for i in fds:
             if i in self.redirects: continue
-            if i == log.logfd: continue
+            if i == log.logfd or i == null: continue
             try:
-                os.close(i)
+                if reserve:
+                    os.dup2(null, i, inheritable=False)
+                else:
+                    os.close(i)
             except:
                 pass
             else:
-- 
2.43.0


From 45631806fcf3bfba99af07a1b4bc261cf59ac060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 64/95] fix: unpickled commands take a process they have not
 for an argument

The reducer leaves out _running_process, and getting that of the copy
makes a new command with an argument of that name.
---
 pieshell/pipeline/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 9e8d452..848193b 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -51,9 +51,10 @@ def describable_object_reduce(self):
     if hasattr(type, "__getstate__"):
         state = self.__getstate__()
     else:
-        state = {k: v for k, v in self.__dict__.items()
-                 if not k.startswith("__")
-                 and k not in ("_running_process", "_running_processes")}
+        # Processes aren't picklable: the copy hasn't been run
+        notrun = {"_running_process": None, "_running_processes": []}
+        state = {k: notrun.get(k, v) for k, v in self.__dict__.items()
+                 if not k.startswith("__")}
     return (
         cls.__new__,
         (cls,),
-- 
2.43.0


From 67142af241f635fa400b4ef72614b2d7f55243c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 65/95] fix: pipelines with redirects to special files can not
 be unpickled

__getattr__ of TMP() and STRING() recurses forever while kws is not yet set.
---
 pieshell/redir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 9b9470f..0f54b06 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,7 +25,8 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        # kws itself is not set when being unpickled
+        if name == "kws" or name not in self.kws:
             raise AttributeError(name)
         return self.kws[name]
     def __setattr__(self, name):
-- 
2.43.0


From 672b7000b220b6f4548a8f0e52509d4245a57b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 66/95] fix: pipelines can not be pickled while or after their
 environment runs some

Running pipelines have futures, and the last one can be of anything
unpicklable (or already be a pipeline, if it was itself unpickled).
---
 pieshell/environ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 81d6306..0ec22ac 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -205,9 +205,11 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            # What runs here isn't run by the process unpickling this
+            if k == "running_pipelines": return type(v)()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items()
+                if k != "last_pipeline"}
 
 env = Environment()
 
-- 
2.43.0


From 8bae69674cd88c4e4e85fb2411b6d397d4f2242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 67/95] fix: names Python looks up itself are taken for
 commands in scripts

Warnings look for __warningregistry__ in the globals, import for __path__,
and got a command.
---
 pieshell/environ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0ec22ac..21515f9 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -246,6 +246,9 @@ class EnvScope(dict):
                 return parent[name]
             if hasattr(builtins, name):
                 return getattr(builtins, name)
+        if name.startswith("__") and name.endswith("__"):
+            # Python itself looks for these, e.g. __warningregistry__
+            raise KeyError(name)
         return getattr(env, name)
 
     def keys(self):
-- 
2.43.0


From aa43538d2cbaaa077e883c163fa42d86981f87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 68/95] fix: submodules of pysh modules, and * of them, run
 commands

Their __path__ and __all__ were commands by that name.
---
 pieshell/module.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 165aca3..0934ecd 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,7 +8,14 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
-        return self._scope[name]
+        if name == "__all__" and not dict.__contains__(self._scope, name):
+            # What is assigned is not in __dict__
+            return [key for key in dict.keys(self._scope)
+                    if not key.startswith("_") and key != "env"]
+        try:
+            return self._scope[name]
+        except KeyError:
+            raise AttributeError(name)
     def __setattr__(self, name, value):
         self._scope[name] = value
     def __dir__(self):
-- 
2.43.0


From d4d3cca0f134db42daeb9a66f69a5bfbd5505b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 69/95] fix: pysh modules in packages can be neither reloaded
 nor import their siblings

They had a name without the package. Those that failed to load stayed
imported, empty.
---
 pieshell/module.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 0934ecd..780452f 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -25,12 +25,20 @@ class Loader(object):
     def __init__(self, path):
         self.path = path
     def load_module(self, fullname):
-        if fullname not in sys.modules:
+        added = fullname not in sys.modules
+        if added:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
             scope["env"] = env
-            sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
-        sys.modules[fullname]._scope.execute_file(self.path)
+            scope["__name__"] = fullname
+            scope["__package__"] = fullname.rpartition(".")[0]
+            scope["__file__"] = self.path
+            sys.modules[fullname] = Module(scope, fullname)
+        try:
+            sys.modules[fullname]._scope.execute_file(self.path)
+        except:
+            if added: sys.modules.pop(fullname, None)
+            raise
         return sys.modules[fullname]
 
 class Finder(object):
-- 
2.43.0


From cbe58b09c0589432a7c24b5bb4519944eb9efc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 70/95] fix: importing missing modules fails for odd paths

Directories called NAME.pysh and entries in sys.path that are no strings
are ignored by Python, and relative ones are relative to its directory.
---
 pieshell/module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 780452f..d87718b 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -51,10 +51,13 @@ class Finder(object):
             paths = [paths]
         found = None
         for path in paths:
+            # Python ignores anything else it finds in there
+            if not isinstance(path, str): continue
             if path == "": path = "."
             filepath = os.path.join(path, filename)
-            if os.path.exists(filepath):
-                found = filepath
+            if os.path.isfile(filepath):
+                # The environment of the module might be elsewhere
+                found = os.path.abspath(filepath)
                 break
         if found is None:
             return None
-- 
2.43.0


From 44b4fe796517425994afcac1df0776bcd716ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 71/95] fix: files given to pieshell are not found after a
 change of directory

By ~/.config/pieshell, or by those before.
---
 pieshell/shell.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 3fefb6e..94b202f 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -64,6 +64,10 @@ Where OPTIONS are any of
             for name in kws['log'].split(','):
                 logging.getLogger(name).setLevel(logging.INFO)
 
+        # Startup and the files themselves may change directory
+        files = [arg if arg.startswith("resource://") else os.path.abspath(arg)
+                 for arg in args]
+
         with environ.envScope:
             environ.envScope["args"] = args
             environ.envScope["kws"] = kws
@@ -77,8 +81,8 @@ Where OPTIONS are any of
                 cmd = pickle.loads(base64.b64decode(kws["pcmd"].encode("ascii")))
                 cmd.run_interactive()
             elif args:
-                for arg in args:
-                    environ.envScope.execute_file(arg)
+                for filename in files:
+                    environ.envScope.execute_file(filename)
             else:
                 history = os.path.expanduser('~/.config/pieshell.history')
                 if os.path.exists(history):
-- 
2.43.0


From ca8ae157d877fd0ba7cde0f28980a687bbd97ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 72/95] fix: completing names in the shell runs the commands
 completed

---
 pieshell/jedi_completion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pieshell/jedi_completion.py b/pieshell/jedi_completion.py
index b3ec49b..460d96c 100644
--- a/pieshell/jedi_completion.py
+++ b/pieshell/jedi_completion.py
@@ -2,6 +2,7 @@ import os
 import sys
 import jedi
 
+from .pipeline import base
 
 def setup_readline(scopes, **kw):
     class JediRL:
@@ -9,6 +10,10 @@ def setup_readline(scopes, **kw):
             if state == 0:
                 sys.path.insert(0, os.getcwd())
                 # Calling python doesn't have a path, so add to sys.path.
+                # Jedi formats objects it inspects in messages. That must
+                # not run them.
+                in_repr = getattr(base.repr_state, "in_repr", 0)
+                base.repr_state.in_repr = in_repr + 1
                 try:
                     interpreter = jedi.Interpreter(text, scopes)
                     completions = interpreter.complete(**kw)
@@ -17,6 +22,7 @@ def setup_readline(scopes, **kw):
                         for c in completions
                     ]
                 finally:
+                    base.repr_state.in_repr = in_repr
                     sys.path.pop(0)
             try:
                 return self.matches[state]
-- 
2.43.0


From c193cf8656205a75898736f4378b9a5e9c0aff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 73/95] fix: completing arguments of commands runs code in the
 arguments

---
 pieshell/pipeline/command.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index b225bd7..2137280 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -10,6 +10,7 @@ import threading
 import signal
 import operator
 import re
+import shlex
 import builtins
 import functools
 import inspect
@@ -159,10 +160,8 @@ class BaseCommand(base.Pipeline):
 
     def _arg_list_sh(self, *arg, **kw):
         def quote_arg(arg):
-            arg = str(arg)
-            if " " in arg:
-                arg = repr(arg)
-            return arg
+            # It might be an R()
+            return shlex.quote(str(getattr(arg, "str", arg)))
         return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
@@ -259,7 +258,7 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = self._arg_list_sh() + " "
-        return (item.strip() for item in self._env.get_completions(cmd))
+        return (item.strip() for item in self._env.get_completions(environ.R(cmd)))
 
     @property
     def __signature__(self):
-- 
2.43.0


From f5366c987a1057af8c1cd39663f9c72f5392444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 74/95] fix: environments without a PATH can not be listed

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 21515f9..235762f 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -175,7 +175,7 @@ class Environment(object):
         if self._dir_cache is None:
             e = self._exports
             self._dir_cache = []
-            paths = e["PATH"].split(":")
+            paths = e.get("PATH", os.defpath).split(":")
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-- 
2.43.0


From 19e74635fa82d7bcaa5351f103729b20fb11dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 75/95] fix: cd and clear_dir_cache offer directories they do
 not go to

---
 pieshell/pipeline/builtins.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 2366023..df53d1d 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -35,7 +35,7 @@ class CdBuiltin(builtin.Builtin):
         if self._arg[1:]:
             pth = self._env._expand_path(self._path)
         else:
-            pth = "."
+            pth = self._env._cwd
         try:
             return [name for name in os.listdir(pth)
                     if os.path.isdir(os.path.join(pth, name))] + list(self._replacements.keys())
@@ -102,17 +102,6 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         self._env._clear_dir_cache()
         return []
 
-    def __dir__(self):
-        if self._arg[1:]:
-            pth = self.env._expand_path(self._path)
-        else:
-            pth = "."
-        try:
-            return [name for name in os.listdir(pth)
-                    if os.path.isdir(os.path.join(pth, name))]
-        except:
-            return []
-
 declare_re = re.compile(
     r"""declare -[-a-zA-Z]+ (?P<name>[^\s=]+)"""
     r"""(?:=(?:"(?P<quoted>(?:[^"\\]|\\.)*)"|\$'(?P<ansi_c>(?:[^'\\]|\\.)*)'|(?:\((?:"(?:[^"\\]|\\.)*"|\$'(?:[^'\\]|\\.)*'|[^"$)])*\))))?"""
-- 
2.43.0


From c813b37574f6d110c03406bcbbf8efbb5fede149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 76/95] fix: processes can not be browsed when some have ended
 or may not be read

---
 pieshell/ps.py | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index b33a8c3..8c74196 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -45,33 +45,39 @@ class PstreeProcess(object):
 
     def _getkey(self, level):
         if level == None:
-            realattr = attr = "pid"
+            attr = "pid"
         else:
-            realattr = attr = self._keys[level]
-        if attr == "name":
-            attr = "exe"
+            attr = self._keys[level]
         try:
-            key = getattr(self.INFO, attr)
-            if attr != "pid":
-                key = key()
-        except psutil.AccessDenied:
-            key = self._getkey(level+1)
-            if attr == "exe" and isinstance(key, list):
-                key = key[0]
-        else:
-            if realattr == "name":
-                key = key.split("/")[-1]            
-        if isinstance(key, int):
-            key = attr + "_" + str(key)
-        elif isinstance(key, list):
-            key = " ".join(key)
+            if attr == "pid":
+                key = "pid_" + str(self.INFO.pid)
+            elif attr == "cmdline":
+                key = " ".join(self.INFO.cmdline())
+            else:
+                try:
+                    key = self.INFO.exe()
+                except psutil.AccessDenied:
+                    key = ""
+                if not key:
+                    key = (self.INFO.cmdline() or [self.INFO.name()])[0]
+                if attr == "name":
+                    key = key.split("/")[-1]
+        except psutil.Error: # It has ended
+            key = self._getkey(None)
         return key
     
     @property
     def _children(self):
-        children = self.INFO.children()
-        children = [PstreeProcess(proc) for proc in children]
-        return tree.TreeGroup(children)
+        def is_living(proc):
+            try:
+                return proc.status() != psutil.STATUS_ZOMBIE
+            except psutil.Error: # It has ended
+                return False
+        try:
+            children = self.INFO.children()
+        except psutil.NoSuchProcess: # We have ended
+            children = []
+        return tree.TreeGroup([PstreeProcess(proc) for proc in children if is_living(proc)])
     @property
     def PARENT(self):
         return PstreeProcess(self.INFO.parent())
-- 
2.43.0


From 0ab3981a358e0faad1450b2898c8ac5891c6da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 77/95] fix: groups and sessions of processes fail when their
 leaders have ended

---
 pieshell/ps.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index 8c74196..8f98d3b 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -80,13 +80,19 @@ class PstreeProcess(object):
         return tree.TreeGroup([PstreeProcess(proc) for proc in children if is_living(proc)])
     @property
     def PARENT(self):
-        return PstreeProcess(self.INFO.parent())
+        return self._get_process(self.INFO.parent())
     @property
     def GROUP(self):
-        return PstreeProcess(os.getpgid(self.pid))
+        return self._get_process(os.getpgid(self.pid))
     @property
     def SESS(self):
-        return PstreeProcess(os.getsid(self.pid))
+        return self._get_process(os.getsid(self.pid))
+    def _get_process(self, pid):
+        if pid is None: return None
+        try:
+            return PstreeProcess(pid)
+        except psutil.NoSuchProcess: # Ended before those in its group
+            return None
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From 770489454be86ec96d6ccbc62fd1d3d3b0991e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 78/95] fix: threads of processes can not be iterated over

---
 pieshell/ps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index 8f98d3b..f260d8f 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -105,7 +105,7 @@ class PstreeProcess(object):
         return len(self.INFO.threads())
     def __getitem__(self, idx):
         return self.INFO.threads()[idx]
-    def __iter__(self, idx):
+    def __iter__(self):
         return iter(self.INFO.threads())
     def __repr__(self):
         if self.INFO is None:
-- 
2.43.0


From be7ab2567a2db5c9605e92a9b127e9ee791f8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 79/95] fix: sessions left in utmp make login sessions fail

---
 pieshell/ps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index f260d8f..bac4716 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -139,7 +139,13 @@ class PstreeLogin(object):
 class PstreeLogins(object):
     @property
     def _children(self):
-        return tree.TreeGroup([PstreeLogin(login) for login in psutil.users()])
+        logins = []
+        for login in psutil.users():
+            try:
+                logins.append(PstreeLogin(login))
+            except psutil.NoSuchProcess:
+                pass # Sessions can be left in utmp
+        return tree.TreeGroup(logins)
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From 9c9e90f9c655e658bf595b842690aef897170af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 80/95] fix: builtins written as README says can not be piped
 or redirected

The redirects of the pipeline they run were looked for as an argument.
---
 pieshell/pipeline/builtin.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 0d7edaa..13e3020 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -14,5 +14,16 @@ class BuiltinRegistry(object):
         return cls.builtins[name]
 
 class Builtin(command.BaseCommand):
+    """Abstract base class for builtins. A builtin runs some other
+    pipeline, and keeps it as self._cmd."""
+
+    def __getattr__(self, name):
+        if name == "_redirects":
+            # Those of what has been run, not an argument
+            if "_cmd" not in self.__dict__:
+                raise AttributeError(name)
+            return self._cmd._redirects
+        return command.BaseCommand.__getattr__(self, name)
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
-- 
2.43.0


From bba4c40ee44108a78816215b43ae0983d32c087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 81/95] fix: cd, bg, fg and clear_dir_cache can not be piped or
 redirected

---
 pieshell/pipeline/builtin.py  | 21 +++++++++++++++++++--
 pieshell/pipeline/builtins.py |  4 ++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 13e3020..7d370be 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -1,3 +1,6 @@
+import os
+
+from .. import redir
 from . import command
 
 class BuiltinRegistry(object):
@@ -14,8 +17,9 @@ class BuiltinRegistry(object):
         return cls.builtins[name]
 
 class Builtin(command.BaseCommand):
-    """Abstract base class for builtins. A builtin runs some other
-    pipeline, and keeps it as self._cmd."""
+    """Abstract base class for builtins. A builtin either runs some
+    other pipeline, and keeps it as self._cmd, or runs nothing, and
+    calls self._run_nothing()."""
 
     def __getattr__(self, name):
         if name == "_redirects":
@@ -25,5 +29,18 @@ class Builtin(command.BaseCommand):
             return self._cmd._redirects
         return command.BaseCommand.__getattr__(self, name)
 
+    def _run_nothing(self, redirects):
+        """Handles redirects as for a process that neither reads nor
+        writes anything."""
+        # Others can already be using the rest
+        made = [fd for fd, redirect in redirects.redirects.items() if isinstance(redirect.source, type)]
+        self._redirects = redirects = redirects.make_pipes()
+        redirects.close_source_fds()
+        for fd, redirect in redirects.redirects.items():
+            if fd in made and isinstance(redirect.pipe, redir.TMP):
+                os.unlink(redirect.pipe.path)
+            elif redirect.is_file():
+                os.close(redirect.open(cwd = self._env._cwd))
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index df53d1d..c19513d 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -28,6 +28,7 @@ class CdBuiltin(builtin.Builtin):
         return pth
 
     def _run(self, redirects, sess, indentation = ""):
+        self._run_nothing(redirects)
         self._env._cd(self._path)
         return []
 
@@ -51,6 +52,7 @@ class BgBuiltin(builtin.Builtin):
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
+        self._run_nothing(redirects)
         pipeline.restart()
         return []
 
@@ -91,6 +93,7 @@ class FgBuiltin(builtin.Builtin):
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
+        self._run_nothing(redirects)
         return [RunnningFg(pipeline)]
 
 class ClearDirCacheBuiltin(builtin.Builtin):
@@ -99,6 +102,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
+        self._run_nothing(redirects)
         self._env._clear_dir_cache()
         return []
 
-- 
2.43.0


From fc8e4424de05e37e0406b01768ca43c60bcaa3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 82/95] fix: fg waits for ever when there is no last pipeline

last_pipeline was a command with that name then.
---
 pieshell/environ.py           |  2 ++
 pieshell/pipeline/builtins.py | 16 ++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 235762f..4438a9d 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -42,6 +42,8 @@ class Environment(object):
         Command(env, "COMMAND_NAME")
     """
 
+    last_pipeline = None
+
     def __init__(self, cwd = None, exports = None, interactive = False, redirects = None):
         """Creates a new environment from scratch. Takes the same
         arguments as __call__."""
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index c19513d..05ff5b9 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -43,15 +43,21 @@ class CdBuiltin(builtin.Builtin):
         except:
             return list(self._replacements.keys())
 
+def continued_pipeline(cmd):
+    pipeline = cmd._env.last_pipeline
+    if len(cmd._arg) > 1:
+        pipeline = cmd._arg[1]
+    if pipeline is None:
+        raise ValueError("There is no last pipeline")
+    return pipeline
+
 class BgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
     name = "bg"
 
     def _run(self, redirects, sess, indentation = ""):
-        pipeline = self._env.last_pipeline
-        if len(self._arg) > 1:
-            pipeline = self._arg[1]
+        pipeline = continued_pipeline(self)
         self._run_nothing(redirects)
         pipeline.restart()
         return []
@@ -90,9 +96,7 @@ class FgBuiltin(builtin.Builtin):
     name = "fg"
 
     def _run(self, redirects, sess, indentation = ""):
-        pipeline = self._env.last_pipeline
-        if len(self._arg) > 1:
-            pipeline = self._arg[1]
+        pipeline = continued_pipeline(self)
         self._run_nothing(redirects)
         return [RunnningFg(pipeline)]
 
-- 
2.43.0


From 46eb3791b7391c3ef3dc364b9a5fed3b1d5c2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 83/95] fix: cd does not take R()

---
 pieshell/pipeline/builtins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 05ff5b9..5a06540 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -20,11 +20,17 @@ class CdBuiltin(builtin.Builtin):
 
     _replacements = {"PARENT": "..", "ROOT": "/"}
 
+    def _step(self, arg):
+        if isinstance(arg, environ.R):
+            # Without any interpretation, also of ~
+            return os.path.join(".", arg.str)
+        return self._replacements.get(arg, arg)
+
     @property
     def _path(self):
         pth = "~"
         if self._arg[1:]:
-            pth = os.path.join(*[self._replacements.get(arg, arg) for arg in self._arg[1:]])
+            pth = os.path.join(*[self._step(arg) for arg in self._arg[1:]])
         return pth
 
     def _run(self, redirects, sess, indentation = ""):
-- 
2.43.0


From 11d570109efbfd452ee642d4258fb71225e29c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 84/95] fix: CTRL-Z suspends pipelines no longer waited for
 after CTRL-C

---
 pieshell/pipeline/base.py    | 6 +++++-
 pieshell/utils/asyncutils.py | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 848193b..d15de8d 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -165,9 +165,13 @@ class Pipeline(DescribableObject):
     
     def run_interactive(self):
         pipeline = self.run()
+        loop = asyncio.get_event_loop()
+        waiting = loop.create_task(pipeline.wait())
         try:
-            asyncio.get_event_loop().run_until_complete(pipeline.wait())
+            loop.run_until_complete(waiting)
         except KeyboardInterrupt as e:
+            # Or CTRL-Z would suspend it whatever is being waited for
+            waiting.cancel()
             # CTRL-C is raised in whatever the event loop was doing
             if isinstance(e, running.PipelineError): raise
             raise running.PipelineInterrupted(pipeline)
diff --git a/pieshell/utils/asyncutils.py b/pieshell/utils/asyncutils.py
index 001d8b3..1eef62f 100644
--- a/pieshell/utils/asyncutils.py
+++ b/pieshell/utils/asyncutils.py
@@ -5,10 +5,16 @@ def asyncitertoiter(aitf):
     loop = asyncio.get_event_loop()
     def it():
         while True:
+            waiting = asyncio.ensure_future(aitf.__anext__(), loop=loop)
             try:
-                yield loop.run_until_complete(aitf.__anext__())
+                value = loop.run_until_complete(waiting)
             except StopAsyncIteration:
                 return
+            except KeyboardInterrupt:
+                # Noone is waiting for it any longer
+                waiting.cancel()
+                raise
+            yield value
     return iter(it())
 
 class itertoasync(object):
-- 
2.43.0


From 7537a48fbc23ea7cf098f9157816287c977e19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 85/95] fix: CTRL-C just after a fork runs the shell's code in
 the child

---
 pieshell/pipeline/command.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 2137280..c42c88f 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -228,10 +228,19 @@ class Command(command.BaseCommand):
         args = self._arg_list(redirects, sess, indentation)
         log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        pid = os.fork()
+        # CTRL-C must not be raised in the shell's code in the child
+        mask = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGINT])
+        try:
+            pid = os.fork()
+        except:
+            signal.pthread_sigmask(signal.SIG_SETMASK, mask)
+            raise
         if pid == 0:
             ecode = -1
             try:
+                if signal.getsignal(signal.SIGINT) is not signal.SIG_IGN:
+                    signal.signal(signal.SIGINT, signal.SIG_DFL)
+                signal.pthread_sigmask(signal.SIG_SETMASK, mask)
                 self._child(redirects, args)
             except SystemExit as e:
                 ecode = e.code if isinstance(e.code, int) else 1
@@ -243,6 +252,7 @@ class Command(command.BaseCommand):
             finally:
                 # If we ever get to here, all is lost...
                 os._exit(ecode)
+        signal.pthread_sigmask(signal.SIG_SETMASK, mask)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From 15180d19b0cf2df200ff56fb276eef4ef5a31484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 86/95] fix: ptpython runs commands instead of ending with an
 error

It looks for __pt_repr__ in values, and prints them in another module
than it used to.
---
 pieshell/environ.py          | 3 ++-
 pieshell/pipeline/command.py | 3 +++
 pieshell/shell.py            | 6 +++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 4438a9d..c40cf54 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -141,7 +141,8 @@ class Environment(object):
     def __getattr__(self, name):
         """Creates a pipeline of one command in the current
         environment."""
-        if name in ("__getstate__", "__setstate__"):
+        if name.startswith("__") and name.endswith("__"):
+            # Others look for these, e.g. __getstate__ or __pt_repr__
             raise AttributeError(name)
         if name == "_":
             return pipeline.command.BaseCommand(self)
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index c42c88f..97144d2 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -90,6 +90,9 @@ class BaseCommand(base.Pipeline):
 
             env.git("status", "--help")
         """
+        if name.startswith("__") and name.endswith("__"):
+            # Others look for these, e.g. __pt_repr__
+            raise AttributeError(name)
         return type(self)(self._env, self._arg + [name])
 
     @property
diff --git a/pieshell/shell.py b/pieshell/shell.py
index 94b202f..dda6f99 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -92,6 +92,10 @@ Where OPTIONS are any of
                 if kws.get("ptpython", False):
                     import pieshell.monkeypatches.patch_jedi
                     import ptpython.repl
+                    try:
+                        import ptpython.printer as printer
+                    except ImportError: # Older versions
+                        printer = ptpython.repl
 
                     import pygments.token
                     import ptpython.prompt_style
@@ -106,7 +110,7 @@ Where OPTIONS are any of
                         prompt = str(environ.envScope)
                         return pieshell.pipeline.base.standard_repr(obj)
                         
-                    ptpython.repl.repr = ptrepr
+                    printer.repr = ptrepr
                     
                     ptpython.repl.embed(locals=environ.envScope, vi_mode=False)
                 else:
-- 
2.43.0


From 1c439fca64c8872e82c6c92cbbbe16f0ded928d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 87/95] fix: The prompt of ptpython follows the current
 directory

---
 pieshell/shell.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index dda6f99..db28fd9 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -106,9 +106,12 @@ Where OPTIONS are any of
                     ptpython.prompt_style.ClassicPrompt.in_prompt = in_prompt
 
                     def ptrepr(obj):
-                        global prompt
-                        prompt = str(environ.envScope)
-                        return pieshell.pipeline.base.standard_repr(obj)
+                        nonlocal prompt
+                        try:
+                            return pieshell.pipeline.base.standard_repr(obj)
+                        finally:
+                            # This might have changed directory
+                            prompt = str(environ.envScope)
                         
                     printer.repr = ptrepr
                     
-- 
2.43.0


From ff15ca215ef9df7356f05cc107a6091a7c2d480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 88/95] fix: Commands inherit SIGPIPE ignored and SIGCHLD
 blocked

so writers nobody reads from which do not check for errors never end, and
neither does wait in sh
---
 pieshell/pipeline/command.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 97144d2..c9907bb 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -181,6 +181,11 @@ class Command(command.BaseCommand):
 
     def _child(self, redirects, args):
         redirects.perform(self._env._cwd)
+        # What is executed must not inherit what Python ignores, and the
+        # signal manager blocks
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
+        for signo in (signal.SIGPIPE, signal.SIGXFSZ):
+            signal.signal(signo, signal.SIG_DFL)
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
@@ -249,6 +254,7 @@ class Command(command.BaseCommand):
                 ecode = e.code if isinstance(e.code, int) else 1
             except BaseException as e:
                 ecode = getattr(e, "errno", ecode)
+                signal.signal(signal.SIGPIPE, signal.SIG_IGN)
                 # Not sys.stderr: it can have a buffer, even one with
                 # output of the shell in it
                 os.write(2, ("Unable to execute %s: %s\n" % (repr(self), e)).encode("utf-8", "replace"))
-- 
2.43.0


From 3371da4b28810e56fc2216202d096da2c1ee28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 89/95] fix: Nothing ends if SIGCHLD was ignored when pieshell
 was started

---
 pieshell/signalio/manager_signalfd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pieshell/signalio/manager_signalfd.py b/pieshell/signalio/manager_signalfd.py
index 01aa886..e1d9d0d 100644
--- a/pieshell/signalio/manager_signalfd.py
+++ b/pieshell/signalio/manager_signalfd.py
@@ -2,6 +2,7 @@ import os
 import select
 import signal
 import errno
+import threading
 from .. import log
 import signalfd
 import asyncio
@@ -20,6 +21,12 @@ class SignalManager(IOHandler):
         self.loops = weakref.WeakSet()
         IOHandler.__init__(self, signalfd.signalfd(-1, mask, signalfd.SFD_CLOEXEC | signalfd.SFD_NONBLOCK), usage="SignalManager")
         signalfd.sigprocmask(signalfd.SIG_BLOCK, mask)
+        # Whatever started this might have ignored it, which getsignal()
+        # might not know of, and then nothing would tell when a process
+        # ends
+        if (signal.getsignal(signal.SIGCHLD) in (signal.SIG_DFL, signal.SIG_IGN)
+            and threading.current_thread() is threading.main_thread()):
+            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
 
     def enable(self):
         # Signals are for whichever event loop is running
-- 
2.43.0


From 497f5c92e1d1bb9eb6d792c75bf51084d8e974bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:34 +0000
Subject: [PATCH 90/95] fix: The exit statuses of processes started without
 pieshell are lost

---
 pieshell/signalio/manager_asyncio.py  |  5 ++++-
 pieshell/signalio/manager_signalfd.py |  5 ++++-
 pieshell/signalio/signalutils.py      | 11 +++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index ab48529..1c7d3d6 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -69,7 +69,10 @@ class SignalManager(object):
         # Linux...
         siginfos = [siginfo]
         if siginfo["ssi_signo"] == signal.SIGCHLD:
-            siginfos = signalutils.get_sigchlds()
+            siginfos = signalutils.get_sigchlds(
+                [handler.filter["ssi_pid"]
+                 for handler in self.signal_handlers.values()
+                 if "ssi_pid" in handler.filter])
 
         for siginfo in siginfos:
             class SignalFormatter(object):
diff --git a/pieshell/signalio/manager_signalfd.py b/pieshell/signalio/manager_signalfd.py
index e1d9d0d..2202e97 100644
--- a/pieshell/signalio/manager_signalfd.py
+++ b/pieshell/signalio/manager_signalfd.py
@@ -74,7 +74,10 @@ class SignalManager(IOHandler):
             # Linux...
             siginfos = [siginfo]
             if siginfo["ssi_signo"] == signal.SIGCHLD:
-                siginfos = signalutils.get_sigchlds()
+                siginfos = signalutils.get_sigchlds(
+                    [handler.filter["ssi_pid"]
+                     for handler in self.signal_handlers.values()
+                     if "ssi_pid" in handler.filter])
 
             for siginfo in siginfos:
                 class SignalFormatter(object):
diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index f8ae059..1024fdf 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -36,10 +36,17 @@ def siginfo_to_names(siginfo):
         siginfo[key] = val
     return siginfo
 
-def get_sigchlds():
+def get_sigchlds(pids):
+    # Not any child: others might have been started by, and be waited for
+    # by someone else
+    for pid in pids:
+        for event in get_process_sigchlds(pid):
+            yield event
+
+def get_process_sigchlds(pid):
     try:
         while True:
-            (pid, status) = os.waitpid(-1, os.WUNTRACED | os.WCONTINUED | os.WNOHANG)
+            (pid, status) = os.waitpid(pid, os.WUNTRACED | os.WCONTINUED | os.WNOHANG)
             if pid == 0:
                 return
 
-- 
2.43.0


From 93c5b5feb9f0eb64a0280175cf336af80e2dcdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 91/95] fix: help() of a command that prints no help runs it

---
 pieshell/pipeline/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index c9907bb..b1c5b2d 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -341,4 +341,6 @@ class Command(command.BaseCommand):
 
     @property
     def __doc__(self):
-        return "\n".join(self("--help"))
+        # If there was nothing, help() would look for comments, and show
+        # that is run, the command in the end
+        return "\n".join(self("--help")) or "No help available"
-- 
2.43.0


From a45aaccb5a6a53471cb94ff8e369ae4982d1c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 92/95] fix: Options with digits are cut in signatures

---
 pieshell/pipeline/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index b1c5b2d..438a9a6 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -285,7 +285,7 @@ class Command(command.BaseCommand):
         args = []
 
         params = {}
-        for param, value in re.findall(r"\s+(--[a-zA-Z][-a-zA-Z]+)([\[]?=[^\s\n]*)?", hlp):
+        for param, value in re.findall(r"\s+(--[a-zA-Z][-a-zA-Z0-9]+)([\[]?=[^\s\n]*)?", hlp):
             param = param[2:].replace("-", "_")
             if param not in params:
                 params[param] = set()
-- 
2.43.0


From 6f68498502a7fa668368b4bee039f5d7128a7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:21 +0000
Subject: [PATCH 93/95] fix: Signatures fail because of values that can not be
 names

---
 pieshell/pipeline/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 438a9a6..a0f45b1 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -320,7 +320,8 @@ class Command(command.BaseCommand):
                 while len(types) > 1:
                     types = [typing.Union[types[0],types[1]]] + types[2:]
             except Exception as e:
-                pass
+                # Not all values can be used as names
+                types = [str]
             args.append(
                 inspect.Parameter(
                     param,
-- 
2.43.0


From bdae2f08822b945f716e7f35abf0bfc9113e5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:37 +0000
Subject: [PATCH 94/95] fix: Logging names that are not UTF-8 raises

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index 89a00df..277c904 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -6,7 +6,7 @@ import resource
 class PieshellLogFDHandler(logging.StreamHandler):
     def emit(self, record):
         msg = self.format(record)
-        os.write(logfd, ("%s\n" % (msg,)).encode("utf-8"))
+        os.write(logfd, ("%s\n" % (msg,)).encode("utf-8", "backslashreplace"))
 
 pieshell_log_fd_handler = PieshellLogFDHandler()
 pieshell_log_fd_handler.setFormatter(logging.Formatter("%(process)d:" + logging.BASIC_FORMAT))
-- 
2.43.0


From fb6f2851336f981f2e0f2f21547a6a18c32bb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:37 +0000
Subject: [PATCH 95/95] fix: Pipelines fail if nobody reads the log

---
 pieshell/log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index 277c904..979dde4 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -6,7 +6,10 @@ import resource
 class PieshellLogFDHandler(logging.StreamHandler):
     def emit(self, record):
         msg = self.format(record)
-        os.write(logfd, ("%s\n" % (msg,)).encode("utf-8", "backslashreplace"))
+        try:
+            os.write(logfd, ("%s\n" % (msg,)).encode("utf-8", "backslashreplace"))
+        except OSError:
+            pass # Whoever read the log has ended
 
 pieshell_log_fd_handler = PieshellLogFDHandler()
 pieshell_log_fd_handler.setFormatter(logging.Formatter("%(process)d:" + logging.BASIC_FORMAT))
-- 
2.43.0

