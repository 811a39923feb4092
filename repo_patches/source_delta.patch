From 8f9a24b8ec9420c2c3847d2c5969ab0d33fa74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 01/35] fix: close process substitution and redirect
 descriptors when command setup fails

---
 shellous/runner.py | 47 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..b12d9f2 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -7,7 +7,17 @@ import sys
 from logging import Logger
 from pathlib import Path
 from types import TracebackType
-from typing import Any, AsyncIterator, Coroutine, Optional, TextIO, TypeVar, Union, cast
+from typing import (
+    Any,
+    AsyncIterator,
+    Coroutine,
+    Optional,
+    Sequence,
+    TextIO,
+    TypeVar,
+    Union,
+    cast,
+)
 
 import shellous
 import shellous.redirect as redir
@@ -121,7 +131,13 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            # `__exit__` will not be called. Close everything opened so far,
+            # then the descriptors that are normally closed after launch.
+            closed = list(self.open_fds)
+            close_fds(self.open_fds)
+            _cleanup(self.command, closed)
+            for subcmd in self.subcmds:
+                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -165,10 +181,12 @@ class _RunOptions:
             if _is_writable(arg):
                 new_args.append(f"/dev/fd/{write_fd}")
                 new_fds.append(write_fd)
+                self.open_fds.append(write_fd)
                 subcmd = arg.stdin(read_fd, close=True)
             else:
                 new_args.append(f"/dev/fd/{read_fd}")
                 new_fds.append(read_fd)
+                self.open_fds.append(read_fd)
                 subcmd = arg.stdout(write_fd, close=True)
 
             self.subcmds.append(subcmd)
@@ -177,7 +195,6 @@ class _RunOptions:
         # to close them after process launch.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1255,22 +1272,30 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    closed: Sequence[Any] = (),
+):
+    """Close remaining file descriptors that need to be closed.
+
+    Skip the descriptors in `closed`; these have already been closed.
+    """
 
     def _add_close(close: bool, fdesc: Any):
-        if close:
+        if close and fdesc not in closed and fdesc not in open_fds:
             if isinstance(fdesc, (int, io.IOBase)):
                 open_fds.append(fdesc)
 
     open_fds: list[Any] = []
+    cmds = command.commands if isinstance(command, shellous.Pipeline) else [command]
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+    for cmd in cmds:
+        _add_close(cmd.options.input_close, cmd.options.input)
+        _add_close(cmd.options.output_close, cmd.options.output)
+        _add_close(cmd.options.error_close, cmd.options.error)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+        for fdesc in cmd.options.pass_fds:
+            _add_close(cmd.options.pass_fds_close, fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From a5b68816f9efbdfb3ebe78c56b65ccd3716b7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 02/35] fix: close pty descriptors when the command cannot be
 launched

---
 shellous/pty_util.py | 46 +++++++++++++++++++++++++++++---------------
 shellous/runner.py   | 13 +++++++++++--
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..636f29a 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -58,7 +58,11 @@ class PtyFds(NamedTuple):
     @log_method(LOG_DETAIL)
     async def open_streams(self) -> "PtyFds":
         "Open pty reader/writer streams."
-        reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
+        try:
+            reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
+        except BaseException:
+            self.child_fd.close()
+            raise
         return PtyFds(
             self.parent_fd,
             self.child_fd,
@@ -84,14 +88,15 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
 
     # If pty_func is a callable, call it here with `child_fd` as argument. This
     # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
+    try:
+        if callable(pty_func):
+            pty_func(child_fd)
+        eof = _get_eof(child_fd)
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+    return PtyFds(parent_fd, ChildFd(child_fd), eof)
 
 
 def set_ctty(ttypath: str) -> None:
@@ -158,15 +163,24 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     # first data is received on BSD systems.
     reader_protocol.pty__child_fd = child_fd
 
-    reader_transport, _ = await loop.connect_read_pipe(
-        lambda: reader_protocol,
-        os.fdopen(parent_fd, "rb", 0, closefd=False),
-    )
+    try:
+        reader_transport, _ = await loop.connect_read_pipe(
+            lambda: reader_protocol,
+            os.fdopen(parent_fd, "rb", 0, closefd=False),
+        )
+    except BaseException:
+        close_fds([parent_fd])
+        raise
 
-    writer_transport, writer_protocol = await loop.connect_write_pipe(
-        asyncio.streams.FlowControlMixin,
-        os.fdopen(parent_fd, "wb", 0, closefd=True),
-    )
+    try:
+        # From here on, `parent_fd` is closed with the writer.
+        writer_transport, writer_protocol = await loop.connect_write_pipe(
+            asyncio.streams.FlowControlMixin,
+            os.fdopen(parent_fd, "wb", 0, closefd=True),
+        )
+    except BaseException:
+        reader_transport.close()
+        raise
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
     # Patch writer_transport.close so it also closes the reader_transport.
diff --git a/shellous/runner.py b/shellous/runner.py
index b12d9f2..306e35f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -135,6 +135,8 @@ class _RunOptions:
             # then the descriptors that are normally closed after launch.
             closed = list(self.open_fds)
             close_fds(self.open_fds)
+            if self.pty_fds:
+                self.pty_fds.close()
             _cleanup(self.command, closed)
             for subcmd in self.subcmds:
                 _cleanup(subcmd)
@@ -708,7 +710,12 @@ class Runner:
             if _is_cancelled(ex):
                 self._set_cancelled()
             if self._proc:
-                await self._kill()
+                try:
+                    await self._kill()
+                finally:
+                    await self._close()
+            elif self._options.pty_fds:
+                self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -733,7 +740,9 @@ class Runner:
 
         # Second half of pty setup.
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            # If `open_streams` fails, it closes the descriptors itself.
+            pty_fds, opts.pty_fds = opts.pty_fds, None
+            opts.pty_fds = await pty_fds.open_streams()
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
-- 
2.43.0


From 8315c5a0e6a13d6f44c221c8ff20ba292fd84ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 03/35] fix: don't close a pipeline's descriptors a second time
 when capturing is cancelled

---
 shellous/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 306e35f..de17604 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1178,8 +1178,10 @@ class PipeRunner:
             return self
 
         except BaseException:  # pylint: disable=broad-except
-            # Clean up after any exception *including* CancelledError.
-            close_fds(open_fds)
+            # Clean up after any exception *including* CancelledError. Once the
+            # commands have been started, they close their own descriptors.
+            if not self._tasks:
+                close_fds(open_fds)
             raise
 
     def _setup_pipeline(self, open_fds: list[int]):
-- 
2.43.0


From 5cdee61a2473b12590a08e7948e276e54d0dd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 04/35] fix: report the launch failure of a captured pipeline's
 first or last command

---
 shellous/runner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index de17604..1244a47 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1003,10 +1003,16 @@ class Runner:
             _cleanup(command)
             raise ValueError("multiple capture requires 'async with'")
 
-        async with Runner(command) as run:
-            if _run_future is not None:
-                # Return streams to caller in another task.
-                _run_future.set_result(run)
+        try:
+            async with Runner(command) as run:
+                if _run_future is not None:
+                    # Return streams to caller in another task.
+                    _run_future.set_result(run)
+        except Exception as ex:
+            if _run_future is not None and not _run_future.done():
+                # Tell the caller that the command failed to start.
+                _run_future.set_exception(ex)
+            raise
 
         result = run.result()
         if command.options._return_result:
-- 
2.43.0


From 9fb93688f48bd670fd48740c8ddbe07dce997a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 05/35] fix: re-raise the cancellation of a task iterating over
 or prompting a command

---
 shellous/command.py  | 4 ++++
 shellous/pipeline.py | 5 +++++
 shellous/runner.py   | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..03fa11a 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -704,6 +704,8 @@ class Command(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            if run.cancelled:
+                raise asyncio.CancelledError()
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
@@ -734,6 +736,8 @@ class Command(Generic[_RT]):
         async with Runner(self) as run:
             async for line in run:
                 yield line
+        if run.cancelled:
+            raise asyncio.CancelledError()
 
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..85b00b6 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -1,5 +1,6 @@
 "Implements support for Pipelines."
 
+import asyncio
 import contextlib
 import dataclasses
 import re
@@ -137,6 +138,8 @@ class Pipeline(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            if run.cancelled:
+                raise asyncio.CancelledError()
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
@@ -240,3 +243,5 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        if run.cancelled:
+            raise asyncio.CancelledError()
diff --git a/shellous/runner.py b/shellous/runner.py
index 1244a47..7236c7c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1082,6 +1082,11 @@ class PipeRunner:
             return None
         return self._pid
 
+    @property
+    def cancelled(self) -> bool:
+        "Return True if the pipeline was cancelled."
+        return self._cancelled
+
     def result(self, *, check: bool = True) -> Result:
         "Return `Result` object for PipeRunner."
         assert self._results is not None
-- 
2.43.0


From 9530078184d1643255501eb346362aac655c0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 06/35] fix: close a descriptor or file object given with
 close=True exactly once

---
 shellous/runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7236c7c..3347e18 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -267,7 +267,9 @@ class _RunOptions:
             self.kwd_args["close_fds"] = True
             self.kwd_args.setdefault("pass_fds", []).extend(options.pass_fds)
             if options.pass_fds_close:
-                self.open_fds.extend(options.pass_fds)
+                for fdesc in options.pass_fds:
+                    if fdesc not in self.open_fds:
+                        self.open_fds.append(fdesc)
         elif "close_fds" not in self.kwd_args:
             # Only set close_fds if it is not already set.
             self.kwd_args["close_fds"] = options.close_fds
@@ -342,7 +344,7 @@ class _RunOptions:
         elif isinstance(output, int):
             # File descriptor or magic constant (e.g. DEVNULL).
             stdout = output
-            if close:
+            if close and stdout not in self.open_fds:
                 self.open_fds.append(stdout)
         elif isinstance(
             output, (io.StringIO, io.BytesIO, bytearray, Logger, asyncio.StreamWriter)
@@ -354,6 +356,8 @@ class _RunOptions:
             # Client-managed File-like object.
             _set_position(output, append)
             stdout = output
+            if close and stdout not in self.open_fds:
+                self.open_fds.append(stdout)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From 580ae94e84cf91ea586c3a1586ad2483752c033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 07/35] fix: harvest finishes its tasks and raises
 CancelledError however often it is cancelled

---
 shellous/harvest.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..42436f0 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -1,6 +1,7 @@
 "Implementation for harvest and harvest_results function."
 
 import asyncio
+import contextlib
 from typing import Any, Awaitable, Iterable, Optional
 
 from shellous.log import LOG_DETAIL, LOGGER
@@ -139,12 +140,17 @@ async def harvest_wait(
                 cancel_finish,
                 ex,
             )
-        await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
+        with contextlib.suppress(asyncio.CancelledError):
+            await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
         _consume_exceptions(tasks)
         raise
 
     if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+        try:
+            await _cancel_wait(pending, trustee, cancel_timeout)
+        except asyncio.CancelledError:
+            _consume_exceptions(tasks)
+            raise
 
     assert all(task.done() for task in tasks)
 
@@ -161,19 +167,32 @@ async def _cancel_wait(
     cancel_timeout: float,
     cancel_finish: bool = False,
 ):
-    "Cancel tasks and wait for them to finish."
-    try:
-        if not cancel_finish:
-            # Cancel all tasks.
-            for task in tasks:
-                task.cancel()
+    """Cancel tasks and wait for them to finish.
 
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    If `_cancel_wait` is itself cancelled, raise CancelledError after all of the
+    tasks are finished.
+    """
+    if not cancel_finish:
+        # Cancel all tasks.
+        for task in tasks:
+            task.cancel()
 
-    except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    loop = asyncio.get_running_loop()
+    deadline = loop.time() + cancel_timeout
+    cancelled_ex = None
+
+    while True:
+        try:
+            timeout = max(deadline - loop.time(), 0)
+            await _cancel_waiter(tasks, trustee, timeout)
+            break
+        except asyncio.CancelledError as ex:
+            # Retry if _cancel_wait is itself cancelled.
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            cancelled_ex = ex
+
+    if cancelled_ex is not None:
+        raise cancelled_ex
 
 
 async def _cancel_waiter(
-- 
2.43.0


From dcc09d76c7f057836ad0180cebf00bd3f7ef45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 08/35] fix: reap the killed process when its run is cancelled
 again

---
 shellous/runner.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3347e18..855e9cd 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -634,9 +634,16 @@ class Runner:
         if self._proc.returncode is not None:
             return
 
+        self._signal(None)
+
         try:
-            self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            while self._proc.returncode is None:
+                try:
+                    await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+                except asyncio.CancelledError:
+                    # Keep waiting; the killed process still has to be reaped.
+                    LOGGER.warning("Runner.kill_wait cancelled %r", self)
+                    self._set_cancelled()
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From d97910aaaa116b1d5d260bf7aa53adfd342e3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 09/35] fix: unwritten input doesn't replace the cancellation
 or exception ending a run

---
 shellous/runner.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 855e9cd..6d09021 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -724,7 +724,7 @@ class Runner:
                 try:
                     await self._kill()
                 finally:
-                    await self._close()
+                    await self._close(True)
             elif self._options.pty_fds:
                 self._options.pty_fds.close()
             raise
@@ -918,6 +918,7 @@ class Runner:
     async def _finish(self, exc_value: Union[BaseException, None]):
         "Finish the run. Return True only if `exc_value` should be suppressed."
         assert self._proc
+        unwinding = True
 
         try:
             if exc_value is not None:
@@ -927,14 +928,18 @@ class Runner:
                 return self._cancelled
 
             await self._wait()
+            unwinding = self._cancelled
             return False
 
         finally:
-            await self._close()
+            await self._close(unwinding)
 
     @log_method(LOG_DETAIL)
-    async def _close(self):
-        "Make sure that our resources are properly closed."
+    async def _close(self, unwinding: bool):
+        """Make sure that our resources are properly closed.
+
+        If `unwinding`, unwritten input must not hide the original exception.
+        """
         assert self._proc is not None
 
         if self._options.pty_fds:
@@ -961,6 +966,10 @@ class Runner:
                     trustee=self,
                 )
 
+        except (BrokenPipeError, ConnectionResetError):
+            if not unwinding:
+                raise
+
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
 
-- 
2.43.0


From 4f746ae09d5b39c42ee73b651ff6f0998e90a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 10/35] fix: iterating over a pipeline reports a command that
 failed to start

---
 shellous/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 85b00b6..c74470b 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -245,3 +245,4 @@ class Pipeline(Generic[_RT]):
                 yield line
         if run.cancelled:
             raise asyncio.CancelledError()
+        run.result(check=False)  # raises if a command failed to start
-- 
2.43.0


From bd9751da7254fbc75ea20d7db9760081ea9fd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 11/35] fix: equal environments have equal hashes

---
 shellous/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..0462722 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -208,7 +208,7 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From 4aefb8c9fe898bcdaf0ab38774f1695478e253c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 12/35] fix: pass_fds may be any iterable and the command may
 run more than once

---
 shellous/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 03fa11a..504e423 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -251,6 +251,9 @@ class Options:  # pylint: disable=too-many-instance-attributes
                 kwds["env"] = EnvironmentDict(None, new_env)
             else:
                 kwds["env"] = None
+        if "pass_fds" in kwds:
+            # Don't share a mutable list or a one-shot iterator.
+            kwds["pass_fds"] = tuple(kwds["pass_fds"])
         return dataclasses.replace(self, **kwds)
 
     @overload
-- 
2.43.0


From 567c286b73cf7d12c01a32f52fc8ff6404648c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 13/35] fix: a cancelled expect() leaves a match found at the
 same time in the pending buffer

---
 shellous/prompt.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..96265f2 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -318,16 +318,17 @@ class Prompt:
         if self._at_eof:
             raise EOFError("Prompt has reached EOF")
 
-        cancelled, (result,) = await harvest_results(
+        cancelled, (found,) = await harvest_results(
             self._read_to_pattern(prompt),
             timeout=timeout or self._default_timeout,
         )
         if cancelled:
+            # Even if there is a match now, leave it in the `pending` buffer.
             raise asyncio.CancelledError()
-        if isinstance(result, Exception):
-            raise result
+        if isinstance(found, Exception):
+            raise found
 
-        return result
+        return self._take_pending(found)
 
     async def read_all(
         self,
@@ -426,10 +427,10 @@ class Prompt:
     async def _read_to_pattern(
         self,
         pattern: re.Pattern[str],
-    ) -> tuple[str, re.Match[str]]:
+    ) -> re.Match[str]:
         """Read text up to part that matches the pattern.
 
-        Returns 2-tuple with (text, match).
+        Returns the match. The text remains in the `pending` buffer.
         """
         stdout = self._runner.stdout
         assert stdout is not None
@@ -461,9 +462,9 @@ class Prompt:
                 continue
             self._pending += data
 
-            result = self._search_pending(pattern)
-            if result is not None:
-                return result
+            found = pattern.search(self._pending)
+            if found:
+                return found
 
             assert self._at_eof or len(self._pending) > _prev_len  # debug check
 
@@ -481,19 +482,23 @@ class Prompt:
         """
         found = pattern.search(self._pending)
         if found:
-            result = self._pending[0 : found.start(0)]
-            self._pending = self._pending[found.end(0) :]
-            if LOG_PROMPT:
-                LOGGER.info(
-                    "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
-                    self._runner.pid,
-                    found,
-                    len(self._pending),
-                )
-            return (result, found)
+            return self._take_pending(found)
 
         return None
 
+    def _take_pending(self, found: re.Match[str]) -> tuple[str, re.Match[str]]:
+        "Remove the match and the text before it from our `pending` buffer."
+        result = self._pending[0 : found.start(0)]
+        self._pending = self._pending[found.end(0) :]
+        if LOG_PROMPT:
+            LOGGER.info(
+                "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
+                self._runner.pid,
+                found,
+                len(self._pending),
+            )
+        return (result, found)
+
     async def _drain(self, stream: asyncio.StreamWriter) -> None:
         "Drain stream while reading into buffer concurrently."
         read_task = asyncio.create_task(
-- 
2.43.0


From 4630a9c6e78f4256478cc5e771ee11b56431eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 14/35] fix: launching a process is not interrupted by a second
 cancellation

---
 shellous/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index 0462722..323283f 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -1,6 +1,7 @@
 "Implements various utility functions."
 
 import asyncio
+import contextlib
 import contextvars
 import os
 import sys
@@ -145,8 +146,12 @@ async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
         return await asyncio.shield(task)
 
     except asyncio.CancelledError:
+        # Keep waiting even if the current task is cancelled again.
+        while not task.done():
+            with contextlib.suppress(asyncio.CancelledError):
+                await asyncio.shield(task)
         if not task.cancelled():
-            await task
+            task.result()
         raise
 
 
-- 
2.43.0


From 05a3674c7de9739e4a33afa0c622e818803ed694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 15/35] fix: a command's timeout in a pipeline raises
 TimeoutError instead of being ignored

---
 shellous/runner.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 6d09021..b677b4f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1016,8 +1016,13 @@ class Runner:
         command: "shellous.Command[Any]",
         *,
         _run_future: Optional[asyncio.Future["Runner"]] = None,
+        _raise_timeout: bool = False,
     ) -> Union[str, Result]:
-        "Run a command. This is the main entry point for Runner."
+        """Run a command. This is the main entry point for Runner.
+
+        If `_raise_timeout` is True, raise TimeoutError when `timeout` expires
+        even if the `_catch_cancelled_error` option is set.
+        """
         if not _run_future and _is_multiple_capture(command):
             LOGGER.warning("run_command: multiple capture requires 'async with'")
             _cleanup(command)
@@ -1034,6 +1039,9 @@ class Runner:
                 _run_future.set_exception(ex)
             raise
 
+        if _raise_timeout and run._timed_out and run.cancelled:
+            raise asyncio.TimeoutError()
+
         result = run.result()
         if command.options._return_result:
             return result
@@ -1199,8 +1207,8 @@ class PipeRunner:
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
-                for cmd in cmds:
-                    self.add_task(cmd.coro())
+                for i in range(len(cmds)):
+                    self.add_task(self._run_stage(cmds, i))
 
             self.stdin = stdin
             self.stdout = stdout
@@ -1236,6 +1244,24 @@ class PipeRunner:
 
         return cmds
 
+    def _run_stage(
+        self,
+        cmds: "list[shellous.Command[Any]]",
+        i: int,
+        run_future: Optional[asyncio.Future[Runner]] = None,
+    ) -> Coroutine[Any, Any, Union[str, Result]]:
+        """Return coroutine to run one command of the pipeline.
+
+        When a command's `timeout` expires, it raises a TimeoutError as usual;
+        `_catch_cancelled_error` is only used for the pipeline's sake.
+        """
+        options = self._pipe.commands[i].options
+        return Runner.run_command(
+            cmds[i],
+            _run_future=run_future,
+            _raise_timeout=not options._catch_cancelled_error,
+        )
+
     @log_method(LOG_DETAIL)
     async def _setup_capturing(self, cmds: "list[shellous.Command[Any]]"):
         """Set up capturing and return (stdin, stdout, stderr) streams."""
@@ -1243,9 +1269,9 @@ class PipeRunner:
         first_fut = loop.create_future()
         last_fut = loop.create_future()
 
-        first_coro = cmds[0].coro(_run_future=first_fut)
-        last_coro = cmds[-1].coro(_run_future=last_fut)
-        middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
+        first_coro = self._run_stage(cmds, 0, first_fut)
+        last_coro = self._run_stage(cmds, len(cmds) - 1, last_fut)
+        middle_coros = [self._run_stage(cmds, i) for i in range(1, len(cmds) - 1)]
 
         # Tag each task name with the index of the command in the pipe.
         self.add_task(first_coro, "0")
-- 
2.43.0


From 08d207f9e732db146ab64737f68add3bad70622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 16/35] fix: a substituted command that fails while its command
 is being stopped doesn't hide why

When a task is cancelled (or raises) inside the block of a command with process
substitution, the substituted command usually dies of SIGPIPE; its ResultError
replaced the CancelledError or the exception of the block.
---
 shellous/runner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b677b4f..780e38d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -25,7 +25,7 @@ from shellous import pty_util
 from shellous.harvest import harvest, harvest_results
 from shellous.log import LOG_DETAIL, LOGGER, log_method, log_timer
 from shellous.redirect import Redirect
-from shellous.result import Result, check_result, convert_result_list
+from shellous.result import Result, ResultError, check_result, convert_result_list
 from shellous.util import (
     BSD_DERIVED,
     SupportsClose,
@@ -609,7 +609,10 @@ class Runner:
         except (Exception, GeneratorExit) as ex:
             LOGGER.warning("Runner.kill %r ex=%r", self, ex)
             await self._kill_wait()
-            raise
+            if not isinstance(ex, (ResultError, OSError)):
+                raise
+            # A background task that fails because the process is being killed
+            # must not hide the original reason for killing it.
 
     def _signal(self, sig: Optional[int]):
         "Send a signal to the process."
-- 
2.43.0


From b91330fc17cef1120759cba9e656b613bbff2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 17/35] fix: report a cancellation that arrives while a failed
 command is being stopped

---
 shellous/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 780e38d..2d0db96 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -567,7 +567,8 @@ class Runner:
             LOGGER.debug("Runner.wait exited with error %r ex=%r", self, ex)
             self._tasks.clear()  # all tasks were cancelled
             await self._kill()
-            raise  # re-raise exception
+            if not self._cancelled:
+                raise  # re-raise exception, unless cancelled in the meantime
 
     @log_method(LOG_DETAIL)
     async def _wait_pid(self):
-- 
2.43.0


From 2eb8b98146542951fd767e02101491b8f623ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 18/35] fix: give each command of a pipeline its full
 cancel_timeout when the block is left early

After cancelling every command, harvest_results cancelled the remaining ones
a second time as soon as the first one was done, which sent SIGKILL at once.
---
 shellous/harvest.py | 10 +++++-----
 shellous/runner.py  | 13 +++++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 42436f0..9b39aab 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -141,13 +141,13 @@ async def harvest_wait(
                 ex,
             )
         with contextlib.suppress(asyncio.CancelledError):
-            await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
+            await cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
         _consume_exceptions(tasks)
         raise
 
     if pending:
         try:
-            await _cancel_wait(pending, trustee, cancel_timeout)
+            await cancel_wait(pending, trustee, cancel_timeout)
         except asyncio.CancelledError:
             _consume_exceptions(tasks)
             raise
@@ -161,15 +161,15 @@ async def harvest_wait(
         raise asyncio.TimeoutError()
 
 
-async def _cancel_wait(
+async def cancel_wait(
     tasks: Iterable[asyncio.Task[Any]],
     trustee: Any,
-    cancel_timeout: float,
+    cancel_timeout: float = _CANCEL_TIMEOUT,
     cancel_finish: bool = False,
 ):
     """Cancel tasks and wait for them to finish.
 
-    If `_cancel_wait` is itself cancelled, raise CancelledError after all of the
+    If `cancel_wait` is itself cancelled, raise CancelledError after all of the
     tasks are finished.
     """
     if not cancel_finish:
diff --git a/shellous/runner.py b/shellous/runner.py
index 2d0db96..85ae18e 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -22,7 +22,7 @@ from typing import (
 import shellous
 import shellous.redirect as redir
 from shellous import pty_util
-from shellous.harvest import harvest, harvest_results
+from shellous.harvest import cancel_wait, harvest, harvest_results
 from shellous.log import LOG_DETAIL, LOGGER, log_method, log_timer
 from shellous.redirect import Redirect
 from shellous.result import Result, ResultError, check_result, convert_result_list
@@ -1145,10 +1145,15 @@ class PipeRunner:
         "Wait for pipeline to finish."
         assert self._results is None
 
-        if kill:
+        if kill and self._tasks:
+            # Cancel each command once, and wait until all of them are done.
+            # `harvest_results` alone would cancel the others a second time,
+            # and cut their `cancel_timeout` short, when the first one is done.
             LOGGER.debug("PipeRunner.wait killing pipe %r", self)
-            for task in self._tasks:
-                task.cancel()
+            try:
+                await cancel_wait(self._tasks, trustee=self)
+            except asyncio.CancelledError:
+                self._cancelled = True
 
         cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
         if cancelled:
-- 
2.43.0


From fb8e0b39b6db2686eda713aa9bc65c6f18ee5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 19/35] fix: cancelling a pipeline while it starts cancels each
 command once

When the caller's future is already cancelled, set_result raised
InvalidStateError and stopped the command before it was cancelled as well.
---
 shellous/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 85ae18e..7ec2f17 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1034,7 +1034,7 @@ class Runner:
 
         try:
             async with Runner(command) as run:
-                if _run_future is not None:
+                if _run_future is not None and not _run_future.done():
                     # Return streams to caller in another task.
                     _run_future.set_result(run)
         except Exception as ex:
-- 
2.43.0


From 567a53eacb131749e6bda8ad3f07926c10fb7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 20/35] fix: close the descriptors of nested process
 substitutions that are never run

---
 shellous/runner.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7ec2f17..95f8d2b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -11,6 +11,7 @@ from typing import (
     Any,
     AsyncIterator,
     Coroutine,
+    Iterable,
     Optional,
     Sequence,
     TextIO,
@@ -138,8 +139,8 @@ class _RunOptions:
             if self.pty_fds:
                 self.pty_fds.close()
             _cleanup(self.command, closed)
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
+            unused = _get_subcmds(self.command)[len(self.subcmds) :]
+            _cleanup_subcmds([*self.subcmds, *unused])
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -160,8 +161,7 @@ class _RunOptions:
                     self.command.name,
                     exc_value,
                 )
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
+            _cleanup_subcmds(self.subcmds)
 
     def _setup_process_substitution(self) -> list[Union[str, bytes, os.PathLike[Any]]]:
         """Set up process substitution.
@@ -1030,6 +1030,7 @@ class Runner:
         if not _run_future and _is_multiple_capture(command):
             LOGGER.warning("run_command: multiple capture requires 'async with'")
             _cleanup(command)
+            _cleanup_subcmds(_get_subcmds(command))
             raise ValueError("multiple capture requires 'async with'")
 
         try:
@@ -1337,9 +1338,18 @@ class PipeRunner:
 
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
-    return any(
-        isinstance(arg, (shellous.Command, shellous.Pipeline)) for arg in cmd.args
-    )
+    return bool(_get_subcmds(cmd))
+
+
+def _get_subcmds(
+    cmd: "shellous.Command[Any]",
+) -> "list[Union[shellous.Command[Any], shellous.Pipeline[Any]]]":
+    "Return the arguments that are process substitutions."
+    return [
+        arg
+        for arg in cmd.args
+        if isinstance(arg, (shellous.Command, shellous.Pipeline))
+    ]
 
 
 def _is_multiple_capture(cmd: "shellous.Command[Any]"):
@@ -1377,6 +1387,17 @@ def _cleanup(
     close_fds(open_fds)
 
 
+def _cleanup_subcmds(
+    subcmds: "Iterable[Union[shellous.Command[Any], shellous.Pipeline[Any]]]",
+):
+    "Close the file descriptors of process substitutions that were never run."
+    for subcmd in subcmds:
+        _cleanup(subcmd)
+        cmds = subcmd.commands if isinstance(subcmd, shellous.Pipeline) else [subcmd]
+        for cmd in cmds:
+            _cleanup_subcmds(_get_subcmds(cmd))
+
+
 def _signame(signal: Any) -> str:
     "Return string name of signal."
     if signal is None:
-- 
2.43.0


From 3cfa5170570cf8245d63a279933d9802200b7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 21/35] fix: harvest raises the first exception seen, not one
 raised while cancelling

---
 shellous/harvest.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 9b39aab..c80f670 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -35,7 +35,7 @@ async def harvest(
     tasks are not cancelled, but allowed to finish.
     """
     tasks = [asyncio.ensure_future(item) for item in aws]
-    await harvest_wait(
+    failed = await harvest_wait(
         tasks,
         timeout=timeout,
         cancel_timeout=cancel_timeout,
@@ -43,9 +43,8 @@ async def harvest(
         trustee=trustee,
     )
     _consume_exceptions(tasks)
-    for task in tasks:
-        if not task.cancelled():
-            task.result()
+    if failed is not None:
+        failed.result()
 
 
 async def harvest_results(
@@ -96,10 +95,12 @@ async def harvest_wait(
     cancel_timeout: float = _CANCEL_TIMEOUT,
     cancel_finish: bool = False,
     trustee: Any = None,
-) -> None:
+) -> Optional[asyncio.Task[Any]]:
     """Wait for tasks to finish or raise an exception.
 
     After the harvest returns, all of the tasks are guaranteed to be done.
+    Return the first task that raised an exception, if any. (Other tasks may
+    raise exceptions of their own when they are cancelled because of it.)
 
     If there are pending tasks, they are cancelled and collected. Their
     exceptions are not consumed.
@@ -121,15 +122,15 @@ async def harvest_wait(
             return_when=asyncio.FIRST_EXCEPTION,
         )
 
+        # Find the first task that finished with an exception.
+        failed = None
+        for task in tasks:
+            if task in done and not task.cancelled() and task.exception():
+                failed = task
+                break
+
         # Determine whether asyncio.wait timed out.
-        time_expired = False
-        if not done:
-            time_expired = True
-        elif pending:
-            # No tasks in `done` finished with an exception.
-            time_expired = not any(
-                task.exception() for task in done if not task.cancelled()
-            )
+        time_expired = not done or bool(pending and failed is None)
 
     except (asyncio.CancelledError, GeneratorExit) as ex:
         # Cancel all tasks and wait for them to finish.
@@ -160,6 +161,8 @@ async def harvest_wait(
         _consume_exceptions(tasks)
         raise asyncio.TimeoutError()
 
+    return failed
+
 
 async def cancel_wait(
     tasks: Iterable[asyncio.Task[Any]],
-- 
2.43.0


From 1f7ce2ad6b14c483268d8a57953ff0b325f73cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 22/35] fix: keep buffered standard error when sys.stderr is
 sys.stdout

---
 shellous/runner.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 95f8d2b..ebc1c03 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -14,7 +14,6 @@ from typing import (
     Iterable,
     Optional,
     Sequence,
-    TextIO,
     TypeVar,
     Union,
     cast,
@@ -221,14 +220,14 @@ class _RunOptions:
             Redirect.from_default(options.output, 1, options.pty),
             options.output_append,
             options.output_close,
-            sys.stdout,
+            1,
         )
 
         stderr = self._setup_output(
             Redirect.from_default(options.error, 2, options.pty),
             options.error_append,
             options.error_close,
-            sys.stderr,
+            2,
         )
 
         # Set up PTY here. This is the first half. Second half in `Runner`.
@@ -311,7 +310,7 @@ class _RunOptions:
 
         return stdin, input_bytes
 
-    def _setup_output(self, output: Any, append: bool, close: bool, sys_stream: TextIO):
+    def _setup_output(self, output: Any, append: bool, close: bool, fdesc: int):
         "Set up process output. Used for both stdout and stderr."
         assert output is not None
 
@@ -323,20 +322,20 @@ class _RunOptions:
                 cast(os.PathLike[str], output), mode=mode
             )
             self.open_fds.append(stdout)
-        elif self.is_stderr_only and sys_stream == sys.stderr:
+        elif self.is_stderr_only and fdesc == 2:
             assert output == Redirect.STDOUT
             self.output_bytes = bytearray()
             assert stdout == asyncio.subprocess.PIPE
         elif isinstance(output, Redirect) and output.is_custom():
             # Custom support for Redirect constants.
             if output == Redirect.BUFFER:
-                if sys_stream == sys.stdout:
+                if fdesc == 1:
                     self.output_bytes = bytearray()
                 else:
                     self.error_bytes = bytearray()
                 assert stdout == asyncio.subprocess.PIPE
             elif output == Redirect.INHERIT:
-                stdout = sys_stream
+                stdout = sys.stdout if fdesc == 1 else sys.stderr
             else:
                 # CAPTURE uses stdout == PIPE.
                 assert output == Redirect.CAPTURE
-- 
2.43.0


From 021d781e86701bc08e6855c4a64865cf572360fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 23/35] fix: a timeout no longer cuts the grace period of a
 command being stopped short

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index ebc1c03..2577cb8 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -589,6 +589,9 @@ class Runner:
         cancel_timeout = self.command.options.cancel_timeout
         cancel_signal = self.command.options.cancel_signal
 
+        # The timer must not interrupt the grace period.
+        self._stop_timer()
+
         try:
             # If not already done, send cancel signal.
             if self._proc.returncode is None:
-- 
2.43.0


From a80dade0989926d29ed4f5f7beb7728abeff6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 24/35] fix: ThreadStrategy refuses a child whose PID was
 reused

waitpid() frees the PID for reuse before the watching thread removes its
entry (the callback runs in between). A child started in that window with
the same PID failed the assertion, and its entry would have been removed
by the other thread.
---
 shellous/watcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..5766de2 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -391,7 +391,8 @@ class ThreadStrategy(ChildStrategy):
         args: _CallbackArgsType,
     ) -> None:
         "Start a thread to watch the PID."
-        assert pid not in self._pids
+        # The PID may still belong to a thread that has just reaped it; the
+        # system can reuse the PID as soon as `waitpid` returns.
         thread = threading.Thread(
             target=self._reap_pid,
             args=(pid, callback, args),
@@ -415,7 +416,8 @@ class ThreadStrategy(ChildStrategy):
         else:
             LOGGER.critical("_reap_pid: process still running pid=%r", pid)
 
-        self._pids.pop(pid)
+        if self._pids.get(pid) is threading.current_thread():
+            self._pids.pop(pid, None)
 
 
 def _check_sigchld():
-- 
2.43.0


From 9ed1db9a839286d010acd9de4173330d8d8a785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 25/35] fix: close the pty's parent descriptor only once when
 setting up the launch fails

---
 shellous/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 2577cb8..8fae5d1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -137,6 +137,7 @@ class _RunOptions:
             close_fds(self.open_fds)
             if self.pty_fds:
                 self.pty_fds.close()
+                self.pty_fds = None
             _cleanup(self.command, closed)
             unused = _get_subcmds(self.command)[len(self.subcmds) :]
             _cleanup_subcmds([*self.subcmds, *unused])
-- 
2.43.0


From 65971f95b07191df5ae9e209a31d5ffdb26e03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 26/35] fix: allow stderr=STDOUT in a pty when standard output
 is redirected

---
 shellous/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 8fae5d1..aa9ae65 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -394,7 +394,7 @@ class _RunOptions:
         if stdout == asyncio.subprocess.PIPE:
             stdout = child_fd
 
-        if stderr == asyncio.subprocess.STDOUT:
+        if stderr == asyncio.subprocess.STDOUT or self.is_stderr_only:
             stderr = child_fd
 
         ttyname = os.ttyname(child_fd)
-- 
2.43.0


From 174a7a508c2aac71ccc5b67c367a8b7f0e924047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 27/35] fix: don't wait to write to a pty after it hangs up

---
 shellous/pty_util.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 636f29a..7aa5429 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -78,10 +78,20 @@ class PtyFds(NamedTuple):
         self.child_fd.close()
         if self.writer:
             self.writer.close()
+            _abort_unwritten(self.writer.transport)
         else:
             close_fds([self.parent_fd])
 
 
+def _abort_unwritten(transport: asyncio.WriteTransport) -> None:
+    """Close `transport` without waiting for unwritten data.
+
+    When nobody reads from the terminal any more, the data can't be written.
+    """
+    if transport.get_write_buffer_size() > 0:
+        transport.abort()
+
+
 def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
@@ -113,6 +123,7 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 
     pty__child_fd: Optional[ChildFd] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
+    pty__writer: Optional[asyncio.WriteTransport] = None
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
         "Intercept EIO error and treat it as EOF."
@@ -122,6 +133,9 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
             self.pty__timer.cancel()
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
+        if self.pty__writer is not None:
+            _abort_unwritten(self.pty__writer)
+            self.pty__writer = None
         super().connection_lost(exc)
 
     if BSD_DERIVED:
@@ -192,6 +206,15 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
 
     writer_transport.close, _orig_close = _close, writer_transport.close
 
+    # Once the terminal hangs up, don't wait until it is possible to write.
+    def _write(data: bytes):
+        _orig_write(data)
+        if reader_transport.is_closing():
+            _abort_unwritten(writer_transport)
+
+    writer_transport.write, _orig_write = _write, writer_transport.write
+    reader_protocol.pty__writer = writer_transport
+
     return reader, writer
 
 
-- 
2.43.0


From e4e25dcd5d0d6f6469646006393a1eee3259bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 28/35] fix: read the pty's output when standard output is
 redirected elsewhere

---
 shellous/runner.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index aa9ae65..3d6ad50 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -546,6 +546,17 @@ class Runner:
         "Return true if we're running a pty on BSD."
         return BSD_DERIVED and bool(self._options.pty_fds)
 
+    def _drain_pty(self) -> None:
+        """Read and discard the pty's output when nobody else reads it.
+
+        A command can write to its terminal even when its standard output is
+        redirected. It would block when the terminal's buffer is full.
+        """
+        if self._options.pty_fds and self.stdout is not None:
+            self.add_task(
+                redir.copy_bytearray_limit(self.stdout, bytearray(), 0), "pty"
+            )
+
     @log_method(LOG_DETAIL)
     async def _wait(self) -> None:
         "Normal wait for background I/O tasks and process to finish."
@@ -1024,11 +1035,14 @@ class Runner:
         *,
         _run_future: Optional[asyncio.Future["Runner"]] = None,
         _raise_timeout: bool = False,
+        _keep_stdout: bool = False,
     ) -> Union[str, Result]:
         """Run a command. This is the main entry point for Runner.
 
         If `_raise_timeout` is True, raise TimeoutError when `timeout` expires
         even if the `_catch_cancelled_error` option is set.
+
+        If `_keep_stdout` is True, the receiver of `_run_future` reads `stdout`.
         """
         if not _run_future and _is_multiple_capture(command):
             LOGGER.warning("run_command: multiple capture requires 'async with'")
@@ -1038,6 +1052,8 @@ class Runner:
 
         try:
             async with Runner(command) as run:
+                if not _keep_stdout:
+                    run._drain_pty()
                 if _run_future is not None and not _run_future.done():
                     # Return streams to caller in another task.
                     _run_future.set_result(run)
@@ -1273,6 +1289,7 @@ class PipeRunner:
             cmds[i],
             _run_future=run_future,
             _raise_timeout=not options._catch_cancelled_error,
+            _keep_stdout=run_future is not None and i > 0,
         )
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 4e5b74a5d60cf86e6b31b43cbea50ef3c57622d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 29/35] fix: don't block the event loop when changing a pty's
 echo

---
 shellous/pty_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 7aa5429..d88432d 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -272,7 +272,7 @@ def set_term_echo(fdesc: int, echo: bool) -> None:
         else:
             # Clear the echo bit.
             attrs[_LFLAG] = attrs[_LFLAG] & ~termios.ECHO
-        termios.tcsetattr(fdesc, termios.TCSADRAIN, attrs)
+        termios.tcsetattr(fdesc, termios.TCSANOW, attrs)
 
 
 def _set_term_size(fdesc: int, rows: int, cols: int):
-- 
2.43.0


From e3e58058242030a262e4087b648db9cffb3d5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 30/35] fix: report the error when a pipeline's pipes can't be
 created

---
 shellous/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3d6ad50..a171b1c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1189,7 +1189,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From dde8b0a4539f06bb5ad737ef7fcf81c422cf2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:20 +0000
Subject: [PATCH 31/35] fix: close descriptors owned by a pipeline that was
 never started

---
 shellous/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index a171b1c..4187ac6 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1251,6 +1251,7 @@ class PipeRunner:
             # commands have been started, they close their own descriptors.
             if not self._tasks:
                 close_fds(open_fds)
+                _cleanup_subcmds([self._pipe])
             raise
 
     def _setup_pipeline(self, open_fds: list[int]):
-- 
2.43.0


From ea95af51eaa8a3fff24cd566dba130cef833a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:18 +0000
Subject: [PATCH 32/35] fix: close a command's descriptors when its audit
 callback prevents the start

---
 shellous/runner.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 4187ac6..c88e8a1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -673,7 +673,14 @@ class Runner:
     @log_method(LOG_DETAIL)
     async def __aenter__(self):
         "Set up redirections and launch subprocess."
-        self._audit_callback("start")
+        try:
+            self._audit_callback("start")
+        except BaseException:
+            # The command won't be started; close the descriptors it owns.
+            _cleanup(self.command)
+            _cleanup_subcmds(_get_subcmds(self.command))
+            raise
+
         try:
             return await self._start()
         except BaseException as ex:
-- 
2.43.0


From 470f1c8c2e994a010a88a0eaabb093f00cff9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:42 +0000
Subject: [PATCH 33/35] fix: an audit callback that fails must not keep a
 process from being stopped

---
 shellous/runner.py | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c88e8a1..8c8fde5 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -623,7 +623,13 @@ class Runner:
 
         except (Exception, GeneratorExit) as ex:
             LOGGER.warning("Runner.kill %r ex=%r", self, ex)
-            await self._kill_wait()
+            try:
+                await self._kill_wait()
+            finally:
+                # If sending the signal failed, nothing waited for these tasks.
+                pending = [task for task in self._tasks if not task.done()]
+                if pending:
+                    await cancel_wait(pending, trustee=self)
             if not isinstance(ex, (ResultError, OSError)):
                 raise
             # A background task that fails because the process is being killed
@@ -635,13 +641,15 @@ class Runner:
 
         if LOG_DETAIL:
             LOGGER.debug("Runner.signal %r signal=%r", self, sig)
-        self._audit_callback("signal", signal=sig)
-
-        if sig is None:
-            self._proc.kill()
-        else:
-            self._proc.send_signal(sig)
-            self._last_signal = sig
+        try:
+            self._audit_callback("signal", signal=sig)
+        finally:
+            # Send the signal even if the audit callback fails.
+            if sig is None:
+                self._proc.kill()
+            else:
+                self._proc.send_signal(sig)
+                self._last_signal = sig
 
     @log_method(LOG_DETAIL)
     async def _kill_wait(self):
@@ -652,16 +660,19 @@ class Runner:
         if self._proc.returncode is not None:
             return
 
-        self._signal(None)
-
         try:
-            while self._proc.returncode is None:
-                try:
-                    await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
-                except asyncio.CancelledError:
-                    # Keep waiting; the killed process still has to be reaped.
-                    LOGGER.warning("Runner.kill_wait cancelled %r", self)
-                    self._set_cancelled()
+            try:
+                self._signal(None)
+            finally:
+                while self._proc.returncode is None:
+                    try:
+                        await harvest(
+                            self._waiter(), timeout=_KILL_TIMEOUT, trustee=self
+                        )
+                    except asyncio.CancelledError:
+                        # Keep waiting; the killed process still has to be reaped.
+                        LOGGER.warning("Runner.kill_wait cancelled %r", self)
+                        self._set_cancelled()
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From 619cdba9b7019a764b12e890a56d39c5a6e4cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:51 +0000
Subject: [PATCH 34/35] fix: split lines correctly when the encoding has
 multi-byte newlines

---
 shellous/redirect.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/shellous/redirect.py b/shellous/redirect.py
index b41d6c7..d77ecb5 100644
--- a/shellous/redirect.py
+++ b/shellous/redirect.py
@@ -1,6 +1,7 @@
 "Implements the Redirect enum and various redirection utilities."
 
 import asyncio
+import codecs
 import enum
 import io
 from logging import Logger
@@ -215,8 +216,7 @@ async def copy_logger(
     encoding: str,
 ):
     "Copy lines from source stream to dest Logger."
-    async for line in source:
-        data = decode_bytes(line, encoding)
+    async for data in _decode_lines(source, encoding):
         dest.error(data.rstrip())
 
 
@@ -284,8 +284,28 @@ async def copy_streamwriter(source: asyncio.StreamReader, dest: asyncio.StreamWr
 @log_method(LOG_DETAIL)
 async def read_lines(source: asyncio.StreamReader, encoding: str):
     "Async iterator over lines in stream."
-    async for line in source:
-        yield decode_bytes(line, encoding)
+    async for line in _decode_lines(source, encoding):
+        yield line
+
+
+async def _decode_lines(source: asyncio.StreamReader, encoding: str):
+    """Async iterator over decoded lines in stream.
+
+    `source` is split at each newline byte. In encodings such as utf-16, this
+    byte is not the end of a line but only part of a character.
+    """
+    enc, *errors = encoding.split(maxsplit=1)
+    decoder = codecs.getincrementaldecoder(enc)(*errors)
+    rest = ""
+
+    async for data in source:
+        *lines, rest = (rest + decoder.decode(data)).split("\n")
+        for line in lines:
+            yield line + "\n"
+
+    rest += decoder.decode(b"", final=True)
+    if rest:
+        yield rest
 
 
 def aiter_preflight(cmd: _CT) -> _CT:
-- 
2.43.0


From d40e35e3745012bb7f985586d204b28bca45686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:58 +0000
Subject: [PATCH 35/35] fix: detailed logging must not make harvest fail for a
 plain future

---
 shellous/harvest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index c80f670..815256f 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -243,4 +243,4 @@ def _consume_exceptions(tasks: Iterable[asyncio.Task[Any]]):
         if not task.cancelled():
             ex = task.exception()
             if ex and LOG_DETAIL:
-                LOGGER.debug("%r exception consumed %r", task.get_name(), ex)
+                LOGGER.debug("%r exception consumed %r", task, ex)
-- 
2.43.0

