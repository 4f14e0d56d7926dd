"""Crashes and failures at every change of the file system."""
import errno
import os
import resource
import signal
import sys
import traceback

from mc.core import HarnessError, Violation

# Changes of the file system, as reported before they happen
EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "shutil.move", "shutil.copyfile"}


class Faults:
    """Ends this (forked) process before the n-th change of the file system."""

    def __init__(self, root, stop=None, limit=None, error=False, call=None):
        self.root, self.stop, self.limit, self.error = root, stop, limit, error
        self.call = call
        self.seen = []
        self.on = False
        self.most = None

    def clear(self):
        """No more faults."""
        self.on = False
        if self.most is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.most, self.most))

    def __call__(self, event, args):
        if not self.on or event not in EVENTS:
            return
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None))[:3]
            writing = (isinstance(mode, str) and set(mode) & set("wax+")) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            )
            if not writing:
                return
        if args and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).startswith("/dev"):
            return
        k = len(self.seen)
        self.seen.append(event)
        if self.stop is not None and k == self.stop:
            if self.call:
                # Somebody else gets to run
                self.on = False
                self.call()
                self.on = True
                return
            if self.limit is not None and event == "open":
                # End (or refuse space) once this file grows beyond the limit
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if self.error else signal.SIG_DFL)
                self.most = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
                resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.most))
                return
            if self.error:
                raise OSError(errno.EIO, "injected")
            os._exit(77)


def child(fn, faults):
    """Run in a forked process. Returns (exit status or signal, events, raised)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.close(r)
        raised = b""
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            sys.addaudithook(faults)
            faults.on = True
            try:
                fn()
            except OSError:
                raised = b"OSError"
            except RuntimeError:
                raised = b"RuntimeError"
            faults.on = False
            # NOTE: A pipe has no size limit
            os.write(w, b"%s %s" % (",".join(faults.seen).encode(), raised))
            os._exit(0)
        except BaseException:
            faults.on = False
            os.write(w, traceback.format_exc()[-4000:].encode())
            os._exit(3)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        out = fp.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) != signal.SIGXFSZ:
            raise HarnessError(f"signal {os.WTERMSIG(status)}")
        return "killed", None, None
    if os.WEXITSTATUS(status) == 77:
        return "killed", None, None
    if os.WEXITSTATUS(status):
        raise Violation(f"unexpected error in a build: {out.decode()}")
    seen, raised = out.decode().split(" ", 1)
    return "done", seen.split(",") if seen else [], raised
