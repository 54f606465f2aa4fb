"""Run code in a forked child, and get its result back."""
import os
import pickle
import resource
import select
import signal
import time

from core import CaseStalled


class Lost(Exception):
    """The child died without an answer."""


def isolated(func, cpu=60, wall=150):
    """func() in a child process: its result (pickled), or the exception's (type name, text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            used = int(time.process_time()) + cpu
            resource.setrlimit(resource.RLIMIT_CPU, (used, used + 5))
            try:
                out = ("value", func())
            except Exception as e:
                import traceback
                out = ("error", type(e).__name__, str(e), traceback.format_exc()[-1500:])
            data = pickle.dumps(out, 4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = [], time.monotonic() + wall
    try:
        while True:
            if not select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                raise CaseStalled()
            b = os.read(r, 1 << 20)
            if not b:
                break
            data.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Lost(f"the process ended with status {st}")
    return pickle.loads(b"".join(data))
