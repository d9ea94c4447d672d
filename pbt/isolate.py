"""Run a function in a forked child, so that it neither sees nor leaves state."""

import gc
import os
import pickle
import select
import signal
import sys
import traceback

from . import core


class ChildError(Exception):
    pass


def fresh(fn, *args, timeout=120):
    """fn(*args) as the first thing a new copy of this process does."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            # collecting garbage would copy the pages of the parent
            gc.disable()
            os.close(rd)
            signal.alarm(timeout)
            sys.stdout = open(os.devnull, "w")
            if os.environ.get("PBT_LINES"):
                core.record_lines("i")
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("error", traceback.format_exc())
            if os.environ.get("PBT_LINES"):
                sys.settrace(None)
                core.dump_lines()
            with os.fdopen(wr, "wb") as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    os.close(wr)
    chunks = []
    with os.fdopen(rd, "rb") as fp:
        while True:
            if not select.select([fp], [], [], timeout + 10)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(fp.fileno(), 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.waitpid(pid, 0)
    if not chunks:
        raise ChildError(f"no answer within {timeout} s")
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "error":
        raise ChildError(value)
    return value
