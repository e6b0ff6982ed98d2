"""Run a function in a forked child: no state leaks into or out of the case."""
import os
import pickle
import select
import signal
import sys
import time


def run(fn, timeout=120.):
    """Return ('ok', result) or ('exc', 'Type: message')."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                import traceback
                out = ('exc', f'{type(e).__name__}: {str(e)[:300]} '
                       f'{traceback.format_exception(e)[-2][-300:]}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    buf, end = [], time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return 'exc', 'Timeout: child took too long'
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        return 'exc', 'Died: no answer'
    return pickle.loads(b''.join(buf))
