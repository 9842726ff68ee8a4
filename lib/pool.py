"""Run cases in forked worker processes. multiprocessing.Pool can hang for ever in terminate() and
waits for ever for a worker that died; here a worker owns one pipe, its death is seen as the end of
that pipe, and stopping early is SIGKILL."""
from __future__ import annotations

import os
import pickle
import selectors
import signal
import struct
import traceback


def _write(fd, data):
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


def _work(fn, cases, take, out, chunk):
    while True:
        i = take()
        if i is None:
            return
        for k in range(i, min(i + chunk, len(cases))):
            _write(out, pickle.dumps((k, None)))
            _write(out, pickle.dumps((k, fn(cases[k]))))


class Pool:
    """Iterate over (case, result); result is None when the worker died running that case."""

    def __init__(self, fn, cases, nproc):
        self.cases, self.pids, self.sel = cases, {}, selectors.DefaultSelector()
        chunk = 1 if len(cases) < 400 else 4
        r, w = os.pipe()  # the tickets: one byte block per chunk, any worker may take the next
        self.tickets = r
        feeder = os.fork()
        if feeder == 0:
            code = 1
            try:
                os.close(r)
                signal.signal(signal.SIGPIPE, signal.SIG_DFL)
                for i in range(0, len(cases), chunk):
                    os.write(w, struct.pack("<Q", i))  # atomic: far below PIPE_BUF
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.feeder = feeder
        readers = []
        for _ in range(nproc):
            a, b = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(a)
                    for x in readers:
                        os.close(x)

                    def take():
                        s = os.read(r, 8)
                        return struct.unpack("<Q", s)[0] if len(s) == 8 else None

                    _work(fn, cases, take, b, chunk)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(b)
            readers.append(a)
            self.pids[a] = pid
            self.sel.register(a, selectors.EVENT_READ, [bytearray(), None])
        os.close(r)

    def __iter__(self):
        while self.sel.get_map():
            for key, _ in self.sel.select():
                fd, (buf, _cur) = key.fd, key.data
                data = os.read(fd, 1 << 20)
                if not data:
                    self.sel.unregister(fd)
                    os.close(fd)
                    status = os.waitpid(self.pids.pop(fd), 0)[1]
                    if key.data[1] is not None:
                        yield self.cases[key.data[1]], None, status
                    continue
                buf += data
                while len(buf) >= 8:
                    n = struct.unpack("<Q", buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    k, res = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    key.data[1] = k if res is None else None
                    if res is not None:
                        yield self.cases[k], res, 0

    def close(self):
        for pid in [*self.pids.values(), self.feeder]:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in [*self.pids.values(), self.feeder]:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
