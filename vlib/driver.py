"""Talks to the in-process harnesses (harness/vdrv.hpp)."""

import os
import select
import struct
import subprocess
import tempfile
import time

from . import build, deadlock
from .runner import Inconclusive, Violation

BIN = {}


def setup(name, variant="san", libs=()):
    BIN[name, variant] = build.harness(name, variant, libs)


class Driver:
    def __init__(self, name, variant="san", timeout=30, env=None, prefix=(), alone=False):
        self.alone = alone      # it starts no programs, nor is it started by one
        self.name, self.variant, self.timeout = name, variant, timeout
        self.env = env or {}
        self.p = None
        self.prefix = list(prefix)

    def start(self):
        self.errf = tempfile.TemporaryFile()
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=67",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
               "TSAN_OPTIONS": "halt_on_error=1:exitcode=67:second_deadlock_stack=1"}
        env.update(self.env)
        self.p = subprocess.Popen([*self.prefix, BIN[self.name, self.variant]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=env)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def stderr(self):
        self.errf.seek(0)
        return self.errf.read()[-5000:].decode(errors="replace")

    def asleep(self):
        states = deadlock.all_asleep(self.p.pid)
        if states and select.select([self.p.stdout.fileno()], [], [], 0)[0]:
            return None
        return states

    def _read(self, n, deadline):
        fd = self.p.stdout.fileno()
        while len(self.buf) < n:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
            b = os.read(fd, 1 << 20)
            if not b:
                raise EOFError
            self.buf += b
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def call(self, *fields, patience=1):
        if self.p is None:
            self.start()
        msg = struct.pack("<I", len(fields))
        for f in fields:
            if isinstance(f, str):
                f = f.encode()
            elif not isinstance(f, (bytes, bytearray)):
                f = str(f).encode()
            msg += struct.pack("<I", len(f)) + f
        deadline = time.monotonic() + self.timeout * patience
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
            n = struct.unpack("<I", self._read(4, deadline))[0]
            ret = []
            for _ in range(n):
                k = struct.unpack("<I", self._read(4, deadline))[0]
                ret.append(self._read(k, deadline))
            return ret
        except TimeoutError:
            states = self.asleep() if self.alone else None
            err = self.stderr()
            if states:
                self.stop()
                raise Violation(f"the call never ends: all threads wait ({', '.join(states)})\n" + err, kind="race", history={"threads": states})
            self.stop()
            raise Violation(f"the call did not return within {self.timeout * patience} s\n" + err, kind="hang")
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            err = self.stderr()
            self.stop()
            if rc == -9 or "allocate memory" in err or "Resource temporarily unavailable" in err:
                raise Inconclusive(err)
            if rc == 66 and "ThreadSanitizer: unexpected memory mapping" in err:
                raise Inconclusive(err)
            raise Violation(f"the harness ended with status {rc} during the call\n" + err)


def get(ctx, name, variant="san", **kw):
    """a driver process per worker"""
    key = ("drv", name, variant)
    if key not in ctx.shared:
        ctx.shared[key] = Driver(name, variant, **kw)
    return ctx.shared[key]


def close(ctx):
    for k, d in list(ctx.shared.items()):
        if isinstance(d, Driver):
            d.stop()
