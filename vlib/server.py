"""Client of a harness server (see cpp/proto.h)."""
import os
import struct
import subprocess

import numpy as np


class Violation(Exception):
    """The property does not hold on this case."""


class Crash(Violation):
    pass


class Hang(Violation):
    pass


class CodeError(Exception):
    """The code under test threw a C++ exception."""


class Server:
    def __init__(self, exe, cwd, env=None, limit=60.0):
        self.exe, self.cwd, self.limit = exe, cwd, limit
        self.env = dict(os.environ)
        self.env["OMP_NUM_THREADS"] = "4"
        self.env["OMP_WAIT_POLICY"] = "passive"
        self.env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
        self.env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        self.env.pop("VERIF_RNG_SEED", None)
        if env:
            self.env.update(env)
        self.p = None

    def start(self):
        self.errpath = os.path.join(self.cwd, "server.stderr")
        self.err = open(self.errpath, "wb+")
        self.p = subprocess.Popen([self.exe], cwd=self.cwd, env=self.env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise RuntimeError("harness server died")
        return b

    def call(self, name, *args, limit=None):
        if self.p is None:
            self.start()
        self.err.seek(0)
        self.err.truncate()
        parts = [struct.pack("<I", len(name)), name.encode(), struct.pack("<I", len(args))]
        for a in args:
            if isinstance(a, (bytes, str)):
                b = a.encode() if isinstance(a, str) else a
                parts += [b"s", struct.pack("<Q", len(b)), b]
            else:
                a = np.asarray(a)
                if a.dtype.kind in "iub":
                    a = np.ascontiguousarray(a, dtype=np.int64).ravel()
                    t = b"i"
                else:
                    a = np.ascontiguousarray(a, dtype=np.float64).ravel()
                    t = b"d"
                parts += [t, struct.pack("<Q", a.size), a.tobytes()]
        payload = b"".join(parts)
        self.p.stdin.write(struct.pack("<Qd", len(payload), float(limit or self.limit)) + payload)
        self.p.stdin.flush()
        n, = struct.unpack("<Q", self._rd(8))
        b = self._rd(n)
        st = b[0]
        na, = struct.unpack("<I", b[1:5])
        pos, out = 5, []
        for _ in range(na):
            t = b[pos:pos + 1]
            c, = struct.unpack("<Q", b[pos + 1:pos + 9])
            pos += 9
            if t == b"s":
                out.append(b[pos:pos + c].decode("utf-8", "replace"))
                pos += c
            else:
                out.append(np.frombuffer(b, dtype=np.float64 if t == b"d" else np.int64, count=c, offset=pos).copy())
                pos += 8 * c
        if st == 0:
            return out
        if st == 1:
            raise CodeError(out[0])
        self.err.flush()
        self.err.seek(0)
        e = self.err.read().decode("utf-8", "replace")
        key = [l for l in e.splitlines() if "runtime error" in l or "ERROR: AddressSanitizer" in l or " in Mesh" in l]
        detail = " | ".join(key[:6])
        if st == 3:
            raise Hang("%s: no answer within %.0f s" % (name, limit or self.limit))
        raise Crash("%s: the code under test crashed (%s) %s" % (name, out[0], detail))
