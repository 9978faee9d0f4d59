"""Pristine interpreters on demand: a server process that has imported ctypeslib and
parsed nothing.  Each request is served by a forked child, so no request sees what
another one did.  Run as `python -m pbt.zygote` with the hash seed in the environment."""
import json
import os
import select
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 100


def _read(f, n):
    b = b""
    while len(b) < n:
        x = f.read(n - len(b))
        if not x:
            return None
        b += x
    return b


def send(f, obj):
    b = json.dumps(obj).encode()
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def recv(f):
    h = _read(f, 4)
    if h is None:
        return None
    return json.loads(_read(f, struct.unpack("<I", h)[0]))


class Zygote:
    """client side"""

    def __init__(self, hashseed):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", LANG="C.UTF-8")
        self.p = subprocess.Popen([sys.executable, "-m", "pbt.zygote"], cwd=VERIF, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, func, *args):
        """run pbt.steps.<func>(*args) in a fresh child: ["ok", value], ["exc", traceback] or ["died", status]"""
        send(self.p.stdin, [func, args])
        r = recv(self.p.stdout)
        if r is None:
            raise RuntimeError("zygote ended (%r)" % self.p.poll())
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


def serve():
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    from pbt import steps
    while True:
        req = recv(inp)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 1
            try:
                f = os.fdopen(w, "wb")
                try:
                    v = ["ok", getattr(steps, req[0])(*req[1])]
                except BaseException as e:
                    import traceback
                    v = ["exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:])]
                f.write(json.dumps(v).encode())
                f.close()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        data, end = b"", time.time() + LIMIT
        while True:
            rl, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not rl:
                os.kill(pid, signal.SIGKILL)
                break
            x = os.read(r, 1 << 16)
            if not x:
                break
            data += x
        os.close(r)
        _, st = os.waitpid(pid, 0)
        try:
            v = json.loads(data)
        except ValueError:
            v = ["died", st]
        send(out, v)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    serve()
