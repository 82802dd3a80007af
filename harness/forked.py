"""Run a function in a process of its own, forked from one that has parsed nothing."""
import os
import pickle
import select
import signal
import sys
import time

import drive

LIMIT = 60


def run(f, arg, capture=False):
    """f(arg) in a fresh child -> (value, characters written to stdout/stderr by it)"""
    r, w = os.pipe()
    tmp = -1
    if capture:
        tmp = os.memfd_create("out")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            if capture:
                sys.stdout.flush()
                sys.stderr.flush()
                os.dup2(tmp, 1)
                os.dup2(tmp, 2)
            v = f(arg)
            if capture:
                sys.stdout.flush()
                sys.stderr.flush()
            data = pickle.dumps(v)
            with os.fdopen(w, "wb") as o:
                o.write(data)
            code = 0
        except BaseException as ex:
            try:
                os.write(w, b"!" + repr(ex).encode()[:2000])
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + LIMIT
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("!hang", f"no answer within {LIMIT} s"), 0
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    n = 0
    if capture:
        n = os.lseek(tmp, 0, os.SEEK_END)
        if n:
            os.lseek(tmp, 0, os.SEEK_SET)
            run.last = os.read(tmp, 2000).decode("utf-8", "replace")
        os.close(tmp)
    if st != 0:
        return ("!died", data.decode("utf-8", "replace")), n
    return pickle.loads(data), n


run.last = ""


def _one(a):
    f, arg, capture = a
    return run(f, arg, capture)


def pmap(f, args, capture=False, chunk=None):
    """the pool's workers parse nothing themselves when only this function is used on them"""
    return drive.pmap(_one, [(f, a, capture) for a in args], chunk)
