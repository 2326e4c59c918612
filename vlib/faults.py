"""Crash points in forked processes: file operations below a folder."""
import builtins
import io
import os
import pickle
import traceback

CRASH = 77


class Faults:
    """Counts crash points and ends the process at the chosen one."""
    armed = None       # index of the crash point, None: only count
    count = 0
    kinds = []
    folder = None

    @classmethod
    def reset(cls, armed, folder):
        cls.armed, cls.count, cls.kinds = armed, 0, []
        cls.folder = os.path.abspath(folder)

    @classmethod
    def point(cls, kind, before=None):
        """One possible crash point; `before` runs just before the crash."""
        if cls.folder is None:
            return
        cls.kinds.append(kind)
        if cls.armed is not None and cls.count == cls.armed:
            if before:
                before()
            os._exit(CRASH)
        cls.count += 1


class FaultyFile:

    def __init__(self, handle):
        self._h = handle

    def write(self, data):
        def partial():
            self._h.write(data[:len(data) // 2])
            self._h.flush()
        Faults.point("write_partial", partial)
        r = self._h.write(data)
        Faults.point("write_buffered")
        return r

    def close(self):
        Faults.point("close")
        self._h.close()
        Faults.point("closed")

    def __enter__(self):
        self._h.__enter__()
        return self

    def __exit__(self, *a):
        Faults.point("close")
        r = self._h.__exit__(*a)
        Faults.point("closed")
        return r

    def __getattr__(self, name):
        return getattr(self._h, name)


def install():
    """Wraps file access below the watched folder (only in child processes)."""
    real_open = builtins.open

    def watched(path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(Faults.folder + os.sep) and not p.endswith(".log")

    def faulty_open(file, mode="r", *args, **kwargs):
        if (isinstance(file, int) or not set(mode) & set("wax+") or
                not watched(file)):
            return real_open(file, mode, *args, **kwargs)
        Faults.point("open")
        h = real_open(file, mode, *args, **kwargs)
        Faults.point("opened")
        return FaultyFile(h)

    def mover(real):
        def move(src, dst, *args, **kwargs):
            if not watched(dst):
                return real(src, dst, *args, **kwargs)
            Faults.point("rename")
            real(src, dst, *args, **kwargs)
            Faults.point("renamed")
        return move

    builtins.open = faulty_open
    io.open = faulty_open
    os.replace = mover(os.replace)
    os.rename = mover(os.rename)


def in_child(fn, out):
    """Runs fn() in a forked process; returns (exit code, result or None)."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            res = fn()
            with io.FileIO(out, "w") as h:
                h.write(pickle.dumps(res))
            code = 0
        except BaseException:
            with io.FileIO(out, "w") as h:
                h.write(pickle.dumps({"error": traceback.format_exc()}))
            code = 4
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    res = None
    if os.path.exists(out):
        with open(out, "rb") as h:
            data = h.read()
        res = pickle.loads(data) if data else None
        os.remove(out)
    return code, res
