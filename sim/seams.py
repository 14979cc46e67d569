"""All seams of one simulated process: solver, disk, wall clock, directory order."""
from __future__ import annotations

import contextlib
import ctypes
import errno as _errno
import os
import struct

MUT, READ = 0, 1
FAIL, SHORT, KILL, TORN, FULL, READFAIL = 1, 2, 3, 4, 5, 6
KILLED_EXIT = 77


class Disk:
    """The simulated disk below one directory (libsimdisk, preloaded)."""

    def __init__(self):
        self.lib = None
        path = os.environ.get("LD_PRELOAD", "")
        if "libsimdisk" in path:
            self.lib = ctypes.CDLL(path)
            L = self.lib
            L.simdisk_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
            L.simdisk_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
            L.simdisk_quota.argtypes = [ctypes.c_longlong]
            for f in ("simdisk_mutations", "simdisk_reads", "simdisk_fired"):
                getattr(L, f).restype = ctypes.c_long
            L.simclock_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
            L.simclock_jump.argtypes = [ctypes.c_long, ctypes.c_longlong]
            L.simclock_calls.restype = ctypes.c_long
            L.simclock_now.restype = ctypes.c_longlong

    def need(self):
        if self.lib is None:
            from .core import HarnessError

            raise HarnessError("libsimdisk is not preloaded")

    @contextlib.contextmanager
    def armed(self, root, faults=(), quota=None, log=None):
        """faults: dicts {at, cls: mut|read, action: fail|short|kill|torn|full|readfail, errno, arg}."""
        self.need()
        self.lib.simdisk_arm(os.path.realpath(str(root)).encode(), str(log).encode() if log else None)
        for f in faults:
            action = {"fail": FAIL, "short": SHORT, "kill": KILL, "torn": TORN, "full": FULL, "readfail": READFAIL}[f["action"]]
            cls = READ if f.get("cls") == "read" else MUT
            self.lib.simdisk_fault(int(f["at"]), cls, action, getattr(_errno, f.get("errno", "EIO")), int(f.get("arg", 0)))
        if quota is not None:
            self.lib.simdisk_quota(int(quota))
        res = DiskUse()
        try:
            yield res
        finally:
            res.mutations = self.lib.simdisk_mutations()
            res.reads = self.lib.simdisk_reads()
            res.fired = self.lib.simdisk_fired()
            self.lib.simdisk_disarm()


class DiskUse:
    mutations = reads = fired = 0


@contextlib.contextmanager
def clock(disk, base_ns, step_ns, jumps=()):
    """A wall clock that advances only by being read; jumps: (call number, nanoseconds)."""
    disk.need()
    disk.lib.simclock_set(int(base_ns), int(step_ns))
    for at, delta in jumps:
        disk.lib.simclock_jump(int(at), int(delta))
    try:
        yield
    finally:
        disk.lib.simclock_off()


K_OPEN, K_WRITE, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR, K_SYNC, K_CLOSE, K_RMDIR = range(1, 10)


def read_oplog(path):
    """[(kind, path, off, len, data)] of a disk operation log."""
    raw = open(path, "rb").read()
    pos, out = 0, []
    while pos < len(raw):
        kind, n = struct.unpack_from("<BH", raw, pos)
        pos += 3
        p = raw[pos:pos + n].decode()
        pos += n
        off, ln, dl = struct.unpack_from("<qqq", raw, pos)
        pos += 24
        out.append((kind, p, off, ln, raw[pos:pos + dl]))
        pos += dl
    return out


@contextlib.contextmanager
def directory_order(seed):
    """Directory listings come in a seeded order."""
    import random

    rng = random.Random(seed)
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path="."):
        items = sorted(real_listdir(path))
        if items and isinstance(items[0], str):
            rng.shuffle(items)
        return items

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it:
                self.items = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    os.listdir = listdir
    os.scandir = lambda path=".": Scan(path)
    try:
        yield
    finally:
        os.listdir, os.scandir = real_listdir, real_scandir


def install():
    from .solver import SolverWorld

    world = SolverWorld().install()
    world.disk = Disk()
    return world
