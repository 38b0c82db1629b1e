"""Controller of the simulated disk (sim/shim.c, interposed with LD_PRELOAD).

All file I/O of the code under test (Python's own and Arrow's C++) below one
scratch prefix goes through the shim, which decides, from the scenario alone,
which operation fails, is cut short, is torn, or is the last one before the
"machine" dies.
"""
import ctypes
import errno as _errno
import os

ERR, STICKY, SHORT, TORN, CRASH = 1, 2, 3, 4, 5
KIND = {"err": ERR, "sticky": STICKY, "short": SHORT, "torn": TORN, "crash": CRASH}
FIRED = {1: "io_error_once", 2: "io_error_until_healed", 3: "short_write", 4: "torn_write_then_error",
         5: "crash", 8: "read_error", 9: "short_read", 10: "short_write_background",
         11: "directory_order_permuted", 12: "directory_read_error", 13: "open_for_read_error",
         14: "file_time_jump", 15: "stat_error"}


class Disk:
    def __init__(self):
        lib = ctypes.CDLL(None)
        if not hasattr(lib, "sim_present") or lib.sim_present() != 42:
            raise RuntimeError("disk shim is not loaded")
        lib.sim_arm.argtypes = [ctypes.c_char_p]
        lib.sim_add_fault.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        lib.sim_readdir_seed.argtypes = [ctypes.c_uint64]
        lib.sim_shortio.argtypes = [ctypes.c_uint64, ctypes.c_int]
        lib.sim_readfail.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int64, ctypes.c_int]
        lib.sim_rfault.argtypes = [ctypes.c_int64, ctypes.c_int]
        lib.sim_mtime_seed.argtypes = [ctypes.c_uint64]
        lib.sim_revents.restype = ctypes.c_int64
        lib.sim_events.restype = ctypes.c_int64
        lib.sim_fired.restype = ctypes.c_int64
        lib.sim_log.argtypes = [ctypes.c_char_p, ctypes.c_int64]
        lib.sim_log.restype = ctypes.c_int64
        self.lib = lib

    def arm(self, prefix, io=None):
        """io: {"readdir": seed, "short": [seed, permille], "faults": [...], "readfail": {...}}"""
        lib = self.lib
        lib.sim_arm(os.fsencode(str(prefix)))
        lib.sim_readdir_seed(0)
        lib.sim_shortio(0, 0)
        io = io or {}
        if io.get("readdir"):
            lib.sim_readdir_seed(int(io["readdir"]))
        if io.get("mtime"):
            lib.sim_mtime_seed(int(io["mtime"]))
        if io.get("short"):
            lib.sim_shortio(int(io["short"][0]), int(io["short"][1]))
        for f in io.get("faults", []):
            self.add_fault(f)
        if io.get("readfail"):
            r = io["readfail"]
            lib.sim_readfail(os.fsencode(r["path"]), r["errno"], r.get("offset", 0), int(r.get("on_open", 0)))

    def add_fault(self, f):
        self.lib.sim_add_fault(int(f["at"]), KIND[f["kind"]], int(f.get("errno", _errno.EIO)), int(f.get("permille", 500)))

    def readfail(self, path, errno, offset=0, on_open=False):
        self.lib.sim_readfail(os.fsencode(path), errno, offset, int(on_open))

    def rfault(self, at, errno):
        """The read event (open for reading, read, directory opening, stat) number at fails once."""
        self.lib.sim_rfault(int(at), int(errno))

    @property
    def revents(self):
        return self.lib.sim_revents()

    def heal(self):
        self.lib.sim_heal()

    def disarm(self):
        self.lib.sim_disarm()

    def rearm(self):
        self.lib.sim_rearm()

    @property
    def events(self):
        return self.lib.sim_events()

    @property
    def dead(self):
        return bool(self.lib.sim_is_dead())

    def fired(self):
        out = {}
        for k, name in FIRED.items():
            n = self.lib.sim_fired(k)
            if n:
                out[name] = int(n)
        return out

    def log(self):
        cap = 1 << 22
        buf = ctypes.create_string_buffer(cap)
        n = int(self.lib.sim_log(buf, cap))
        return buf.raw[:n].decode("utf-8", "surrogateescape").splitlines()
