"""Loads shim.c: the process is started again with it interposed."""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

from .core import VERIF, HarnessError

OPEN, READ, OPENDIR, READDIR = range(4)
OPS = ["open", "read", "opendir", "readdir"]
ERRNO, SHORT = 1, 2
NLOG = 8192


class Dev(ctypes.Structure):
    _fields_ = [("at", ctypes.c_long), ("kind", ctypes.c_int), ("val", ctypes.c_int)]


class Log(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("flags", ctypes.c_int), ("ours", ctypes.c_int), ("fd", ctypes.c_int), ("path", ctypes.c_char * 496)]


class Ctl(ctypes.Structure):
    _fields_ = [("active", ctypes.c_int), ("ndev", ctypes.c_int), ("live", ctypes.c_int), ("overflow", ctypes.c_int), ("n", ctypes.c_long), ("cap", ctypes.c_long), ("sticky", ctypes.c_long),
                ("dev", Dev * 4), ("nlog", ctypes.c_long), ("prefix", ctypes.c_char * 1024), ("log", Log * NLOG)]


ctl = None


def prepare():
    """Start this process again with the shim, unless it already runs with it."""
    global ctl
    if ctl is not None:
        return
    lib = os.environ.pop("MC_SHIM", None)
    if lib:
        os.environ.pop("LD_PRELOAD", None)
        shutil.rmtree(os.path.dirname(lib), ignore_errors=True)
        try:
            ctl = Ctl.in_dll(ctypes.CDLL(None), "mc_ctl")
        except ValueError:
            raise HarnessError("the shim is not loaded")
        return
    d = tempfile.mkdtemp(prefix="mc-shim-")
    lib = os.path.join(d, "shim.so")
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", lib, os.path.join(VERIF, "mc", "shim.c"), "-ldl"], stderr=subprocess.PIPE)
    if r.returncode:
        shutil.rmtree(d)
        raise HarnessError(r.stderr.decode())
    os.environ["MC_SHIM"] = lib
    os.environ["LD_PRELOAD"] = lib
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])


def start(prefix, devs=(), cap=0, sticky=0):
    c = ctl
    c.prefix = prefix
    c.n = c.nlog = c.overflow = 0
    c.live = 0
    c.cap = cap
    c.sticky = sticky
    c.ndev = len(devs)
    for i, (at, kind, val) in enumerate(devs):
        c.dev[i].at, c.dev[i].kind, c.dev[i].val = at, kind, val
    c.active = 1


def stop():
    ctl.active = 0
