"""C29: parsing leaves the process as it found it."""
import asyncio
import atexit
import base64
import builtins
import contextvars
import codecs
import copyreg
import csv
import decimal
import faulthandler
import gc
import gzip
import io
import json
import json.decoder
import json.scanner
import locale
import logging
import os
import os.path
import pathlib
import pickle
import random
import re
import resource
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import typing
import warnings
import xml.etree.ElementTree
import zlib

import attr

from .. import core, docs
from .. import model as m_
from ..core import Enum
from . import c18

RULE = (
    "states: documents of the levels of the other checks up to a size, well-formed, damaged and refused; before and after each parse every process-wide setting that Python offers is read and compared (interpreter limits, hooks, paths, warnings, signals, locale, decimal and context variables, threads, children, logging, garbage collector, environment, resource limits, working directory, the name spaces of built-ins and of the standard modules, the state of random numbers) and so is the argument; "
    "histories: each scenario, intact or damaged, parsed over and over: neither objects nor memory blocks nor results may pile up (executions = parses)"
)
ASSUMPTIONS = ["importing modules, and what CPython caches internally, is no trace", "between two compared points of a repeated parse up to half an object per parse is put down to the interpreter"]

MODULES = [json, json.decoder, json.scanner, xml.etree.ElementTree, zlib, gzip, base64, pathlib, os, os.path, re, struct, io, typing, builtins, attr, csv, decimal, locale, tempfile, subprocess, socket, random, time, threading, logging, warnings, pickle]
CLASSES = [pathlib.Path, pathlib.PurePath, json.JSONDecoder, json.JSONEncoder, xml.etree.ElementTree.ElementTree, threading.Thread, logging.Logger, decimal.Context]
# caches and counters that the modules keep for themselves
OWN = {
    "re": {"_cache", "_cache2"}, "logging": set(), "tempfile": {"_name_sequence"}, "threading": {"_dangling", "_active", "_counter", "_limbo", "_shutdown_locks"}, "subprocess": {"_active"}, "struct": set(),
    "warnings": {"_filters_version", "onceregistry"}, "os": {"environ"}, "random": set(), "typing": {"_cleanups"},
}


def space_of(d, skip=()):
    return {k: id(v) for k, v in list(d.items()) if k not in skip and k not in ("__warningregistry__", "__cached__")}


HANDLERS = ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace", "surrogateescape", "surrogatepass")
# two of them unknown to the interpreter: somebody may have registered them
CODECS = ("utf-8", "latin-1", "ascii", "utf-16", "utf-8-sig", "cp1252", "base64", "zlib", "hex", "zstd", "tiled", "csv", "unknown")


def lookup(name):
    try:
        return codecs.lookup_error(name)
    except LookupError:
        return None


def known(name):
    try:
        return codecs.lookup(name)
    except LookupError:
        return None


def snapshot():
    """Everything process-wide, by name."""
    s = {}
    s["interpreter"] = (
        sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), sys.gettrace(), sys.getprofile(), sys.getdlopenflags(), sys.dont_write_bytecode, sys.pycache_prefix, list(sys.warnoptions), list(sys.argv),
        id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook), id(threading.excepthook), sys.get_asyncgen_hooks() == (None, None), sys.get_coroutine_origin_tracking_depth(),
        tracemalloc.is_tracing(), faulthandler.is_enabled(), threading.stack_size(),
    )
    s["import system"] = (list(sys.path), [id(x) for x in sys.path_hooks], [id(x) for x in sys.meta_path])
    s["environment"] = (dict(os.environ), os.getcwd(), os.getuid(), os.getpriority(os.PRIO_PROCESS, 0))
    s["limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE, resource.RLIMIT_CORE)]
    s["signals"] = ([id(signal.getsignal(x)) for x in range(1, 32)], signal.pthread_sigmask(signal.SIG_BLOCK, []), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count(), [id(c) for c in gc.callbacks])
    s["warnings"] = ([(a, str(b), c, str(d), e) for a, b, c, d, e in warnings.filters], id(warnings.showwarning), id(warnings.formatwarning))
    s["locale"] = [locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_COLLATE, locale.LC_TIME, locale.LC_MONETARY, locale.LC_MESSAGES)] + [time.tzname]
    s["decimal"] = repr(decimal.getcontext()).split("flags")[0], repr(decimal.DefaultContext).split("flags")[0]
    s["context variables"] = {v.name: id(x) for v, x in contextvars.copy_context().items() if "decimal" not in v.name}
    s["threads"] = [(t.name, t.daemon) for t in threading.enumerate()]
    s["exit functions"] = atexit._ncallbacks()
    s["random numbers"] = hash(random.getstate())
    root = logging.getLogger()
    s["logging"] = (root.level, [id(h) for h in root.handlers], root.manager.disable, logging.raiseExceptions, [(n, l.level, len(l.handlers), l.propagate) for n, l in sorted(root.manager.loggerDict.items()) if isinstance(l, logging.Logger) and not n.startswith("pytiled")])
    s["xml name spaces"] = dict(xml.etree.ElementTree._namespace_map)
    s["csv, sockets"] = (csv.field_size_limit(), csv.list_dialects(), socket.getdefaulttimeout())
    s["exception being handled"] = sys.exc_info()[0]
    for m in MODULES:
        s["module " + m.__name__] = space_of(m.__dict__, OWN.get(m.__name__, ()))
    for c in CLASSES:
        s["class " + c.__qualname__] = space_of(c.__dict__)
    s["json's own decoder"] = {k: id(v) for k, v in json._default_decoder.__dict__.items()}
    s["tempfile"] = tempfile.tempdir
    s["codecs"] = {n: id(lookup(n)) for n in HANDLERS}, {n: repr(known(n)) for n in CODECS}
    s["pickling"] = {(k.__module__, k.__qualname__): id(v) for k, v in copyreg.dispatch_table.items()}
    return s


def children():
    try:
        return os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        return None


def umask():
    u = os.umask(0o27)
    os.umask(u)
    return u


UNUSUAL = []


def unusual():
    """No setting as the interpreter starts with, so that putting one back to the usual shows."""
    if UNUSUAL:
        return
    UNUSUAL.append(1)
    for n in ("C.UTF-8", "C.utf8", "POSIX"):
        try:
            locale.setlocale(locale.LC_ALL, n)
            break
        except locale.Error:
            pass
    sys.setswitchinterval(0.0046)
    sys.setrecursionlimit(1009)
    sys.set_int_max_str_digits(4312)
    sys.dont_write_bytecode = not sys.dont_write_bytecode
    gc.set_threshold(711, 11, 9)
    os.umask(0o027)
    os.environ["PYTHONIOENCODING"] = "latin-1"
    os.environ["LC_ALL"] = "C.UTF-8"
    os.environ["TZ"] = "Pacific/Kiritimati"
    time.tzset()
    c = decimal.getcontext()
    c.prec, c.rounding = 23, decimal.ROUND_DOWN
    csv.field_size_limit(131099)
    socket.setdefaulttimeout(61.5)
    warnings.filterwarnings("ignore", "mc", FutureWarning)
    warnings.showwarning = lambda *a, **k: None
    logging.getLogger().setLevel(17)
    logging.getLogger("mc").setLevel(3)
    logging.raiseExceptions = False
    random.seed(20)
    tempfile.tempdir = "/dev/shm"
    for x in (signal.SIGUSR1, signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE):
        signal.signal(x, lambda *a: None)
    sys.excepthook = lambda *a: sys.__excepthook__(*a)
    sys.displayhook = lambda *a: None
    sys.unraisablehook = lambda a: None
    threading.excepthook = lambda a: None
    xml.etree.ElementTree.register_namespace("mc", "http://mc")
    resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))


def look(ctx, kind, path, files):
    unusual()
    ctx.written = dict(files)
    call = "parse_%s(%r)" % (kind, os.path.basename(str(path)))
    given, parts, ident = str(path), getattr(path, "parts", None), id(path)
    mods = set(sys.modules)
    a, ua = snapshot(), umask()
    try:
        r = ctx.call(kind, path)
        exc = None
    except Exception as e:
        exc = type(e).__name__
    b, ub = snapshot(), umask()
    if a != b and set(sys.modules) != mods:
        # modules may be imported at their first use: what counts is the next parse
        a = b
        try:
            r = ctx.call(kind, path)
        except Exception:
            pass
        b = snapshot()
    d = m_.dump(r) if exc is None else ("EXC", exc)
    ctx.seen(d)
    ctx.extra["raising"] = ctx.extra.get("raising", 0) + (exc is not None)
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [n for n in set(x) | set(y) if x.get(n) != y.get(n)]
                x, y = {n: x.get(n) for n in ks}, {n: y.get(n) for n in ks}
            elif isinstance(x, (tuple, list)) and len(x) == len(y):
                i = [j for j in range(len(x)) if x[j] != y[j]][0]
                k, x, y = "%s (%d)" % (k, i), x[i], y[i]
            return ctx.fail(call + (" raises " + exc if exc else ""), "process-wide: " + k, x, y) or d
    if ua != ub:
        ctx.fail(call, "process-wide: umask", ua, ub)
    if children() is not None:
        ctx.fail(call, "child processes", None, children())
    if str(path) != given or getattr(path, "parts", None) != parts:
        ctx.fail(call, "the argument", given, str(path))
    return d


CAP = {"quick": {"": 320, "c05": 100, "c18": 400, "c26": 220}, "thorough": {"": 3000, "c18": 400}}


def documents(tier):
    return [("documents", docs.states(CAP[tier], every={("c18", "damage"): 211 if tier == "quick" else 13, ("c08", "places"): 2, ("c08", "edits"): 199, ("odd", "edited-places"): 7 if tier == "quick" else 1}))]


def check(ctx, st):
    docs.run(ctx, st, look)


# -- piling up ---------------------------------------------------------------------------------


def pile_levels(tier):
    return [("scenarios", [(i, b, n) for n in ((160,) if tier == "quick" else (160, 1600)) for i, s in enumerate(c18.scenarios()) for b in range(1 + 2 * len(s[4]))])]


def check_pile(ctx, st):
    """Parse the same files again and again."""
    import weakref

    i, b, n = st
    name, kind, entry, files, errs = c18.scenarios()[i]
    ctx.wipe()
    for g, c in files.items():
        ctx.put(g, c)
    if b:
        f = sorted(errs)[(b - 1) // 2]
        ctx.put(f, files[f][:len(files[f]) * 2 // 3] if b % 2 else files[f].replace(b"width", b"wdth").replace(b"maps", b"mups"))
    p = ctx.path(entry)
    call = "parse_%s(%r), scenario %s, %s" % (kind, entry, name, "intact" if not b else "damaged (%d)" % b)
    refs = []

    def once():
        try:
            refs.append(weakref.ref(ctx.call(kind, p)))
        except TypeError:
            pass  # a result that cannot be referred to weakly
        except Exception:
            pass

    def count():
        gc.collect()
        del refs[:]
        gc.collect()
        return len(gc.get_objects()), sys.getallocatedblocks()

    for _ in range(12):
        once()
    for again in range(4):
        # again, so that what was only warming up does not count
        o1, b1 = count()
        for _ in range(n):
            once()
        gc.collect()
        alive = sum(r() is not None for r in refs)
        o2, b2 = count()
        ctx.seen((alive, o2 - o1))
        # a result may be kept until the next one replaces it
        if alive > n // 2:
            return ctx.fail(call, "results still alive after %d parses" % n, "none", alive)
        if o2 - o1 < n // 2 and b2 - b1 < n - n // 8:
            return
    ctx.fail(call, "objects and memory blocks left behind by %d parses" % n, "none", (o2 - o1, b2 - b1))


def spaces():
    return [
        Enum("settings", documents, check, label=docs.label, edges=lambda s: 1),
        Enum("piling-up", pile_levels, check_pile, label=lambda s: "%s variant %d, %d times" % (c18.scenarios()[s[0]][0], s[1], s[2]), edges=lambda s: s[2]),
    ]
