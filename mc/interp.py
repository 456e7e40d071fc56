"""One child interpreter of C27: the small states of the other checks, explored in a given condition of the process.

argv: root, number of the condition, file with the states, repository; writes root/results.
"""
import hashlib
import os
import pickle
import sys
import traceback

# -- conditions: (name, interpreter options, environment, what is done in the process) ----------

OPTS = [
    ("-O", ["-O"], {}), ("-OO", ["-OO"], {}), ("-bb", ["-bb"], {}), ("-W error", ["-W", "error"], {}), ("-B", ["-B"], {}), ("-E -s -P", ["-E", "-s", "-P"], {}), ("-I", ["-I"], {}), ("-u", ["-u"], {}), ("-X dev", ["-X", "dev"], {}),
    ("-X importtime", ["-X", "importtime"], {}), ("-X tracemalloc", ["-X", "tracemalloc=1"], {}), ("-X faulthandler", ["-X", "faulthandler"], {}), ("-X no_debug_ranges", ["-X", "no_debug_ranges"], {}),
    ("-X frozen_modules=off", ["-X", "frozen_modules=off"], {}), ("-X int_max_str_digits=640", ["-X", "int_max_str_digits=640"], {}), ("-X int_max_str_digits=0", ["-X", "int_max_str_digits=0"], {}),
    ("PYTHONMALLOC=debug", [], {"PYTHONMALLOC": "debug"}), ("PYTHONMALLOC=malloc", [], {"PYTHONMALLOC": "malloc"}), ("no HOME, USER, PATH", [], {"HOME": None, "USER": None, "LOGNAME": None, "PATH": None, "SHELL": None}),
    ("HOME, TMPDIR missing", [], {"HOME": "/nonexistent/h", "TMPDIR": "/nonexistent/t", "XDG_CACHE_HOME": "/nonexistent/c"}), ("TZ", [], {"TZ": "Pacific/Kiritimati"}), ("COLUMNS", [], {"COLUMNS": "1", "LINES": "1", "TERM": "dumb", "NO_COLOR": "1"}),
]
SEEDS = ["0", "1", "2", "3", "7", "42", "123456789", "4294967295", "random"]
INSIDE = [
    "warnings are errors", "another thread", "a thread with a small stack", "an event loop", "a worker of an executor", "a generator", "an exception handler", "a finally clause", "a deep stack", "a forked child", "a copied context",
    "no garbage collection", "eager garbage collection", "frozen garbage", "trace function", "trace function per byte code", "profile function", "monitoring", "audit hook", "interval timer", "short switch interval", "no standard streams", "broken standard streams",
    "decimal context", "few descriptors", "umask 0777", "no working directory", "unprivileged user", "constant clock", "clock running backwards", "logging everything", "logging handler that raises", "high recursion limit",
    "pure Python XML", "pure Python JSON", "from a zip file", "from byte code", "from optimized byte code", "no argv", "gettext installed", "SIGCHLD ignored", "SIGALRM, SIGINT ignored", "random state", "imported twice", "module copied, reimported",
    "nothing above on the stack", "called from nameless code", "decimal commas", "another locale", "an interpreter within the interpreter",
]


def modules(repo):
    out = []
    base = os.path.join(repo, "pytiled_parser")
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py") and f != "__main__.py":
                m = os.path.relpath(os.path.join(d, f), repo)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return out


def conditions(repo):
    out = [("plain", [], {}, None)]
    out += [(n, o, e, None) for n, o, e in OPTS]
    out += [("PYTHONHASHSEED=" + s, [], {"PYTHONHASHSEED": s}, None) for s in SEEDS]
    out += [(n, [], {}, n) for n in INSIDE]
    out += [("import %s first" % m, [], {}, "import " + m) for m in modules(repo)]
    return out


def run_states(root, states):
    """[(number, parses, digest of everything observed, mismatch or None, observations)] of the states."""
    from mc import core, docs

    class Child(core.Ctx):
        def observe(self, kind, rel, path=None):
            o = core.Ctx.observe(self, kind, rel, path)
            # the order in which a directory is listed decides the order of a world's matches
            self.log.append(sorted(repr(m) for f, v in o[1] if f == "maps" and v for m in v[1]) if o and o[0] == "World" else o)
            return o

    out = []
    ctx, last = None, None
    for i, (n, li, x) in states:
        sp = docs.spaces()[n][1]
        if last != n:
            if ctx:
                ctx.wipe()
            ctx, last = Child(root), n
        ctx.log, ctx.bad = [], []
        sp._level = li
        try:
            sp.run(ctx, x)
        except Exception:
            bad = ("?", "the outcome cannot be observed", "a result of the documented shape", traceback.format_exc(limit=-4))
        else:
            bad = ctx.bad[0].as_tuple()[:4] if ctx.bad else None
        dig = hashlib.sha1(repr(ctx.log).encode("utf-8", "surrogatepass")).hexdigest()
        out.append((i, len(ctx.log), dig, bad and tuple(str(b)[:800] for b in bad), [repr(o)[:3000] for o in ctx.log] if bad else None))
        ctx.written = {}
    return out


def zipped(repo, root, how):
    """Put the package into a zip file or into a directory of byte code only; returns the path to import it from."""
    import compileall
    import shutil
    import zipfile

    if how == "zip":
        z = root + "/lib.zip"
        with zipfile.ZipFile(z, "w") as f:
            for d, ds, fs in os.walk(os.path.join(repo, "pytiled_parser")):
                for n in fs:
                    if not n.endswith(".pyc"):
                        f.write(os.path.join(d, n), os.path.relpath(os.path.join(d, n), repo))
        return z
    t = root + "/lib"
    shutil.copytree(os.path.join(repo, "pytiled_parser"), t + "/pytiled_parser", ignore=shutil.ignore_patterns("__pycache__"))
    compileall.compile_dir(t, quiet=2, legacy=True, optimize=how)
    for d, ds, fs in os.walk(t):
        for n in fs:
            if n.endswith(".py"):
                os.unlink(os.path.join(d, n))
    return t


def main():
    root, num, todo, repo = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    if conditions(repo)[num][3] == "an interpreter within the interpreter":
        try:
            import _xxsubinterpreters as x
        except ImportError:
            return main_(root, num, todo, repo)
        i = x.create(isolated=False)
        try:
            x.run_string(i, "import sys; sys.path[:] = %r; from mc import interp; interp.main_(%r, %d, %r, %r)" % (sys.path, root, num, todo, repo))
        finally:
            x.destroy(i)
        return
    main_(root, num, todo, repo)


def main_(root, num, todo, repo):
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    name, opts, env, how = conditions(repo)[num]
    if how and how.startswith("from "):
        repo = zipped(repo, root, {"from a zip file": "zip", "from byte code": 0, "from optimized byte code": 2}[how])
    os.environ["MC_REPO"] = repo
    if how == "pure Python XML":
        sys.modules["_elementtree"] = None
    if how == "pure Python JSON":
        sys.modules["_json"] = None
    work = root + "/work"
    os.makedirs(work)
    sys.path[:] = [verif, repo] + [p for p in sys.path if p not in (verif, repo)]
    if how and how.startswith("import "):
        import importlib

        importlib.import_module(how[7:])
    import warnings

    filters = warnings.filters[:]
    from mc import core, docs

    # the interpreter's own, not the harness's
    warnings.filters[:] = filters
    warnings._filters_mutated()

    core.REPO = repo
    core.load()
    docs.spaces()
    with open(todo, "rb") as f:
        states = pickle.load(f)
    if how in ("imported twice", "module copied, reimported"):
        import importlib

        names = [m for m in sys.modules if m.split(".")[0] == "pytiled_parser"]
        if how == "imported twice":
            core.keep = {m: sys.modules.pop(m) for m in names}
            importlib.import_module("pytiled_parser")
            core._loaded = False
            core.load()
        else:
            for m in sorted(names, key=lambda m: -m.count(".")):
                importlib.reload(sys.modules[m])

    def body():
        return run_states(work, states)

    res = inside(how, body, root, work)
    with open(root + "/results~", "wb") as f:
        pickle.dump((name, bool(sys.flags.optimize), res), f)
    os.rename(root + "/results~", root + "/results")


def bottom(f, path):
    """f(path) in a thread in which no Python code calls it."""
    import _thread
    import itertools

    out, done, errors = [], _thread.allocate_lock(), []
    done.acquire()

    def hook(a):
        errors.append(a.exc_value)
        done.release()

    was, sys.unraisablehook = sys.unraisablehook, hook
    try:
        _thread.start_new_thread(out.extend, (itertools.chain(map(f, [path]), itertools.starmap(done.release, [()])),))
        done.acquire()
    finally:
        sys.unraisablehook = was
    if errors:
        raise errors[0]
    return out[0]


def nameless(f, path):
    d = {"__builtins__": {}, "f": f, "path": path}
    exec(compile("r = f(path)", "", "exec"), d)
    return d["r"]


def inside(how, body, root, work):
    import signal
    import threading

    if how == "warnings are errors":
        import warnings

        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.simplefilter("error")
            return body()
    if how in ("another thread", "a thread with a small stack"):
        if how != "another thread":
            threading.stack_size(1 << 20)
        out = []
        t = threading.Thread(target=lambda: out.append(body()))
        t.start()
        t.join()
        return out[0]
    if how == "an event loop":
        import asyncio

        async def co():
            await asyncio.sleep(0)
            return body()

        return asyncio.run(co(), debug=True)
    if how == "a worker of an executor":
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(3) as ex:
            return ex.submit(body).result()
    if how == "a generator":
        def g():
            yield body()

        return next(g())
    if how == "an exception handler":
        try:
            raise LookupError("outer")
        except LookupError:
            return body()
    if how == "a finally clause":
        out = []
        try:
            try:
                raise LookupError("outer")
            finally:
                out.append(body())
        except LookupError:
            return out[0]
    if how == "a deep stack":
        def down(n):
            return down(n - 1) if n else body()

        return down(500)
    if how == "a forked child":
        pid = os.fork()
        if pid == 0:
            try:
                with open(root + "/forked", "wb") as f:
                    pickle.dump(body(), f)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(root + "/forked", "rb") as f:
            return pickle.load(f)
    if how == "a copied context":
        import contextvars

        return contextvars.copy_context().run(body)
    if how in ("no garbage collection", "eager garbage collection", "frozen garbage"):
        import gc

        if how == "no garbage collection":
            gc.disable()
        elif how == "frozen garbage":
            gc.freeze()
        else:
            gc.set_threshold(50, 2, 1)
        return body()
    if how in ("trace function", "trace function per byte code"):
        def tr(frame, event, arg):
            frame.f_trace_opcodes = how != "trace function" and "pytiled_parser" in frame.f_code.co_filename
            return tr

        sys.settrace(tr)
        try:
            return body()
        finally:
            sys.settrace(None)
    if how == "profile function":
        sys.setprofile(lambda *a: None)
        try:
            return body()
        finally:
            sys.setprofile(None)
    if how == "monitoring":
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return body()
        mon.use_tool_id(2, "mc")
        for e in (mon.events.PY_START, mon.events.RAISE, mon.events.PY_RETURN):
            mon.register_callback(2, e, lambda *a: None)
        mon.set_events(2, mon.events.PY_START | mon.events.RAISE | mon.events.PY_RETURN)
        return body()
    if how == "audit hook":
        sys.addaudithook(lambda *a: None)
        return body()
    if how == "interval timer":
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.0005, 0.0005)
        try:
            return body()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if how == "short switch interval":
        sys.setswitchinterval(1e-6)
        stop = []
        t = threading.Thread(target=lambda: [None for _ in iter(lambda: bool(stop), True)])
        t.daemon = True
        t.start()
        try:
            return body()
        finally:
            stop.append(1)
    if how == "no standard streams":
        sys.stdin = sys.stdout = sys.stderr = sys.__stdout__ = sys.__stderr__ = None
        return body()
    if how == "broken standard streams":
        class Broken:
            encoding = "ascii"

            def write(self, *a):
                raise OSError("broken stream")

            flush = read = readline = write

        sys.stdin = sys.stdout = sys.stderr = Broken()
        try:
            return body()
        finally:
            sys.stdin, sys.stdout, sys.stderr = sys.__stdin__, sys.__stdout__, sys.__stderr__
    if how == "decimal context":
        import decimal

        c = decimal.getcontext()
        c.prec, c.rounding, c.Emax = 1, decimal.ROUND_UP, 9
        c.traps[decimal.Inexact] = True
        return body()
    if how == "few descriptors":
        import gc
        import resource

        gc.disable()
        n = len(os.listdir("/proc/self/fd"))
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (n + 12, hard))
        try:
            return body()
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (256, hard))
    if how == "umask 0777":
        u = os.umask(0o777)
        try:
            return body()
        finally:
            os.umask(u)
    if how == "no working directory":
        d = root + "/gone"
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
        try:
            return body()
        finally:
            os.chdir("/")
    if how == "unprivileged user":
        r, w = os.pipe()
        os.chmod(root, 0o755)
        os.chown(work, 65534, 65534)
        pid = os.fork()
        if pid == 0:
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                os._exit(3)
            try:
                # the way down to the files must be open to that user
                os.listdir(work)
            except OSError:
                os._exit(3)
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(body(), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        return pickle.loads(b) if b else None if st == 3 else []
    if how in ("constant clock", "clock running backwards"):
        import time

        n = [10 ** 9]

        def clock():
            if how != "constant clock":
                n[0] -= 1000
            return n[0] / 10

        for a in ("time", "monotonic", "perf_counter"):
            setattr(time, a, clock)
            setattr(time, a + "_ns", lambda: int(clock() * 10 ** 9))
        return body()
    if how in ("logging everything", "logging handler that raises"):
        import logging

        class H(logging.Handler):
            def emit(self, rec):
                rec.getMessage()
                if how != "logging everything":
                    raise OSError("no log")

            def handleError(self, rec):
                pass

        logging.raiseExceptions = False
        if how == "logging everything":
            logging.basicConfig(level=0, handlers=[H()])
        else:
            logging.disable(logging.CRITICAL)
        return body()
    if how == "high recursion limit":
        sys.setrecursionlimit(10 ** 5)
        return body()
    if how == "no argv":
        sys.argv = []
        sys.orig_argv = []
        return body()
    if how in ("nothing above on the stack", "called from nameless code"):
        from mc import core

        def call(ctx, kind, path):
            ctx.execs += 1
            f = getattr(core.load(), "parse_" + kind)
            return (bottom if how == "nothing above on the stack" else nameless)(f, path)

        core.Ctx.call = call
        return body()
    if how == "decimal commas":
        import locale

        locale._override_localeconv = {"decimal_point": ",", "thousands_sep": ".", "grouping": [3, 0], "mon_decimal_point": ",", "mon_thousands_sep": "."}
        return body()
    if how == "another locale":
        import locale

        for n in ("de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"):
            try:
                locale.setlocale(locale.LC_ALL, n)
                break
            except locale.Error:
                pass
        return body()
    if how == "gettext installed":
        import gettext

        gettext.install("mc")
        return body()
    if how == "SIGCHLD ignored":
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        return body()
    if how == "SIGALRM, SIGINT ignored":
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        return body()
    if how == "random state":
        import random

        random.seed(5)
        return body()
    return body()
