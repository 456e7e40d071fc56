"""Explorer: exhaustive enumeration of bounded state spaces on the real code.

A *space* is a finite, deterministic family of states, split into levels (the
breadth-first layers of an edit graph, a size, a preemption bound, ...).  Every
state of every level is executed against the implementation; nothing is
sampled.  Levels are explored in order and states in index order, so that the
first violation reported is a minimal one.
"""
import importlib
import json
import multiprocessing
import os
import pkgutil
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
HANG_S = 60
HANG_HEAVY_S = 400

sys.dont_write_bytecode = True
# never trust byte code that may be stale: read none, write none
sys.pycache_prefix = os.path.join("/nonexistent", "mc-pycache")
warnings.simplefilter("ignore")

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load():
    """Import the implementation from the working tree."""
    import pytiled_parser

    global _loaded
    if _loaded:
        return pytiled_parser
    where = os.path.realpath(pytiled_parser.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("pytiled_parser imported from " + where)
    _loaded = True
    # what is imported while parsing is imported now: importing is not what is explored
    for m in list(pkgutil.walk_packages(pytiled_parser.__path__, "pytiled_parser.")):
        if not m.name.endswith("__main__"):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    return pytiled_parser


_loaded = False


class HarnessError(Exception):
    """The machinery itself is wrong: exit 2, never a violation."""


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


class Mismatch:
    __slots__ = ("call", "where", "exp", "obs", "files", "key")

    def __init__(self, call, where, exp, obs, files):
        self.call, self.where, self.exp, self.obs, self.files = call, where, exp, obs, files

    def as_tuple(self):
        return (self.call, self.where, self.exp, self.obs, self.files)


class Ctx:
    """What a state may do: write files into a private directory, call the library."""

    def __init__(self, root):
        self.root = root
        self.written = {}
        self.execs = 0
        self.outcomes = set()
        self.bad = []
        self.extra = {}

    # -- files ---------------------------------------------------------
    def put(self, rel, data):
        p = self.root + "/" + rel
        fd = None
        try:
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        except FileNotFoundError:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            os.write(fd, data) if len(data) < 65536 else _write_all(fd, data)
        finally:
            os.close(fd)
        self.written[rel] = data
        return p

    def path(self, rel):
        from pathlib import Path

        return Path(self.root + "/" + rel)

    def wipe(self):
        """Forget and delete every file of this state."""
        for name in os.listdir(self.root):
            p = self.root + "/" + name
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self.written = {}

    # -- the implementation ---------------------------------------------
    def call(self, kind, path):
        """Raw result or exception of one public call."""
        self.execs += 1
        return getattr(load(), "parse_" + kind)(path)

    def observe(self, kind, rel, path=None):
        """Canonical tree of the result, or ("EXC", class) if it raises."""
        from . import model

        p = self.path(rel) if path is None else path
        try:
            r = self.call(kind, p)
        except Hang:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            o = ("EXC", type(e).__name__)
        else:
            o = model.dump(r)
        self.outcomes.add(hash(o))
        return o

    def expect(self, call, exp, obs, where="result"):
        from . import model

        if exp == obs:
            return True
        d = model.first_diff(exp, obs, where)
        if d is None:
            return True
        self.fail(call, *d)
        return False

    def fail(self, call, where, exp, obs):
        self.bad.append(Mismatch(call, where, exp, obs, dict(self.written)))

    def seen(self, thing):
        self.outcomes.add(hash(thing))


def _write_all(fd, data):
    v = memoryview(data)
    while v:
        v = v[os.write(fd, v):]


class Space:
    """name; levels(tier) -> list of (level name, list of states); run(ctx, state)."""

    name = "?"
    what = ""

    def levels(self, tier):
        raise NotImplementedError

    def run(self, ctx, state):
        raise NotImplementedError

    def label(self, state):
        return repr(state)

    def transitions(self, level_index, state):
        """Number of edges of the edit graph that lead into this state from states explored before."""
        return 1 if level_index else 0

    # for spaces in which the explored object is not simply a state per index
    weight = 1


# ---------------------------------------------------------------------------


def run_state(space, ctx, state):
    """Run one state; returns the list of mismatches."""
    ctx.bad = []
    limit = HANG_HEAVY_S if getattr(space, "heavy", False) else HANG_S
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        space.run(ctx, state)
    except Hang:
        ctx.fail("?", "the call did not finish within %d s" % limit, "a result or an exception", "no answer")
    except HarnessError:
        raise
    except BaseException:
        # the harness builds the state from its own tables: what fails is looking at the result
        ctx.fail("?", "the outcome cannot be observed", "a result of the documented shape", traceback.format_exc(limit=-4))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx.bad


def _worker(space, states, counter, stop_at, current, chunk, root, known, conn, quiet, deadline):
    try:
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.close(dn)
        signal.signal(signal.SIGALRM, _on_alarm)
        os.makedirs(root, exist_ok=True)
        ctx = Ctx(root)
        done = 0
        trans = 0
        bad = []
        n = len(states)
        lvl = space._level
        while True:
            with counter.get_lock():
                lo = counter.value
                counter.value = lo + chunk
            if lo >= n:
                break
            for i in range(lo, min(lo + chunk, n)):
                if i > stop_at.value or time.time() > deadline:
                    break
                st = states[i]
                current.value = i
                ms = run_state(space, ctx, st)
                done += 1
                trans += space.transitions(lvl, st)
                if ms:
                    lab = space.label(st)
                    for m in ms:
                        k = known(space.name, lab, m)
                        bad.append((i, k, m.as_tuple()))
                        if k is None:
                            with stop_at.get_lock():
                                if i < stop_at.value:
                                    stop_at.value = i
                    del bad[20000:]
                ctx.written = {}
        conn.send(("ok", done, trans, ctx.execs, ctx.outcomes, bad, ctx.extra))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


class Run:
    def __init__(self, prop, spaces, tier, seed, known=None):
        self.prop, self.spaces, self.tier, self.seed = prop, spaces, tier, seed
        self.known = known or []
        self.hit = {}
        self.viol = None
        # only a machine (or a tree) many times slower than expected comes near this
        self.deadline = time.time() + (float(os.environ.get("MC_BUDGET", 700)) if tier == "quick" else 6 * 3600)
        self.cut = []
        self.stats = []
        self.outcomes = 0
        self.outset = set()
        self.samples = []
        self.extra = {}

    def match_known(self, sname, label, m):
        for i, k in enumerate(self.known):
            if k["space"] == sname and k["state"] == label and k.get("where", m.where) == m.where:
                return i
        return None

    def level(self, space, li, lname, states, scratch):
        space._level = li
        n = len(states)
        if not n:
            return
        t0 = time.time()
        nw = max(1, min(WORKERS, (n + 15) // 16 if not getattr(space, "heavy", False) else n))
        chunk = max(1, min(256, n // (nw * 8) or 1))
        mp = multiprocessing.get_context("fork")
        counter, stop_at = mp.Value("q", 0), mp.Value("q", n)
        procs = []
        for w in range(nw):
            a, b = mp.Pipe(False)
            cur = mp.Value("q", -1, lock=False)
            p = mp.Process(
                target=_worker,
                args=(space, states, counter, stop_at, cur, chunk, "%s/w%d" % (scratch, w), self.match_known, b,
                      getattr(space, "quiet", True), self.deadline),
            )
            p.start()
            b.close()
            procs.append((p, a, cur))
        done = trans = execs = 0
        bad = []
        for p, a, cur in procs:
            try:
                r = a.recv()
            except EOFError:
                p.join()
                # killed from outside (no memory left) is not the implementation's doing
                if p.exitcode == -signal.SIGKILL or cur.value < 0:
                    raise HarnessError("a worker died in %s/%s" % (space.name, lname))
                bad.append((cur.value, None, ("?", "the process ended", "a result or an exception", "exit status %r" % p.exitcode, {})))
                continue
            p.join()
            if r[0] == "err":
                raise HarnessError(r[1])
            done += r[1]
            trans += r[2]
            execs += r[3]
            self.outset |= r[4]
            bad += r[5]
            for k, v in r[6].items():
                self.extra[k] = self.extra.get(k, 0) + v
        bad.sort(key=lambda x: x[0])
        for i, k, m in bad:
            if k is not None:
                self.hit.setdefault(k, m)
            elif self.viol is None:
                self.viol = (space, lname, i, states[i], m)
        if self.viol is None and done != n and time.time() > self.deadline:
            self.cut.append("%s/%s: %d of %d states" % (space.name, lname, done, n))
        elif self.viol is None and done != n:
            raise HarnessError("explored %d of %d states of %s/%s" % (done, n, space.name, lname))
        self.stats.append(dict(space=space.name, level=lname, states=done, transitions=trans, executions=execs, wall_s=round(time.time() - t0, 2)))
        if n:
            self.samples.append("%s/%s: %s" % (space.name, lname, space.label(states[n // 2])[:300]))

    def go(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        scratch = os.path.realpath(tempfile.mkdtemp(prefix="mc-%s-" % self.prop, dir=base))
        only = os.environ.get("MC_ONLY")
        try:
            plan = []
            for s in self.spaces:
                if only and s.name not in only.split(","):
                    continue
                plan.append((s, s.levels(self.tier)))
            depth = max([len(lv) for _, lv in plan] or [0])
            for li in range(depth):
                for s, lv in plan:
                    if li < len(lv):
                        name, states = lv[li]
                        self.level(s, li, name, states, scratch)
                        lv[li] = (name, ())
                        if self.viol:
                            return
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------------------
# deviation spaces
# ---------------------------------------------------------------------------


def combos(sizes, k):
    """All ways of choosing k slots and one value index in each (slot, value) tuples."""
    from itertools import combinations, product

    out = []
    for c in combinations([i for i, n in enumerate(sizes) if n], k):
        for vs in product(*[range(sizes[i]) for i in c]):
            out.append(tuple(zip(c, vs)))
    return out


class Dev(Space):
    """States: assignments of values to at most k of the slots.

    slots: list of (name, values).  plan[tier]: list of (k, max values per
    slot) levels; an edge adds one deviation.  check(ctx, {slot: value}).
    dense=(names, k): the mirror image, starting from all of `names` set
    to their first value and dropping or changing up to k of them.
    """

    def __init__(self, name, slots, check, plan, what="", dense=None, contexts=(None,)):
        self.name, self.slots, self.check, self.plan, self.what = name, slots, check, plan, what
        self.dense = dense
        self.contexts = list(contexts)
        self.index = {n: i for i, (n, _) in enumerate(slots)}

    def levels(self, tier):
        out = []
        for k, mx in self.plan[tier]:
            ss = combos([min(mx, len(v)) for _, v in self.slots], k)
            out.append(("k=%d" % k, [(ci, "s", s) for ci in range(len(self.contexts)) for s in ss]))
        if self.dense:
            for k, mx in self.dense[tier]:
                # value index len(values) stands for "dropped"
                ss = combos([min(mx, len(v)) for _, v in self.slots], k)
                out.append(("dense-%d" % k, [(ci, "d", s) for ci in range(len(self.contexts)) for s in ss]))
        return out

    def assign(self, state):
        ci, mode, s = state
        if mode == "s":
            a = {self.slots[i][0]: self.slots[i][1][v] for i, v in s}
        else:
            a = {n: v[0] for n, v in self.slots}
            for i, v in s:
                if v == 0:
                    del a[self.slots[i][0]]
                else:
                    a[self.slots[i][0]] = self.slots[i][1][v]
        return a

    def run(self, ctx, state):
        if self.contexts[state[0]] is None:
            self.check(ctx, self.assign(state))
        else:
            self.check(ctx, self.assign(state), self.contexts[state[0]])

    def label(self, state):
        c = self.contexts[state[0]]
        return ("" if c is None else "[%s] " % (c,)) + ("all set but " if state[1] == "d" else "") + (
            ", ".join("%s=%r" % (self.slots[i][0], "(dropped)" if state[1] == "d" and v == 0 else self.slots[i][1][v]) for i, v in state[2]) or "(base)"
        )

    def transitions(self, level_index, state):
        return len(state[2])


class Enum(Space):
    """An explicitly listed space: levels given by a function of the tier."""

    def __init__(self, name, levels, check, what="", label=None, edges=None, heavy=False, quiet=True):
        self.name, self._levels, self.check, self.what = name, levels, check, what
        self._label, self._edges = label, edges
        self.heavy = heavy
        self.quiet = quiet

    def levels(self, tier):
        return [(n, list(s)) for n, s in self._levels(tier)]

    def run(self, ctx, state):
        self.check(ctx, state)

    def label(self, state):
        return self._label(state) if self._label else repr(state)

    def transitions(self, level_index, state):
        return self._edges(state) if self._edges else (1 if level_index else 0)


# ---------------------------------------------------------------------------
# reporting
# ---------------------------------------------------------------------------


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def write_replay(prop, viol):
    space, lname, i, state, (call, where, exp, obs, files) = viol
    d = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "files"))
    for rel, data in files.items():
        p = os.path.join(d, "files", rel.lstrip("/"))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        try:
            with open(p, "wb") as f:
                f.write(data)
        except OSError:
            pass
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump(
            dict(property=prop, space=space.name, level=lname, index=i, state=repr(state), label=space.label(state),
                 call=call, where=where, expected=short(exp, 4000), observed=short(obs, 4000),
                 rerun="cd /verif && /opt/venv/bin/python -m mc.run %s --replay %s" % (prop, os.path.join(d, "case.json"))),
            f, indent=1, ensure_ascii=True)
        f.write("\n")
    return d


def evidence(prop, tier, seed, level, run, wall, rule, assumptions, fault=False):
    st = run.stats
    states = sum(s["states"] for s in st)
    trans = sum(s["transitions"] for s in st)
    execs = sum(s["executions"] for s in st)
    cov = dict(samples=run.samples[:40], exhaustive=run.viol is None and not run.cut, distinct_outcomes=len(run.outset), rule=rule, spaces=st)
    if run.cut:
        cov["cut_short_by_time"] = run.cut
    if fault:
        cov["evaluations"] = execs
        cov["distinct_nontrivial"] = run.extra.pop("nontrivial", 0)
    else:
        cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, execs
    for k, v in sorted(run.extra.items()):
        cov.setdefault("count_" + k, v)
    e = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
        wall_s=round(wall, 2), violations=0 if run.viol is None else 1,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
