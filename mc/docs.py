"""The documents of the other checks, for the checks that look at all of them in another way."""
import importlib
from functools import lru_cache

from .core import Ctx

# C13 and C20 change the working directory; C19, C21 and C23 bring their own processes
SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c14", "c15", "c16", "c17", "c18", "c22", "c24", "c25", "c26", "odd"]


@lru_cache(None)
def spaces(sources=tuple(SOURCES)):
    return [(c, s) for c in sources for s in importlib.import_module("mc.odd" if c == "odd" else "mc.checks." + c).spaces()]


# spaces of long states: left out where every document is looked at many times over
SLOW = {("c02", "sizes"), ("c02", "zstd-stand-in"), ("c09", "first-ids"), ("c16", "crowded-directory"), ("c25", "boundaries")} | {(c, "growth") for c in SOURCES}


def states(cap, sources=tuple(SOURCES), every=None):
    """[(space number, level number, state)] of all levels of at most cap states (a number, or one per check), by level.

    every: {(check, space): n}, every n-th state of each level of that space.
    """
    out = []
    for n, (c, s) in enumerate(spaces(sources)):
        if (c, s.name) in SLOW:
            continue
        mx = cap.get(c, cap[""]) if isinstance(cap, dict) else cap
        for li, (name, st) in enumerate(s.levels("quick")):
            if every and (c, s.name) in every:
                out.append((li, [(n, li, x) for x in st[::every[c, s.name]]]))
            elif 0 < len(st) <= mx:
                out.append((li, [(n, li, x) for x in st]))
    out.sort(key=lambda x: x[0])
    return [x for _, st in out for x in st]


def label(st, sources=tuple(SOURCES)):
    c, s = spaces(sources)[st[0]]
    return "%s/%s %s" % (c, s.name, s.label(st[2]))


class Through(Ctx):
    """Runs the states of another check; what is looked at is `look(ctx, kind, path, files)`.

    Expectations of the other check are not this check's business.
    """

    def __init__(self, outer, look):
        Ctx.__init__(self, outer.root)
        self.outer, self.look = outer, look

    def fail(self, *a):
        pass

    def expect(self, *a, **k):
        return True

    def observe(self, kind, rel, path=None):
        p = self.path(rel) if path is None else path
        try:
            return self.look(self.outer, kind, p, self.written)
        finally:
            self.outer.execs, self.execs = self.outer.execs + self.execs, 0


def run(ctx, st, look, sources=tuple(SOURCES)):
    n, li, x = st
    sp = spaces(sources)[n][1]
    sp._level = li
    if getattr(ctx, "inner", (None,))[0] != n:
        ctx.wipe()
        ctx.inner = (n, Through(ctx, look))
    sp.run(ctx.inner[1], x)
