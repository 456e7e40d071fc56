"""C27: independence of the interpreter's options and of the state of the process."""
import os
import pickle
import shutil
import subprocess
import sys
from functools import lru_cache

from .. import core, docs, interp
from ..core import Enum

RULE = "states: (condition of the process, part of the documents): every interpreter option, hash seed, import order, way of installing the package and state of the process in the list of mc/interp.py, each in an interpreter of its own in which the smaller levels of the spaces of the other checks are explored with their own oracles; what is observed is moreover compared with what a plain interpreter observes (executions = parses in the child interpreters)"
ASSUMPTIONS = ["conditions that the machine does not offer (another user, where that is not permitted) are left out", "the standard library keeps its promises in each condition"]

PARTS = 2


@lru_cache(None)
def states(tier):
    if tier == "quick":
        return docs.states({"": 200, "c18": 400, "c26": 160, "c05": 30, "c14": 60, "c06": 30, "c08": 30, "c11": 100, "c24": 400}, every={("c18", "damage"): 911, ("c08", "places"): 7, ("c24", "presence-lattice"): 97, ("c07", "leakage"): 17, ("odd", "edited-places"): 499})
    return docs.states({"": 600, "c18": 400}, every={("c18", "damage"): 97, ("c08", "places"): 2, ("c24", "presence-lattice"): 31, ("odd", "edited-places"): 31})


def spawn(ctx, num, part, tier):
    """The observations of one child interpreter, or None if the condition cannot be had here."""
    name, opts, env, how = interp.conditions(core.REPO)[num]
    root = ctx.root + "/child"
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    with open(ctx.root + "/todo", "wb") as f:
        pickle.dump([x for x in enumerate(states(tier)) if x[0] % PARTS == part], f)
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["MC_REPO"] = core.REPO
    for k, v in env.items():
        e.pop(k, None)
        if v is not None:
            e[k] = v
    code = "import sys; sys.path.insert(0, %r); from mc import interp; interp.main()" % core.VERIF
    argv = [sys.executable] + opts + ["-c", code, root, str(num), ctx.root + "/todo", core.REPO]
    null = subprocess.DEVNULL
    try:
        p = subprocess.run(argv, env=e, stdin=null, stdout=null, stderr=subprocess.PIPE, timeout=240 if tier == "quick" else 3000)
    except subprocess.TimeoutExpired:
        return "the child interpreter did not finish"
    if not os.path.exists(root + "/results"):
        return "the child interpreter ended with status %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1500:])
    with open(root + "/results", "rb") as f:
        return pickle.load(f)[2]


def check(ctx, st):
    num, part, tier = st
    cond = interp.conditions(core.REPO)[num]
    plain = getattr(ctx, "plain", {})
    if part not in plain:
        r = spawn(ctx, 0, part, tier)
        if not isinstance(r, list) or not r:
            return ctx.fail("the documents in a plain interpreter", "the interpreter", "its observations", r)
        plain[part] = r
        ctx.plain = plain
    ref = plain[part]
    if num == 0:
        res = ref
    else:
        res = spawn(ctx, num, part, tier)
        if res is None:
            ctx.extra["conditions_left_out"] = ctx.extra.get("conditions_left_out", 0) + 1
            return
    if not isinstance(res, list):
        return ctx.fail("the documents under: %s" % cond[0], "the interpreter", "its observations", res)
    if len(res) != len(ref):
        return ctx.fail("the documents under: %s" % cond[0], "number of documents", len(ref), len(res))
    ctx.execs += sum(r[1] for r in res)
    for (i, k, dig, bad, log), (i0, k0, dig0, bad0, log0) in zip(res, ref):
        ctx.seen(dig)
        if bad or dig != dig0:
            what = "%s, under: %s" % (docs.label(states(tier)[i]), cond[0])
            # what is wrong in a plain interpreter too is another property's business
            if bad and not bad0:
                return ctx.fail("%s: %s" % (what, bad[0]), bad[1], bad[2], bad[3])
            if dig != dig0:
                return ctx.fail(what, "everything observed", "as in a plain interpreter", "something else")


def levels(tier):
    n = len(interp.conditions(core.REPO))
    return [("conditions", [(c, p, tier) for p in range(PARTS) for c in range(n)])]


def spaces():
    return [Enum("interpreters", levels, check, label=lambda s: "%s, part %d of %d" % (interp.conditions(core.REPO)[s[0]][0], s[1], PARTS), edges=lambda s: 1, heavy=True)]
