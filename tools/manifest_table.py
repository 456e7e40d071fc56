"""MANIFEST.json: the checks and what they assure."""
PY = "/opt/venv/bin/python -m mc.run"
REF = "exhaustive bounded enumeration of document states, every state saved, parsed by the real code and compared with an explicit reference model (conformance on every state)"
T = {
    "C01": ("exhaustive bounded exploration of edit sequences and edit graphs of maps; both saves parsed by the real code and compared with each other", "every map within the bounds (edit sequences to depth 3, pairs of edits of a rich map); differential between the two real parsers, so an error common to both is left to C02-C16"),
    "C02": (REF, "every grid, size, encoding, compression level and chunk layout within the bounds"),
    "C03": (REF, "every layer forest to 6 (7) nodes over the four kinds, every sibling word to length 5, both formats"),
    "C04": (REF, "every set of up to 2 (3) attribute deviations over two sibling layers, the full presence lattice of each kind"),
    "C05": (REF, "every sequence of object kinds to length 4, every pair of geometry deviations, every one- and two-bit global ID"),
    "C06": (REF, "every pair (triple) of attribute deviations over two sibling objects of each kind; the full presence lattice of text objects"),
    "C07": (REF, "every property type x boundary value x carrier, all pairs and triples of properties, all subsets of carriers"),
    "C08": ("exhaustive enumeration of colour strings (all strings to length 4, reduced alphabets to length 8, all one- and two-edit neighbours of valid colours, all bytes of all channels) and of places in documents, decided against an independent decoder", "complete within the alphabets; longer malformed strings only as neighbours of valid ones"),
    "C09": (REF, "every pair (triple) of attribute deviations of a tileset and its neighbour, the full presence lattice"),
    "C10": (REF, "every set of tile entries over a pool of ids in every order, pairs and triples of tile attributes, the full presence lattice"),
    "C11": (REF, "every pair of deviations over two wang sets, every shape to two sets of three colours and tiles"),
    "C12": (REF, "every sequence of up to three tileset references over embedded, TSX and JSON, shared and distinct files"),
    "C13": (REF, "every placement of the files in a small directory tree x working directory x spelling of the path"),
    "C14": (REF, "every pair of deviations on template, instance, second instance and plain sibling for every kind; the override lattice; every sequence of instances to length 3"),
    "C15": (REF + "; invariants on ID ranges checked on every result", "every sequence of up to three instances over listed, unlisted and sparse tilesets and layer positions"),
    "C16": (REF, "every subset of a pool of 13 adversarial directory entries x patterns, every list of declared maps and patterns to the bound"),
    "C17": (REF, "every combination of content format x extension x leading blanks for every kind of file"),
    "C18": ("exhaustive fault enumeration: every truncation point, torn tail and single damaged byte or block of every file of every scenario, parsed by the real code", "complete over the scenarios; damage inside one file at a time"),
    "C19": ("exhaustive enumeration of environment answers (every open, read and directory operation failing, short or interrupted, up to two deviations) on the real code with libc interposed", "complete over the scenarios and error codes; stat and close do not fail"),
    "C20": ("exhaustive exploration of operation histories (parse, failed parse, change a result, rewrite a file, change directory) on the real code against fresh-process results; all pairs of mutable parts of results checked for sharing", "every history to 4 (5) operations over two directories; sharing over the documents of the other checks"),
    "C21": ("stateless model checking of the real code: all schedules of two (three) threads up to a preemption bound under a cooperative scheduler", "bound 1 at byte code and line grain, bound 2 at call grain (thorough: bound 2 at line grain, three threads); C code is atomic"),
    "C22": (REF, "every pair (triple) of attribute deviations of a map, presence lattice"),
    "C23": (REF + ", in every configuration of a child interpreter", "every locale and stream configuration available here x text class x position"),
    "C24": (REF, "every combination of old and new shape over the places of a document that have one"),
    "C25": ("exhaustive enumeration of syntactic rewrites (single, pairs, combinations) of every file of a family of documents; the result of the real code must not change", "complete over the rewrite operators, places and documents"),
    "C26": (REF + " (the outcome is the refusal)", "every position x every unsupported feature x both formats"),
    "C27": ("exhaustive enumeration of conditions of the process (one child interpreter each), in each of which bounded document spaces are explored on the real code against the reference model and against a plain interpreter", "every condition of the list x every document of the smaller levels of the other checks"),
    "C28": ("exhaustive bounded enumeration of document states; the results of the real code are compared, copied, pickled and outlive their files; all single-value changes of results", "every document of the smaller levels of the other checks; every single value of 39 scenarios"),
    "C29": ("exhaustive bounded enumeration of document states and histories of repeated parses on the real code, with the whole observable state of the process compared before and after every step", "every setting Python offers to read; every document of the smaller levels; histories of 160 (1600) parses"),
    "C30": ("exhaustive bounded enumeration of file contents (token sequences, edits of every place, references, nesting) run on the real code, which must end as documented; deterministic counts of work (interpreter steps, instructions) compared over sizes n, 2n, 4n of every dimension", "all sequences of 3 (4) of 25 tokens; every place x edit; 33 dimensions x 2 formats"),
}


def manifest(props):

    checks = []
    for p in props:
        i = p["id"]
        tech, note = T[i]
        checks.append(dict(
            property=i,
            quick_cmd="VERIF_TIER=quick %s %s" % (PY, i),
            thorough_cmd="VERIF_TIER=thorough %s %s" % (PY, i),
            technique=tech,
            level="fault_enumeration" if i in ("C18", "C19") else "model_checking",
            level_note=note + ". Trusts the reference model or oracle in /verif/mc, written from Tiled's format documentation, and CPython.",
        ))
    return dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import pytiled_parser, mc.core, mc.model\"",
        checks=checks,
        not_applicable=[],
        notes="Every check enumerates its states exhaustively within the stated bounds and runs the code of /repo's working tree on each; no sampling, no hooks in /repo.",
    )
