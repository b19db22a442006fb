"""C02: creation of an object stopped at any point is never mistaken for a complete object."""
from mc import life, mcfs, oracle
from mc.lib import A, EMPTY, STATES, Memory, diff, files_only, make_object, meta, options, read_tree, validate

from .c01 import crash_states, same

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("Every prefix of the primitive filesystem effects of create() and build(), and every write cut at several lengths, is a crash "
        "state; its verdict, what can be extracted from it and a second attempt at creation are examined")
ASSUMPTIONS = ["Effects that happened before the crash are durable, in order (a process crash, not loss of unsynced data)",
               "A torn write leaves a prefix of its data"]
INITS = ([["create", [s]] for s in range(6)] + [["build", [s]] for s in range(6)] +
         [["build", [2, 1]], ["build", [0, 2, 4]], ["build", [1, 5, 3]], ["build", [4, 4]], ["build", [5, 5]]])
OPTS = list(options(digest=["sha512", "sha256"], norm=["uri", None], fd=[1, 0], dd=[1, 0], fixity=[None, ["md5"]], cd=["content", "data"]))
BOUNDS = {
    "quick": "%d sources x %d option combinations x every crash point x writes torn at 3 sizes" % (len(INITS), 8),
    "thorough": "%d sources x %d option combinations x every crash point x writes torn at every 16th byte" % (len(INITS), len(OPTS)),
}


def cases(tier):
    opts = OPTS if tier == "thorough" else [OPTS[i] for i in (0, 3, 13, 22, 31, 36, 49, 63)]
    return [[m, s, o, tier] for m, s in INITS for o in opts]


def run(case, world, out):
    method, s, opts, tier = case
    be = Memory()
    be.put("src", STATES[s[0]])
    for n, j in enumerate(s, 1):
        be.put("bsrc/v%d" % n, STATES[j])
    base = be.everything()

    def attempt():
        if method == "create":
            return make_object(opts).create(srcdir=be.url("src"), metadata=meta(1), objdir=be.url("obj"))
        return make_object(opts).build(srcdir=be.url("bsrc"), versions_metadata={n: meta(n) for n in range(1, 4)}, objdir=be.url("obj"))
    mcfs.STORE.log, mcfs.STORE.logging = [], True
    attempt()
    mcfs.STORE.logging = False
    log = mcfs.STORE.log
    final = be.get("obj")
    seen = set()
    for label, whole in crash_states(base, log, tier):
        tree = {p[4:]: d for p, d in whole.items() if p.startswith("obj/")}
        key = "%s:%s" % (case[:3], label)
        out.step()
        c = repr(sorted(tree.items(), key=str)) + str("obj" in whole)
        if c in seen:
            continue
        seen.add(c)
        out.state(c)
        out.check(all(whole[p] == d for p, d in base.items()), key, "source changed")
        mcfs.STORE.reset(whole)
        passed, codes = validate(be, "obj")
        out.done("%s %s" % ("complete" if same(tree, final) else "partial", "valid" if passed else "invalid"))
        out.check(passed if tree == final else not passed or same(tree, final), key, lambda: "%s object is reported %s after a crash at %s" % (
            "complete" if same(tree, final) else "partial", "valid" if passed else "invalid", label))
        # The root inventory is written after everything that it refers to
        if tree.get("inventory.json") == final["inventory.json"]:
            rest = {p: d for p, d in tree.items() if not p.startswith("inventory.json")}
            want = {p: d for p, d in final.items() if not p.startswith("inventory.json")}
            out.check(rest == want, key, lambda: "root inventory is complete before what it refers to, after a crash at %s: %s" % (label, diff(want, rest)))
            for n, j in enumerate(s, 1):
                make_object({}).extract(objdir=be.url("obj"), version="v%d" % n, dstdir=world.path("x"))
                out.check(files_only(read_tree(world.path("x"))) == STATES[j], key, lambda: "extract of v%d after crash at %s" % (n, label))
                world.fresh()
        elif tree:
            try:
                make_object({}).extract(objdir=be.url("obj"), version="head", dstdir=world.path("x"))
                out.violation(key, "extract from a partial object was done after crash at %s" % label)
            except Exception as e:
                if not (type(e).__module__.startswith("ocfl") or isinstance(e, (OSError, ValueError))):
                    raise
            world.fresh()
        # A second attempt is refused unless nothing was written
        mcfs.STORE.reset(whole)
        try:
            attempt()
            again = True
        except Exception as e:
            if not type(e).__module__.startswith("ocfl"):
                raise
            again = False
        out.check(again == (not tree), key, lambda: "second attempt after a crash at %s was %s" % (label, "done" if again else "refused"))
        tree2 = be.get("obj")
        out.check(tree2 == (final if again else tree), key, lambda: "second attempt after a crash at %s: %s" % (label, diff(final if again else tree, tree2)))
    out.sample = {"case": case[:3], "effects": ["%s %s" % (e[0], e[1]) for e in log][:20]}
