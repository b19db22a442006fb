"""L08: a dry run predicts what is written, writes nothing, and updates without difference can be refused."""
import copy
import itertools

from mc import mcfs, oracle, writer
from mc.lib import DEFAULTS, STATES, Memory, diff, make_object, meta, options, seqs, write_history

PROPERTY = "L08"
LEVEL = "model_checking"
RULE = ("An execution is one create() or build() done without and with objdir whose inventories and effects are compared, or one update "
        "with abort_if_no_difference compared with the same update without it and with equality of the states; a state is a distinct tree")
ASSUMPTIONS = ["Metadata includes a creation time", "Source states outside the alphabet are not covered"]
BOUNDS = {
    "quick": "create() of 6 states and build() of all sequences of 1..2 states x 48 option combinations, and 3 states with default "
             "options; updates from every ordered pair of states plus 3 variations x 24 option combinations, on v1 and v2 objects; updates of objects of 2 to 101 versions with the state of each of 7 versions",
    "thorough": "the same with build() of all sequences of 1..3 states, and updates after all histories of 1..3 states",
}
# Pairs that differ in little: order only, one name, swapped content
MORE = [{"b": b"a\n", "d/d/c": b"a\n", "a": b"a\n"}, {"a": b"a\n", "b": b"a\n", "d/d/C": b"a\n"}, {"a": b"a\n", "d/b": b"bb\n"}]
ALL = STATES + MORE


def cases(tier):
    out = []
    full = list(options(norm=["uri", "md5", None], fd=[1, 0], dd=[1, 0], cd=["content", "data"], fixity=[None, ["md5"]]))
    for opts in full:
        for s in seqs(len(STATES), 1, 2 if tier == "quick" else 3):
            out.append(["dry", opts, s])
    if tier == "quick":
        for s in seqs(len(STATES), 3, 3):
            out.append(["dry", DEFAULTS, s])
    for opts in options(norm=["uri", None], fd=[1, 0], dd=[1, 0], digest=["sha512", "sha256"], fixity=[None, ["md5"], []]):
        for s in seqs(len(ALL), 1, 1 if tier == "quick" else 2):
            out.append(["abort", opts, s])
    for s in seqs(len(ALL), 2, 2 if tier == "quick" else 3):
        out.append(["abort", DEFAULTS, s])
    for n in (2, 3, 9, 10, 11, 12, 20, 99, 100, 101):
        for pad in (0, 4):
            out.append(["long", n, pad])
    return out


def run_long(case, world, out):
    """Objects of many versions: only the last one counts."""
    _, n, pad = case
    be = Memory()
    states = [{"f": b"%d" % i, "same": b"s"} for i in range(1, n + 1)]
    tree = writer.write_object(states, pad=pad)
    for i in sorted({1, 2, 3, n // 10, n // 2, n - 2, n - 1, n, n + 1} - {0, -1}):
        mcfs.STORE.reset()
        be.put("obj", tree)
        be.put("src", {"f": b"%d" % i, "same": b"s"})
        before = be.everything()
        key = "long:%d:%d:%d" % (n, pad, i)
        got = make_object(DEFAULTS).add_version_with_content(objdir=be.url("obj"), srcdir=be.url("src"), metadata=meta(9), abort_if_no_difference=True)
        out.step()
        out.state(key)
        out.done("same" if i == n else "different")
        if i == n:
            out.check(got is None and be.everything() == before, key, "new version with the state of the last one was written")
        else:
            out.check(got is not None and oracle.read_version(be.get("obj")) == {"f": b"%d" % i, "same": b"s"}, key, "no new version for a state that the last version does not have")


def run(case, world, out):
    if case[0] == "long":
        run_long(case, world, out)
        return
    kind, opts, s = case
    key = "%s" % case
    be = Memory()
    states = [ALL[i] for i in s]
    if kind == "dry":
        for n, tree in enumerate(states, 1):
            be.put("src/v%d" % n, tree)
        metas = {n: meta(n) for n in range(1, len(states) + 1)}
        jobs = [("build", lambda objdir: make_object(opts).build(srcdir=be.url("src"), versions_metadata=metas, objdir=objdir))]
        if len(s) == 1:
            jobs.append(("create", lambda objdir: make_object(opts).create(srcdir=be.url("src/v1"), metadata=meta(1), objdir=objdir)))
        for name, job in jobs:
            before = be.everything()
            mcfs.STORE.log, mcfs.STORE.logging = [], True
            dry = job(None)
            out.check(not mcfs.STORE.log and be.everything() == before, key, lambda: "dry run of %s wrote %s" % (name, mcfs.STORE.log[:3]))
            mcfs.STORE.logging = False
            real = job(be.url("obj-" + name))
            tree = be.get("obj-" + name)
            out.step(2)
            out.done(name)
            written = oracle.load(tree["inventory.json"])
            out.check(dry.data == real.data and dry.data == written, key, lambda: "%s inventory of dry run differs from that written" % name)
            out.check(oracle.load(dry.as_json().encode()) == written, key, "as_json() differs")
            out.check(sorted(dry.content_paths) == sorted(p for p, d in tree.items() if d is not None and p.startswith("v") and
                                                          p.split("/")[1] == opts["cd"]), key, "content paths predicted are not those stored")
            out.state(sorted(tree.items(), key=str))
        out.sample = {"states": s, "files": sorted(tree)[:8]}
        return
    write_history(be, DEFAULTS, states, "create")
    head = states[-1]
    for j, new in list(enumerate(ALL)) + [(-1, None)]:
        if new is not None:
            be.put("new%d" % j, new)
        src = be.url("new%d" % j) if new is not None else None
        base = be.everything()
        mcfs.STORE.log, mcfs.STORE.logging = [], True
        got = make_object(opts).add_version_with_content(objdir=be.url("obj"), srcdir=src, metadata=meta(9), abort_if_no_difference=True)
        mcfs.STORE.logging = False
        log = mcfs.STORE.log
        out.step()
        same = new is None or new == head
        out.done("same" if same else "different")
        if same:
            out.check(got is None, key, lambda: "new version for state %s that is the same as the head" % j)
            out.check(not log and be.everything() == base, key, lambda: "update with no difference wrote %s" % log[:3])
            continue
        after = be.everything()
        if not out.check(got is not None, key, lambda: "no new version for state %s that differs: %s" % (j, diff(head, new))):
            continue
        mcfs.STORE.reset(base)
        plain = make_object(opts).add_version_with_content(objdir=be.url("obj"), srcdir=src, metadata=meta(9))
        out.step()
        out.check(be.everything() == after and plain.data == got.data, key, "abort_if_no_difference changes what is written")
        out.state(sorted(be.get("obj").items(), key=str))
        mcfs.STORE.reset(base)
