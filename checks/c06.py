"""C06: adding to a storage root is all or nothing, whatever fails, stops, or happens at the same time."""
import errno
import os

from mc import mcfs, oracle, sched, writer
from mc.lib import A, STATES, Memory, diff, jdump, under

from .c01 import crash_states
from .c03 import Fault

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = ("An execution is one add() stopped at one primitive effect (or within a write), or with an error injected at one filesystem operation, or "
        "two add() calls at the same time under one schedule; then the root is listed and validated with the real code and an independent validator")
ASSUMPTIONS = ["Effects before a crash are durable, in order", "Creation of a directory is atomic and fails if it exists",
               "Adders interleave at filesystem operations"]
LAYOUTS = {
    "flat": [{"extension": "0002-flat-direct-storage-layout"}, None, ["one", "two"]],
    "quoted": [{"extension": "nnnn-flat-quoted-storage-layout"}, None, ["info:a/1", "info:a/2"]],
    "hash": [{"extension": "0003-hash-and-id-n-tuple-storage-layout"}, None, ["info:a/1", "info:a/2"]],
    "hash1": [{"extension": "0003-hash-and-id-n-tuple-storage-layout"},
              {"extensionName": "0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 1}, ["id7", "id51"]],
    "tuple": [{"extension": "nnnn-tuple-tree-layout"}, None, ["abcdef", "abcdxx"]],
}
OBJECTS = {
    "small": lambda i: writer.write_object([STATES[0]], identifier=i),
    "two": lambda i: writer.write_object([STATES[2], STATES[1]], identifier=i, omit=[1], alg="sha256"),
    "extras": lambda i: writer.write_object([STATES[4], STATES[2], STATES[3]], identifier=i, extras=["logs", "extensions", "vdir"], fixity=["md5"]),
}
BOUNDS = {
    "quick": "%d layouts x %d objects: every crash point with writes torn at 3 sizes, an EIO at every operation once or from then on; all pairs of adds of "
             "the same and of different objects, with up to 2 and 1 preemptions" % (len(LAYOUTS), len(OBJECTS)),
    "thorough": "the same with writes torn at every 16th byte, and up to 3 preemptions",
}


def cases(tier):
    out = [["crash", l, o, tier] for l in LAYOUTS for o in OBJECTS]
    out += [["fault", l, o, s] for l in LAYOUTS for o in OBJECTS for s in (0, 1)]
    parts = 4 if tier == "quick" else 12
    out += [["pair", l, a, b, same, (same + 1 if tier == "quick" else 3), p, parts] for l in (("quoted", "tuple", "hash1") if tier == "quick" else LAYOUTS)
            for a, b in (("small", "small"), ("small", "two"), ("two", "extras")) for same in (1, 0) for p in range(parts)]
    return out


def root_tree(layout):
    """Root with one object in it, at the path for the second identifier plus "-other"."""
    decl, config, ids = LAYOUTS[layout]
    tree = {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": jdump(dict(decl, description="d")), "readme.txt": b"x"}
    if config:
        tree["extensions/%s/config.json" % decl["extension"]] = jdump(config)
    return tree


def setup(layout, objs):
    """Root with an object added that stays; sources for objs, list of (identifier, kind)."""
    import ocfl
    be = Memory()
    be.put("root", root_tree(layout))
    be.put("src0", OBJECTS["two"]("stays"))
    ocfl.StorageRoot(root=be.url("root")).add(be.url("src0"))
    for n, (i, kind) in enumerate(objs, 1):
        be.put("src%d" % n, OBJECTS[kind](i))
    return be


def content(tree):
    """Logical states of all versions of an object."""
    inv = oracle.load(tree["inventory.json"])
    return {v: oracle.read_version(tree, v) for v in inv["versions"]}


def look(be, out, key, base, objs, where, done=()):
    """Judge the root after something happened to it. done: numbers of the objects whose add() succeeded."""
    import ocfl
    tree = be.everything()
    for p, d in base.items():
        out.check(tree.get(p, 0) == d, key, lambda: "%s was changed or lost with %s" % (p, where))
    S = ocfl.StorageRoot(root=be.url("root"))
    listed = list(S.list_objects())
    stays = [x for x in listed if x[1] == "stays"]
    out.check(len(stays) == 1, key, lambda: "object added before is not listed once with %s: %s" % (where, listed))
    paths = [p for p, _ in listed]
    out.check(len(paths) == len(set(paths)), key, lambda: "object listed twice with %s: %s" % (where, listed))
    valid = ocfl.StorageRoot(root=be.url("root")).validate()
    new = {p for p in tree if p.startswith("root/") and p not in base}
    wants = {}
    for n, (i, kind) in enumerate(objs, 1):
        path = ocfl.StorageRoot(root=be.url("root")).object_path(i)
        wants.setdefault(path, []).append((i, {p: d for p, d in OBJECTS[kind](i).items() if d is not None}, n))
    for p in new:
        rel = p[5:]
        out.check(any(rel == q or rel.startswith(q + "/") or q.startswith(rel + "/") for q in wants), key, lambda: "%s written outside of the object's path with %s" % (p, where))
    for path, options in wants.items():
        got = under(tree, "root/" + path)
        files = {p: d for p, d in got.items() if d is not None}
        for i, want, n in options:
            if n in done:
                out.check(files == want, key, lambda: "add succeeded but object differs with %s: %s" % (where, diff(want, files)))
                out.check((path, i) in listed, key, lambda: "add succeeded but the object is not listed with %s" % where)
        if valid and got:
            problems = oracle.object_problems(got)
            out.check(not problems, key, lambda: "root is reported valid with %s but object has %s" % (where, problems[:3]))
            if not problems:
                out.check(any(content(files) == content(want) for _, want, _ in options), key, lambda: "object in valid root has other content with %s" % where)
    if len(done) == len(objs):
        out.check(valid, key, lambda: "root is not valid after all objects were added with %s" % where)
    return valid, listed


def run(case, world, out):
    import ocfl
    mode, layout = case[:2]
    ids = LAYOUTS[layout][2]
    if mode == "pair":
        return pair(case, out)
    objs = [(ids[0], case[2])]
    be = setup(layout, objs)
    base = be.everything()
    f = lambda: ocfl.StorageRoot(root=be.url("root")).add(be.url("src1"))  # noqa: E731
    if mode == "crash":
        mcfs.STORE.log, mcfs.STORE.logging = [], True
        f()
        mcfs.STORE.logging = False
        log = mcfs.STORE.log
        for label, whole in crash_states(base, log, case[3]):
            key = "%s:%s" % (case[:3], label)
            mcfs.STORE.reset(whole)
            out.step()
            out.state(sorted(whole.items(), key=str))
            n = int(label.split("/")[0].split("+")[0])
            valid, listed = look(be, out, key, base, objs, "a crash at %s" % label, [1] if n == len(log) else [])
            out.done("crash %s" % ("valid" if valid else "invalid"))
            # Adding again is refused, or done properly
            try:
                f()
                look(be, out, key, base, objs, "add again after a crash at %s" % label, [1])
                out.done("add again done")
            except ocfl.StorageRootException:
                out.check(be.everything() == whole, key, lambda: "add was refused but changed something after a crash at %s" % label)
                out.done("add again refused")
        out.sample = {"layout": layout, "effects": len(log)}
        return
    count = Fault()
    mcfs.STORE.hook = count
    f()
    mcfs.STORE.hook = None
    for k in range(count.n):
        mcfs.STORE.reset(base)
        fault = Fault([k], errno.EIO, bool(case[3]))
        mcfs.STORE.hook = fault
        done, e = [], None
        try:
            f()
            done = [1]
        except (ocfl.StorageRootException, OSError) as exc:
            e = exc
        finally:
            mcfs.STORE.hook = None
        key = "%s:%d" % (case, k)
        out.step()
        out.state(sorted(be.everything().items(), key=str))
        out.done("fault %s" % ("done" if done else type(e).__name__))
        look(be, out, key, base, objs, "an error at %d (%s)" % (k, fault.where), done)
    out.sample = {"layout": layout, "points": count.n}


def pair(case, out):
    import ocfl
    _, layout, a, b, same, bound, part, parts = case
    ids = LAYOUTS[layout][2]
    objs = [(ids[0], a), (ids[0] if same else ids[1], b)]
    be = setup(layout, objs)
    base = be.everything()

    def make():
        mcfs.STORE.reset(base)
        return [lambda n=n: ocfl.StorageRoot(root=be.url("root")).add(be.url("src%d" % n)) for n in (1, 2)]
    paths = [ocfl.StorageRoot(root=be.url("root")).object_path(i) for i, _ in objs]

    def relevant(kind, path):
        # The operations that can conflict: on the object paths and the directories above them, and on the
        # first level in them; writes deeper in an object that only one adder may have claimed do conflict
        # only if both got in, which a preemption at one of these points brings about
        if not path.startswith("root/"):
            return False
        rel = path[5:]
        return any(q == rel or q.startswith(rel + "/") for q in paths) or any(rel.startswith(q + "/") for q in paths) and kind in ("open-w", "mkdir")

    def on_execution(x, schedule):
        key = "%s:%s" % (case[:5], schedule)
        status = [r[0] for r in x.results]
        out.step(x.steps)
        out.done("%s %s" % ("same" if same else "different", "+".join(sorted(status))))
        out.check(not x.failure, key, lambda: "execution failed: %s" % x.failure)
        for s, e in x.results:
            if s == "error":
                out.check(isinstance(e, (ocfl.StorageRootException, OSError)), key, lambda: "add ended with %s: %s" % (type(e).__name__, e))
        done = [n for n in (1, 2) if status[n - 1] == "ok"]
        if same:
            out.check(len(done) <= 1, key, lambda: "both adders report success with schedule %s" % (schedule,))
        else:
            out.check(len(done) == 2, key, lambda: "adding different objects ended with %s with schedule %s" % (x.results, schedule))
        out.state(sorted(be.everything().items(), key=str))
        look(be, out, key, base, objs, "schedule %s" % (schedule,), done)
        if same and done:
            tree = {p: d for p, d in under(be.everything(), "root/" + paths[0]).items() if d is not None}
            i, kind = objs[done[0] - 1]
            out.check(tree == {p: d for p, d in OBJECTS[kind](i).items() if d is not None}, key, lambda: "object is not that of the adder that succeeded")
    n = sched.explore(make, relevant, bound, on_execution, part=part, parts=parts)
    out.sample = {"layout": layout, "same": same, "schedules": n}
