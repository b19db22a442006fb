"""C01: an update stopped at any point loses nothing and is never mistaken for a complete one."""
from mc import life, mcfs, oracle, writer
from mc.lib import A, B, C, STATES, Memory, diff, files_only, make_object, read_tree, under, validate

PROPERTY = "C01"
LEVEL = "fault_enumeration"
RULE = ("Every prefix of the primitive filesystem effects of an update, and every write cut at several lengths, is a crash state; each is "
        "examined for intact earlier versions, verdict, extraction, clean up and a second update; a case is non-trivial if its crash "
        "state is distinct from others")
ASSUMPTIONS = ["Effects that happened before the crash are durable, in order (a process crash, not loss of unsynced data)",
               "A torn write leaves a prefix of its data"]
INITS = [
    ["build", [2], [0], {}],
    ["build", [2, 4], [0, 1], {"digest": "sha256", "fixity": ["md5"]}],
    ["given", {"states": [2, 1, 3], "pad": 3, "store": "dup"}],
    ["given", {"states": [4, 2], "alg": ["sha256", "sha512"], "omit": [1], "extras": ["logs", "extensions"]}],
    ["given", {"states": [2, 1], "case": "upper", "spec": ["1.0", "1.0"], "fixity": ["md5"]}],
]
OPS = [
    ["update", 1, 0, {}], ["update", 4, 1, {"fd": 0, "dd": 0, "norm": None}], ["update", 2, 0, {"digest": "sha256"}],
    ["update", 3, 0, {"digest": "sha512", "fixity": ["sha1"]}], ["update", 5, 0, {}], ["meta", 2, {}], ["meta", 2, {"digest": "sha256"}],
    ["edit", 1, 0, [["add", "big", "n1"], ["add", "x", "n2"], ["del", "first"]], {}],
    ["edit", 0, 3, [["add", "y", "n1"]], {"digest": "sha512", "fixity": ["md5"]}],
    ["edit", 1, 3, [["ren", "last", "zzz"]], {}],
]
BOUNDS = {
    "quick": "%d objects x %d updates x every crash point x writes torn at 1 byte, half, all but 1 byte" % (len(INITS), len(OPS)),
    "thorough": "the same with writes torn at every 16th byte, and a crash at every point of the second update",
}


def cases(tier):
    return [[i, o, tier] for i in INITS for o in OPS]


def setup(init):
    be = Memory()
    life.put_sources(be)
    if init[0] == "given":
        tree, model = life.given(init[1])
        be.put("obj", tree)
    else:
        life.do_real(be, init, life.Model())
        model = life.do_model(init, life.Model())
        for p in [p for p in mcfs.STORE.nodes if p.startswith("bsrc")]:
            del mcfs.STORE.nodes[p]
    return be, model


def version_of(tree, inv, v):
    """State of version v by inventory inv, None where the stored file is missing."""
    return {p: tree.get(inv["manifest"][d][0]) for d, ps in inv["versions"][v]["state"].items() for p in ps}


def torn_sizes(data, tier):
    if tier == "thorough":
        return sorted(set(list(range(1, len(data), 16)) + [len(data) - 1]) - {0})
    return sorted({1, len(data) // 2, len(data) - 1} - {0, len(data)})


def crash_states(base, log, tier):
    """(label, tree) for each crash point."""
    for n in range(len(log) + 1):
        yield "%d/%d" % (n, len(log)), mcfs.replay(base, log, n)
        if n < len(log) and log[n][0] == "write":
            for t in torn_sizes(log[n][4], tier):
                yield "%d+%dB/%d" % (n, t, len(log)), mcfs.replay(base, log, n, t)


def same(tree, final):
    """True if tree is final, but for a newline at the end of a sidecar of the root inventory.

    A sidecar without it has all that is to be read from it, and the object is then complete.
    """
    return tree.keys() == final.keys() and all(
        d == final[p] or (p.startswith("inventory.json.") and d is not None and d + b"\n" == final[p]) for p, d in tree.items())


def run(case, world, out):
    init, op, tier = case
    be, model = setup(init)
    base = be.everything()
    before = be.get("obj")
    inv1 = oracle.load(before["inventory.json"])
    model2 = life.do_model(op, model)
    mcfs.STORE.log, mcfs.STORE.logging = [], True
    life.do_real(be, op, model)
    mcfs.STORE.logging = False
    log = mcfs.STORE.log
    final = be.get("obj")
    inv2 = oracle.load(final["inventory.json"])
    new = inv2["head"]
    olds = oracle.version_sequence(list(inv1["versions"]))
    roots = {p for p in set(before) | set(final) if p.startswith("inventory.json")}
    seen = set()
    for label, whole in crash_states(base, log, tier):
        tree = {p[4:]: d for p, d in whole.items() if p.startswith("obj/")}
        key = "%s:%s:%s" % (init, op, label)
        c = repr(sorted(tree.items(), key=str))
        out.step()
        if c in seen:
            continue
        seen.add(c)
        out.state(c)
        # Everything but the root inventory, its sidecars and the new version is as before
        for p in set(before) | set(tree):
            if p not in roots and p != new and not p.startswith(new + "/"):
                out.check(tree.get(p, 0) == before.get(p, 0), key, lambda: "%s is %s after a crash at %s" % (p, "changed" if p in tree else "lost", label))
        for p in whole:
            out.check(p.startswith("obj") or whole[p] == base.get(p, 0), key, lambda: "%s outside the object was changed" % p)
        # The verdict is valid only for the object before or after
        mcfs.STORE.reset(whole)
        passed, codes = validate(be, "obj")
        complete = "old" if tree == before else "new" if same(tree, final) else None
        out.done("%s %s" % (complete or "partial", "valid" if passed else "invalid"))
        out.check(passed == (complete is not None) or (complete == "new" and tree != final), key, lambda: "object %s is reported %s after a crash at %s" % (
            complete or "partly updated", "valid" if passed else "invalid", label))
        root = tree.get("inventory.json")
        if root == before["inventory.json"]:
            # Old inventory still in place: nothing of the old object changed, removing the new directory restores it
            rest = {p: d for p, d in tree.items() if p != new and not p.startswith(new + "/")}
            out.check(rest == before, key, lambda: "root inventory is the old one but the object can't be restored, after a crash at %s: %s" % (label, diff(before, rest)))
            readable = olds
            inv = inv1
        elif root == final["inventory.json"]:
            # New inventory in place: everything that it refers to is there, and the sidecar can be written again
            readable = olds + [new]
            inv = inv2
            rest = {p: d for p, d in tree.items() if p not in roots}
            want = {p: d for p, d in final.items() if p not in roots}
            out.check(rest == want, key, lambda: "root inventory is the new one but the new version is not complete, after a crash at %s: %s" % (label, diff(want, rest)))
        else:
            # Root inventory is torn: that of the new version is complete, and all content is in place
            readable = []
            rest = {p: d for p, d in tree.items() if p not in roots}
            want = {p: d for p, d in final.items() if p not in roots}
            out.check(rest == want, key, lambda: "root inventory is torn before the new version is complete, after a crash at %s: %s" % (label, diff(want, rest)))
            try:
                torn_head = oracle.load(root or b"{")
            except ValueError:
                torn_head = None
            out.check(torn_head is None, key, "torn root inventory can be parsed")
        for v in readable:
            n = (olds + [new]).index(v)
            dst = world.path("x")
            m = make_object({}, lax_digests=True).extract(objdir=be.url("obj"), version=v, dstdir=dst)
            got = files_only(read_tree(dst))
            want = (model2.versions)[n]
            out.check(got == want and m.version == v, key, lambda: "extract of %s after a crash at %s: %s" % (v, label, diff(want, got)))
            world.fresh()
        # Trying the update again: refused without change, or done properly
        mcfs.STORE.reset(whole)
        mcfs.STORE.logging, mcfs.STORE.log = True, []
        try:
            life.do_real(be, op, model)
            again = True
        except Exception as e:
            if not (type(e).__module__.startswith("ocfl") or isinstance(e, (OSError, ValueError))):
                raise
            again = False
        tree2 = be.get("obj")
        if again:
            # Digests of the inventory itself are not checked before an update, so it is possible after the new root inventory
            problems = oracle.object_problems(tree2)
            left = [p for p in problems if "sidecar" not in p and "inventory.json." not in p]
            out.check(not left, key, lambda: "update again after a crash at %s gives %s" % (label, problems[:3]))
            last = oracle.load(tree2["inventory.json"])["head"]
            got = oracle.read_version(tree2, last)
            out.done("again done")
            out.check(got == life.do_model(op, model if complete == "old" else model2).versions[-1], key,
                      lambda: "version written again after crash at %s has %s" % (label, sorted(got)))
            for v in olds + ([new] if complete != "old" else []):
                out.check(oracle.read_version(tree2, v) == model2.versions[(olds + [new]).index(v)], key, lambda: "%s damaged by update after crash at %s" % (v, label))
        else:
            out.done("again refused")
            out.check(tree2 == tree, key, lambda: "update refused after crash at %s changed the object: %s" % (label, diff(tree, tree2)))
    out.sample = {"init": init, "op": op, "effects": ["%s %s" % (e[0], e[1]) for e in log][:20]}
