"""L11: the order in which a filesystem lists directories changes nothing."""
import itertools

from mc import life, mcfs, oracle, writer
from mc.lib import A, B, C, DEFAULTS, EMPTY, STATES, Memory, files_only, make_object, meta, read_tree, validate

PROPERTY = "L11"
LEVEL = "model_checking"
RULE = ("An execution is one scenario run with one listing order: all orders of the first names of each directory applied everywhere, and "
        "every single directory listing made in the scenario reversed on its own; its results have to be the same as those of the default "
        "order; a transition is one directory listing that was reordered")
ASSUMPTIONS = ["Orders of more than 5 names that differ only after the first 5 behave as those enumerated"]
SRC = {"d": A, "a": A, "c": B, "b": A, "B": EMPTY, "d2/x": A, "d2/a": C, "d2/e/f": EMPTY, "%61": B, "d2/b": EMPTY, "A b": C}
SRC2 = {"z": A, "a": C, "y/d": B, "y/c": B, "y/b": b"new", "y/a": b"new", "b": b"new"}


def bad_objects():
    t = writer.write_object([STATES[2], SRC, SRC2])
    out = {"good": t, "written": None}
    out["extra"] = dict(t, **{"x1": b"", "x2": b"", "v1/e1": b"", "v2/content/e2": b"1", "v2/content/e3": b"2", "v9": None, "dir": None})
    out["missing"] = {p: d for p, d in t.items() if not p.endswith("/content/d2/a") and not p.endswith("content/y/b") and p != "v1/inventory.json"}
    out["swapped"] = dict(t)
    c = [p for p in sorted(t) if "/content/" in p]
    out["swapped"][c[0]], out["swapped"][c[-1]] = t[c[-1]], t[c[0]]
    out["declarations"] = dict(t, **{"0=ocfl_object_1.0": b"ocfl_object_1.0\n", "0=other": b"x"})
    out["extensions"] = dict(t, **{"extensions/0001-digest-algorithms": None, "extensions/b": None, "extensions/f": b"", "logs/x": b""})
    out["first-changed"] = dict(t, **{"v1/inventory.json": t["v1/inventory.json"].replace(b"a", b"b", 3)})
    del out["written"]
    return out


SCENARIOS = ([["create", dict(norm=n, fd=f, dd=d, fixity=x)] for n in ("uri", None, "md5") for f, d in ((1, 1), (0, 0), (1, 0)) for x in (None, ["sha1", "md5"])]
             + [["build", dict(norm=n, fd=f, dd=d, fixity=x)] for n in ("uri", None) for f, d in ((1, 1), (0, 0), (0, 1)) for x in (None, ["sha1", "md5"])]
             + [["update", dict(digest=g, fd=f, dd=d, fixity=x)] for g in ("sha512", "sha256") for f, d in ((1, 1), (0, 0)) for x in (None, ["sha1", "md5"])]
             + [["validate", n] for n in bad_objects()] + [["root", n] for n in ("good", "bad")] + [["add", "flat"], ["add", "tuple"]])
BOUNDS = {
    "quick": "%d scenarios x {24 global orders of listings, each single listing reversed}" % len(SCENARIOS),
    "thorough": "%d scenarios x {120 global orders of listings, each single listing reversed, rotated or with first two swapped, each pair reversed}" % len(SCENARIOS),
}


def cases(tier):
    return [[s, p, None, tier] for s in SCENARIOS for p in range(5 if tier == "quick" else 5)]


def scenario(s, world):
    """Run a scenario, return a value that must not depend on listing order."""
    import ocfl
    kind, arg = s
    be = Memory
    b = life.Memory.__new__(life.Memory)
    if kind in ("create", "build", "update"):
        o = dict(DEFAULTS, **arg)
        if kind == "create":
            inv = make_object(o).create(srcdir="mcfs://src", metadata=meta(1), objdir="mcfs://obj")
        elif kind == "build":
            inv = make_object(o).build(srcdir="mcfs://bsrc", versions_metadata={n: meta(n) for n in (1, 2, 3)}, objdir="mcfs://obj")
        else:
            inv = make_object(o).add_version_with_content(objdir="mcfs://old", srcdir="mcfs://src2", metadata=meta(9))
        return sorted(mcfs.STORE.tree().items(), key=str), inv.as_json()
    if kind == "validate":
        res = []
        for kw in ({}, {"check_digests": False}):
            passed, v = ocfl.Object().validate(objdir="mcfs://bad", **kw)
            res.append((passed, sorted(v.log.codes), v.log.num_errors, v.log.num_warnings))
        if arg in ("good", "extensions"):
            world.fresh()
            ocfl.Object().extract(objdir="mcfs://bad", version="v2", dstdir=world.path("out"))
            res.append(sorted(files_only(read_tree(world.path("out"))).items()))
        return res
    root = ocfl.StorageRoot(root="mcfs://root")
    if kind == "root":
        listed = sorted(root.list_objects())
        ok = root.validate()
        return listed, ok, root.num_objects, root.good_objects, sorted(root.log.codes), root.log.num_errors, sorted(p for p, _ in root.errors)
    res = root.add("mcfs://old")
    return res, sorted(mcfs.STORE.tree().items(), key=str)


def setup(s):
    mcfs.STORE.reset()
    load = mcfs.STORE.load

    def put(rel, tree):
        load({rel: None})
        load({rel + "/" + p: d for p, d in tree.items()})
    put("src", SRC)
    put("src2", SRC2)
    for v, t in (("v1", STATES[2]), ("v3", SRC2), ("v2", SRC)):
        put("bsrc/" + v, t)
    put("old", writer.write_object([STATES[2], SRC], store="dup"))
    kind, arg = s
    if kind == "validate":
        put("bad", bad_objects()[arg])
    if kind in ("root", "add"):
        put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        for p, i in (("b/one", "one"), ("a/two", "two"), ("a/three", "three"), ("z", "z"), ("c/d/e/f", "f")):
            put("root/" + p, writer.write_object([STATES[0]], identifier=i))
        if kind == "root" and arg == "bad":
            put("root", {"a/empty": None, "x/file": b"", "n": None, "extensions/foo": None, "extensions/f": b""})
            put("root/a/bad", bad_objects()["extra"])
            put("root/c/other", dict(bad_objects()["declarations"]))
        if kind == "add":
            from mc.lib import jdump
            put("root", {"ocfl_layout.json": jdump({"extension": "0002-flat-direct-storage-layout" if arg == "flat" else "0003-hash-and-id-n-tuple-storage-layout",
                                                    "description": "d"})})
            put("old", writer.write_object([STATES[2], SRC], identifier="newid"))


def run(case, world, out):
    s, part, _, tier = case
    key = "%s" % (s,)
    # Default order, counting the listings
    setup(s)
    count = [0]

    def counting(names):
        count[0] += 1
        return names
    mcfs.STORE.list_order = counting
    want = scenario(s, world)
    n = count[0]

    def attempt(label, order):
        setup(s)
        mcfs.STORE.list_order = order
        try:
            got = scenario(s, world)
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, e)
        out.done(s[0])
        out.check(got == want, key + ":" + label, lambda: "result depends on the listing order (%s): %s" % (label, first_difference(want, got)))
    # Global orders
    width = 4 if tier == "quick" else 5
    perms = list(itertools.permutations(range(width)))
    for perm in perms[part::5]:
        def order(names, perm=perm):
            out.step()
            names = list(reversed(names)) if perm[0] > perm[-1] else list(names)
            head = names[:width]
            return [head[i] for i in perm if i < len(head)] + names[width:]
        attempt("global %s" % (perm,), order)

    def single(ks, how):
        seen = [0]

        def order(names):
            k = seen[0]
            seen[0] += 1
            if k in ks:
                out.step()
                return {"reverse": names[::-1], "rotate": names[1:] + names[:1], "swap": names[1:2] + names[:1] + names[2:]}[how]
            return names
        return order
    hows = ("reverse",) if tier == "quick" else ("reverse", "rotate", "swap")
    for k in range(part, n, 5):
        for how in hows:
            attempt("%s listing %d" % (how, k), single({k}, how))
        if tier == "thorough" and n < 80:
            for k2 in range(k + 1, n):
                attempt("reverse listings %d %d" % (k, k2), single({k, k2}, "reverse"))
    out.state((key, part))
    out.state(repr(want))
    out.sample = {"scenario": s, "listings": n}


def first_difference(a, b):
    a, b = repr(a), repr(b)
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return "%s / %s" % (a[max(0, i - 100):i + 200], b[max(0, i - 100):i + 200])
    return a[:200] + " / " + b[:200]
