"""L03: adding a version never changes or loses anything of the versions that are there."""
from mc import life, oracle

PROPERTY = "L03"
LEVEL = "model_checking"
RULE = ("Breadth first search over operation sequences on objects written by the library and on objects written independently; an "
        "execution is one transition on which every file below the earlier version directories, and the logical state, content "
        "mapping and metadata of every earlier version, are compared with before")
ASSUMPTIONS = ["Single writer (see C04 for concurrent writers)", "Operations and values outside the alphabet are not covered"]
INITS = [
    ["build", [2, 1], [0, 1], {}],
    ["build", [1, 4, 5], [3, 0, 2], {"digest": "sha256", "fixity": ["md5"]}],
    ["build", [3, 2], [0, 0], {"cd": "data", "dd": 0, "fd": 0, "norm": None, "spec": "1.0"}],
    ["given", {"states": [2, 1, 0], "pad": 3, "store": "all"}],
    ["given", {"states": [4, 3], "case": "upper", "extras": ["logs", "extensions", "unregistered", "vdir"], "sidecar": "tab"}],
    ["given", {"states": [0, 1, 2], "alg": ["sha256", "sha512", "sha512"], "omit": [1], "spec": ["1.0", "1.1", "1.1"], "meta": "none"}],
    ["given", {"states": [0, 2, 5], "store": "dup", "fixity": ["md5", "sha1"], "cd": "c", "meta": "name", "alg": "sha256"}],
    ["given", {"states": [0, 1, 2, 3, 4, 0, 1, 2, 3], "store": "delta"}],
    ["given", {"states": [1, 2], "pad": 2, "case": "mixed"}],
]
OPS = [
    ["update", 0, 0, {}], ["update", 4, 2, {}], ["update", 5, 3, {}], ["update", 1, 1, {"norm": None}],
    ["update", 2, 0, {"fd": 0, "dd": 0}], ["update", 2, 0, {"digest": "sha256"}], ["update", 1, 0, {"digest": "sha512"}],
    ["update", 1, 0, {"fixity": ["md5", "sha256"]}], ["meta", 1, {}], ["meta", 2, {"digest": "sha256"}],
    ["edit", 1, 0, [["add", "x", "new/x"], ["del", "first"]], {}],
    ["edit", 1, 1, [["ren", "last", "zz/renamed"], ["add", "y", "copy1"], ["add", "y", "copy2"], ["del", "copy1"]], {"fd": 0, "dd": 0}],
    ["edit", 1, 1, [["del", "first"], ["del", "first"], ["del", "first"]], {}],
    ["edit", 0, 2, [["add", "x", "only"], ["add", "big", "twice"], ["del", "only"]], {"digest": "sha256"}],
]
BOUNDS = {
    "quick": "%d initial objects x all sequences of up to 2 of %d operations" % (len(INITS), len(OPS)),
    "thorough": "%d initial objects x all sequences of up to 3 of %d operations" % (len(INITS), len(OPS)),
}


def cases(tier):
    return [[init, n, 2 if tier == "quick" else 3] for init in INITS for n in range(len(OPS))]


def vdirs(tree):
    return oracle.version_sequence(list(oracle.load(tree["inventory.json"])["versions"]))


def norm_state(inv, v):
    return {p: {c for c in inv["manifest"][d]} for d, ps in inv["versions"][v]["state"].items() for p in ps}


def run(case, world, out):
    init, first, depth = case

    def on_state(be, tree, model, history):
        for n, v in enumerate(vdirs(tree), 1):
            got = oracle.read_version(tree, v)
            out.check(got == model.versions[n - 1], "%s" % history, lambda: "content of %s is not what was put in, after %s" % (v, history))
        out.sample = {"history": history, "versions": len(model.versions)}

    def on_transition(tree, model, op, tree2, model2, history):
        if not tree:
            return
        key = "%s" % history
        out.done(op[0])
        old, new = vdirs(tree), vdirs(tree2)
        out.check(len(new) == len(old) + 1 and new[:-1] == old, key, lambda: "versions %s became %s after %s" % (old, new, history))
        inv1, inv2 = oracle.load(tree["inventory.json"]), oracle.load(tree2["inventory.json"])
        head = new[-1]
        may_change = {"inventory.json", "inventory.json." + inv1["digestAlgorithm"], "inventory.json." + inv2["digestAlgorithm"]}
        for p in sorted(set(tree) | set(tree2)):
            if p in may_change or p == head or p.startswith(head + "/"):
                continue
            out.check(p in tree and p in tree2 and tree[p] == tree2[p], key,
                      lambda: "%s was %s, %s after %s" % (p, "removed" if p not in tree2 else "added" if p not in tree else "changed", p, history))
        for v in old:
            b1, b2 = inv1["versions"][v], inv2["versions"].get(v, {})
            for k in ("created", "message", "user"):
                out.check(b1.get(k) == b2.get(k), key, lambda: "%s of %s changed from %r to %r after %s" % (k, v, b1.get(k), b2.get(k), history))
            s1, s2 = norm_state(inv1, v), norm_state(inv2, v)
            out.check(s1.keys() == s2.keys(), key, lambda: "logical paths of %s changed after %s" % (v, history))
            for p in s1:
                out.check(s1[p] <= s2.get(p, set()), key, lambda: "content of %s in %s changed from %s to %s" % (p, v, s1[p], s2.get(p)))
        for k in ("id", "contentDirectory"):
            out.check(inv1.get(k) == inv2.get(k), key, lambda: "%s changed after %s" % (k, history))
    life.explore(init, OPS, depth, out, on_state, on_transition, first=OPS[first])
