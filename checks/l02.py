"""L02: whatever has been written by the library is a valid OCFL object."""
from mc import life, oracle
from mc.lib import validate

PROPERTY = "L02"
LEVEL = "model_checking"
RULE = ("Breadth first search over operation sequences; a state is a distinct (object tree, model); in every state the object is "
        "judged by the library's own validator and by an independent validator written from the specification")
ASSUMPTIONS = ["The independent validator (mc/oracle.py) implements the OCFL 1.0 and 1.1 rules",
               "Operations and values outside the alphabet are not covered"]
INITS = [
    ["create", 2, 0, {}], ["create", 4, 1, {"norm": None}], ["create", 5, 2, {}],
    ["create", 1, 3, {"digest": "sha256", "spec": "1.0"}], ["create", 3, 0, {"cd": "D\u00e9 Data", "fixity": ["md5"]}],
    ["create", 2, 0, {"norm": "md5", "dd": 0, "fd": 0}], ["create", 2, 1, {"fixity": ["sha1", "md5", "blake2b-512"], "dd": 0}],
    ["build", [0, 1], [0, 1], {}], ["build", [5, 2, 4], [3, 2, 1], {"digest": "sha256", "cd": "d", "fixity": ["sha512"], "spec": "1.0"}],
    ["build", [2, 2, 1], [0, 0, 0], {"fd": 0, "dd": 0, "norm": None, "fixity": ["blake2b-160", "blake2b-256", "blake2b-384"]}],
]
OPS = [
    ["update", 0, 0, {}], ["update", 1, 1, {}], ["update", 4, 2, {}], ["update", 5, 3, {}], ["update", 3, 0, {"norm": None}],
    ["update", 2, 0, {"fd": 0, "dd": 0}], ["update", 2, 0, {"digest": "sha256"}], ["update", 1, 0, {"digest": "sha512"}],
    ["update", 1, 0, {"fixity": ["md5", "sha256"]}], ["meta", 1, {}], ["meta", 0, {"digest": "sha256"}], ["meta", 0, {"fixity": ["sha1"]}],
    ["edit", 1, 0, [["add", "x", "new/x"], ["del", "first"]], {}],
    ["edit", 1, 1, [["ren", "last", "zz/renamed"], ["add", "y", "first"], ["add", "y", "copy1"], ["add", "y", "copy2"]], {}],
    ["edit", 0, 2, [["add", "x", "only"], ["add", "x", "twice"], ["del", "only"]], {"digest": "sha256"}],
    ["edit", 0, 3, [], {}],
    ["edit", 1, 3, [["add", "sub/z", "s"], ["del", "s"], ["add", "e", "s"]], {"fixity": ["md5"]}],
]
BOUNDS = {
    "quick": "%d initial objects x all sequences of up to 2 of %d operations" % (len(INITS), len(OPS)),
    "thorough": "%d initial objects x all sequences of up to 3 of %d operations, 4 for the first operation of each kind" % (len(INITS), len(OPS)),
}


def cases(tier):
    out = []
    for init in INITS:
        for n in range(len(OPS)):
            out.append([init, [n], 1 if tier == "quick" else 2])
    if tier == "thorough":
        for init in INITS[:4]:
            out.append([init, [0, 2, 6, 9, 12, 15], 4])
    return out


def run(case, world, out):
    init, first, more = case
    def on_state(be, tree, model, history):
        key = "%s" % history
        passed, codes = validate(be, "obj")
        problems = oracle.object_problems(tree)
        out.done("valid" if passed else "invalid")
        out.check(passed, key, lambda: "own validator says %s after %s" % (codes, history))
        out.check(not problems, key, lambda: "%s after %s" % (problems[:5], history))
        head = "v%d" % len(model.versions)
        out.check(head + "/inventory.json" in tree and tree[head + "/inventory.json"] == tree.get("inventory.json"), key,
                  lambda: "no copy of the root inventory in %s after %s" % (head, history))
        out.sample = {"history": history, "files": sorted(tree)[:10]}
    if more == 4:
        life.explore(init, [OPS[n] for n in first], 4, out, on_state)
    else:
        life.explore(init, OPS, 1 + more, out, on_state, first=OPS[first[0]])
