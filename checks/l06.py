"""L06: digest algorithm and fixity settings are applied to the whole object, correctly."""
import itertools

from mc import life, oracle
from mc.lib import validate

PROPERTY = "L06"
LEVEL = "model_checking"
RULE = ("Breadth first search over sequences of operations that set or change the digest algorithm and the fixity algorithms; in every "
        "state all manifest, state, fixity and sidecar digests are recalculated independently")
ASSUMPTIONS = ["hashlib of the Python standard library computes digests correctly", "Operations outside the alphabet are not covered"]
INITS = [
    ["create", 2, 0, {}], ["create", 4, 0, {"digest": "sha256", "fixity": ["md5"]}],
    ["create", 2, 0, {"digest": "md5", "lax": 1, "dd": 0}], ["create", 1, 0, {"digest": "blake2b-512", "lax": 1, "fixity": ["sha512"]}],
    ["build", [2, 4, 1], [0, 0, 0], {"fixity": ["sha1", "blake2b-256"], "dd": 0, "fd": 0}],
    ["build", [0, 2], [0, 0], {"digest": "sha1", "lax": 1, "fixity": ["md5", "sha1"]}],
    ["given", {"states": [2, 1], "case": "upper", "fixity": ["md5"], "alg": "sha256"}],
    ["given", {"states": [2, 4], "store": "dup", "alg": ["sha256", "sha512"]}],
]
OPS = [
    ["update", 1, 0, {}], ["update", 4, 0, {"digest": "sha256"}], ["update", 2, 0, {"digest": "sha512", "dd": 0, "fd": 0}],
    ["update", 0, 0, {"fixity": []}], ["update", 3, 0, {"fixity": ["md5", "sha1"]}], ["update", 1, 0, {"digest": "sha256", "fixity": ["blake2b-384"]}],
    ["meta", 0, {"digest": "sha256"}], ["meta", 0, {"digest": "sha512", "fixity": ["sha256", "sha512"]}], ["meta", 0, {}],
    ["edit", 1, 0, [["add", "x", "n1"], ["add", "x", "n2"], ["del", "first"], ["add", "big", "b"], ["del", "b"]], {"fixity": ["sha1", "blake2b-160"]}],
    ["edit", 1, 0, [["del", "first"], ["add", "y", "n3"], ["ren", "last", "zz"]], {"digest": "sha512"}],
    ["meta", 0, {"digest": "sha1", "lax": 1}], ["update", 2, 0, {"digest": "blake2b-160", "lax": 1, "fixity": ["md5"]}],
]
UNKNOWN = ["md5", "unknown", "sha1", "other"]
BOUNDS = {
    "quick": "%d initial objects x all sequences of up to 2 of %d operations; 24 orders of fixity algorithms, 2 of them unknown, x 6 operations" % (len(INITS), len(OPS)),
    "thorough": "%d initial objects x all sequences of up to 4 of %d operations" % (len(INITS), len(OPS)),
}


def cases(tier):
    return [[init, n, 2 if tier == "quick" else 4] for init in INITS for n in range(len(OPS))] + [["unknown", list(p), d] for p in itertools.permutations(UNKNOWN) for d in (None, "sha256")]


def run_unknown(case, world, out):
    """Objects with fixity data by algorithms that this library does not know, which it can't extend but must not lose."""
    import json
    from mc.lib import STATES, Memory, jdump, make_object
    from mc import writer
    _, order, digest = case
    tree = writer.write_object([STATES[2]], fixity=[a for a in order if a != "unknown" and a != "other"])
    inv = json.loads(tree["inventory.json"])
    block = next(iter(inv["fixity"].values()))
    given = {"aa%d" % i: sorted(ps) for i, ps in enumerate(block.values())}
    inv["fixity"] = {a: inv["fixity"].get(a, given) for a in order}
    for pre in ("", "v1/"):
        tree[pre + "inventory.json"] = jdump(inv)
        tree[pre + "inventory.json.sha512"] = writer.sidecar_line(tree[pre + "inventory.json"], "sha512", "two")
    for op in ("update", "edit", "meta"):
        be = Memory()
        be.put("obj", tree)
        be.put("src", dict(STATES[4], **{"again": b"again"}))
        key = "unknown:%s:%s:%s" % (order, digest, op)
        obj = make_object({"digest": digest} if digest else {}, lax_digests=True)
        if op == "edit":
            nv = obj.start_new_version(objdir=be.url("obj"), srcdir=be.url("src"), digest_algorithm=digest, metadata=life.vmeta(life.METAS[0]), carry_content_forward=True)
            nv.add("again", "n1")
            nv.add("v1", "n2")
            obj.write_new_version(nv)
        else:
            obj.add_version_with_content(objdir=be.url("obj"), srcdir=be.url("src") if op == "update" else None, metadata=life.vmeta(life.METAS[0]))
        out.step()
        out.done(op)
        out.state(key)
        new = be.get("obj")
        got = oracle.load(new["inventory.json"])
        content = {p: d for p, d in new.items() if d is not None and p.split("/")[1:2] == ["content"]}
        want = set(order) | ({"sha512"} if digest else set())
        out.check(set(got["fixity"]) == want, key, lambda: "fixity has %s, should have %s" % (sorted(got["fixity"]), sorted(want)))
        for a, b in got["fixity"].items():
            if a in ("unknown", "other"):
                out.check({d: sorted(ps) for d, ps in b.items()} == given, key, lambda: "fixity data by %s was changed to %s" % (a, b))
            else:
                listed = {p: d for d, ps in b.items() for p in ps}
                out.check(listed == {p: oracle.digest(a, d) for p, d in content.items()}, key, lambda: "%s fixity data covers %s" % (a, sorted(listed)))
        passed, codes = validate(be, "obj", lax_digests=True)
        out.check(passed, key, lambda: "not valid: %s" % codes)


def expected(history):
    """(digest algorithm, fixity set, partial) expected from the operations, None where not determined."""
    alg, fixity = "sha512", set()
    for op in history:
        o = op[-1]
        old = alg
        if op[0] in ("create", "build"):
            alg = o.get("digest", "sha512")
            fixity = set(o.get("fixity") or [])
        elif op[0] == "given":
            alg = op[1].get("alg", "sha512")
            alg = alg if isinstance(alg, str) else alg[-1]
            fixity = set(op[1].get("fixity", []))
        else:
            alg = o.get("digest", alg)
            if o.get("fixity") is not None:
                fixity = set(o["fixity"])
            elif alg != old:
                fixity = fixity | {old}
    return alg, fixity


def run(case, world, out):
    if case[0] == "unknown":
        return run_unknown(case, world, out)
    init, first, depth = case

    def on_state(be, tree, model, history):
        key = "%s" % history
        alg, fixity = expected(history)
        inv = oracle.load(tree["inventory.json"])
        out.done("%s %s" % (alg, sorted(fixity)))
        out.check(inv["digestAlgorithm"] == alg, key, lambda: "digestAlgorithm is %s, should be %s" % (inv["digestAlgorithm"], alg))
        # Exactly one sidecar at the root, and in each version directory
        for pre, a in [("", alg)] + [(v + "/", None) for v in inv["versions"]]:
            side = sorted(p for p in tree if p.startswith(pre + "inventory.json."))
            if pre + "inventory.json" not in tree:
                continue
            a = a or oracle.load(tree[pre + "inventory.json"])["digestAlgorithm"]
            out.check(side == [pre + "inventory.json." + a], key, lambda: "sidecars of %r are %s" % (pre, side))
            p = oracle.sidecar_problems(tree, pre, a)
            out.check(not p, key, lambda: "%s" % p)
        content = {p: d for p, d in tree.items() if d is not None and p.split("/")[1:2] == [inv.get("contentDirectory", "content")]}
        listed = {}
        for d, paths in inv["manifest"].items():
            for p in paths:
                listed[p] = d
        out.check(set(listed) == set(content), key, "manifest paths are not those stored")
        for p, d in listed.items():
            out.check(p in content and oracle.digest(alg, content[p]) == d.lower(), key, lambda: "manifest %s digest of %s is wrong" % (alg, p))
        for n, v in enumerate(oracle.version_sequence(list(inv["versions"])), 1):
            state = {p: d for d, ps in inv["versions"][v]["state"].items() for p in ps}
            want = {p: oracle.digest(alg, d) for p, d in model.versions[n - 1].items()}
            out.check({p: d.lower() for p, d in state.items()} == want, key, lambda: "state of %s is wrong" % v)
        got = inv.get("fixity", {})
        out.check(set(got) == fixity, key, lambda: "fixity is %s, should be %s" % (sorted(got), sorted(fixity)))
        for falg, block in got.items():
            paths = [p for ps in block.values() for p in ps]
            out.check(sorted(paths) == sorted(content), key, lambda: "%s fixity covers %s, should cover %s" % (falg, sorted(paths), sorted(content)))
            for d, ps in block.items():
                for p in ps:
                    out.check(p in content and d.lower() == oracle.digest(falg, content[p]), key, lambda: "%s fixity of %s is wrong" % (falg, p))
        passed, codes = validate(be, "obj", lax_digests=True)
        out.check(passed, key, lambda: "not valid: %s" % codes)
        out.sample = {"history": history, "alg": alg, "fixity": sorted(got)}
    life.explore(init, OPS, depth, out, on_state, first=OPS[first])
