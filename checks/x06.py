"""X06: the sidecar tool writes the right sidecar of each inventory it is given, and nothing else."""
import itertools
import json
import os

from mc import oracle, writer
from mc.lib import STATES, make_object
from mc.tree import read_tree, write_tree

from .l09 import cli

PROPERTY = "X06"
LEVEL = "model_checking"
RULE = ("An execution is one run of ocfl-sidecar.py with one list of paths and one --digest, over directories with given inventories and sidecars, after which all files are compared with those expected; "
        "a state is a distinct (inventories, sidecars there before, path forms, digest)")
ASSUMPTIONS = ["An inventory that is not valid is not expected to get a sidecar of its own algorithm, only that nothing but sidecars is written"]
DIGESTS = [None, "sha512", "sha256", "md5", "sha1", "blake2b-512", "blake2b-160", "nonsense", "../sha512", ""]
SIDECARS = ["none", "right", "wrong", "empty", "other", "directory"]
FORMS = ["abs", "abs/", "abs-file", "rel", "rel/", "rel-file", "dot", "dot-file", "default", "link"]
BAD = ["nowhere", "nowhere/inventory.json", "{o}/0=ocfl_object_1.1", "{o}/inventory.json.sha512", "{o}/v1/content", "", "{o}/my-inventory.json"]
INVENTORIES = {"sha512": {"alg": "sha512"}, "sha256": {"alg": "sha256", "spec": "1.0"}, "pad": {"pad": 3, "alg": "sha256"}, "upper": {"case": "upper"}}
BROKEN = {"no-id": {"id": None}, "no-alg": {"digestAlgorithm": None}, "odd-alg": {"digestAlgorithm": "odd"}, "bad-head": {"head": "v9"}}
BOUNDS = {
    "quick": "%d valid inventories x %d sidecars x %d path forms x %d digests; all pairs and triples of %d kinds of path; %d broken inventories" % (
        len(INVENTORIES), len(SIDECARS), len(FORMS), len(DIGESTS), len(BAD) + 4, len(BROKEN)),
    "thorough": "all lists of up to 4 paths",
}
VALID_ALGS = ("sha512", "sha256")


def cases(tier):
    return ([["one", i, s] for i in INVENTORIES for s in SIDECARS] + [["many", k, part] for k in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)) for part in range(1 if k < 3 else 4)]
            + [["broken", b] for b in BROKEN] + [["inside"]])


def sidecar(data, alg):
    return oracle.digest(alg, data).encode() + b" inventory.json"


def files(world):
    """All files, without regard to how many spaces there are in sidecars."""
    return {p: d if not p.rpartition("/")[2].startswith("inventory.json.") or not isinstance(d, bytes) else b" ".join(d.split()) for p, d in read_tree(world.dir).items()}


def put_sidecar(tree, prefix, kind, alg):
    p = prefix + "inventory.json." + alg
    tree.pop(p, None)
    data = tree[prefix + "inventory.json"]
    if kind == "right":
        tree[p] = sidecar(data, alg)
    elif kind == "wrong":
        tree[p] = sidecar(b"x", alg) * 40
    elif kind == "empty":
        tree[p] = b""
    elif kind == "other":
        tree[prefix + "inventory.json.md5"] = b"other\n"
    elif kind == "directory":
        tree[p + "/x"] = b"x"


def arg(form, world, rel):
    """Path as given, and directory to be in."""
    return {"abs": (world.path(rel), "."), "abs/": (world.path(rel) + "/", "."), "abs-file": (world.path(rel) + "/inventory.json", "."), "rel": (rel, "."), "rel/": (rel + "/", "."),
            "rel-file": (rel + "/inventory.json", "."), "dot": (".", rel), "dot-file": ("inventory.json", rel), "default": (None, rel), "link": ("link", ".")}[form]


def attempt(*args):
    try:
        return cli("ocfl-sidecar.py", *args)
    except Exception as e:
        if not isinstance(e, (OSError, ValueError)) and not type(e).__module__.startswith(("ocfl", "fs.")):
            raise
        return "%s" % type(e).__name__, ""


def run(case, world, out):
    try:
        {"one": run_one, "many": run_many, "broken": run_broken, "inside": run_inside}[case[0]](case, world, out)
    finally:
        os.chdir(world.base)


def run_one(case, world, out):
    _, inv, sc = case
    tree = writer.write_object([STATES[1], STATES[2]], **INVENTORIES[inv])
    own = INVENTORIES[inv].get("alg", "sha512")
    for form, d in itertools.product(FORMS, DIGESTS):
        world.fresh()
        t = dict(tree)
        put_sidecar(t, "", sc, own if d is None or d not in oracle_algs() else d)
        write_tree(world.path("o"), t)
        write_tree(world.path("other"), tree)
        os.symlink("o", world.path("link"))
        before = files(world)
        p, cwd = arg(form, world, "o")
        os.chdir(world.path(cwd) if cwd != "." else world.dir)
        args = ([p] if p is not None else []) + (["--digest=" + d] if d is not None else [])
        status, text = attempt(*args)
        after = files(world)
        key = "one:%s:%s:%s:%s" % (inv, sc, form, d)
        out.step()
        out.state(key)
        alg = own if d is None else d
        known = alg in oracle_algs()
        blocked = sc == "directory" and known
        want = dict(before)
        if known and not blocked:
            want["o/inventory.json." + alg] = sidecar(tree["inventory.json"], alg)
        out.done("written" if known and not blocked else "refused")
        out.check(after == want, key, lambda: "files are not as expected: %s" % sorted(set(after.items()) ^ set(want.items()), key=str)[:3])
        out.check((status == 0) == (known and not blocked), key, lambda: "exit status is %s" % status)
        if known and not blocked:
            out.check("inventory.json." + alg in text, key, lambda: "output %r does not name the sidecar" % text)
            if d is None and sc in ("none", "right", "wrong", "empty"):
                passed, v = make_object({}).validate(world.path("o"))
                out.check(passed, key, lambda: "object is not valid after its sidecar was written: %s" % sorted(v.log.codes))


def oracle_algs():
    return ("sha512", "sha256", "md5", "sha1", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384")


def run_many(case, world, out):
    """Several paths: the ones that are no inventory are ignored, and don't keep the others from being done."""
    _, k, part = case
    tree = writer.write_object([STATES[1]])
    tree2 = writer.write_object([STATES[2]], alg="sha256", identifier="info:two")
    menu = ["o", "two/", "link/inventory.json", "o/v1"] + [b.format(o="o") for b in BAD]
    target = {0: "o/", 1: "two/", 2: "two/", 3: "o/v1/"}
    for i, choice in enumerate(itertools.product(range(len(menu)), repeat=k)):
        if k >= 3 and i % 4 != part:
            continue
        world.fresh()
        trees = {}
        for prefix, t, alg in (("o/", tree, "sha512"), ("two/", tree2, "sha256")):
            t = dict(t, **{"my-inventory.json": t["inventory.json"]})
            put_sidecar(t, "", "wrong", alg)
            trees.update({prefix + p: d for p, d in t.items()})
        write_tree(world.dir, trees)
        os.symlink("two", world.path("link"))
        before = files(world)
        os.chdir(world.dir)
        status, _ = attempt(*[menu[c] for c in choice])
        after = files(world)
        want = dict(before)
        for c in choice:
            if c in target:
                alg = "sha256" if target[c] == "two/" else "sha512"
                want[target[c] + "inventory.json." + alg] = sidecar(before[target[c] + "inventory.json"], alg)
        key = "many:%s" % [menu[c] for c in choice]
        out.step()
        out.state(key)
        out.done("several")
        out.check(after == want, key, lambda: "files are not as expected: %s" % sorted(set(after.items()) ^ set(want.items()), key=str)[:3])
        out.check(status == 0, key, lambda: "exit status is %s" % status)


def run_broken(case, world, out):
    changes = BROKEN[case[1]]
    tree = writer.write_object([STATES[1]])
    inv = json.loads(tree["inventory.json"])
    inv.update(changes)
    for name, data in (("json", json.dumps({k: v for k, v in inv.items() if v is not None}).encode()), ("cut", tree["inventory.json"][:40]), ("empty", b""), ("utf8", b"\xff\xfe"), ("list", b"[]")):
        for d in DIGESTS:
            world.fresh()
            t = dict(tree, **{"inventory.json": data})
            write_tree(world.path("o"), t)
            before = files(world)
            status, _ = attempt(*([world.path("o")] + (["--digest=" + d] if d is not None else [])))
            after = files(world)
            key = "broken:%s:%s:%s" % (case[1], name, d)
            out.step()
            out.state(key)
            changed = {p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)}
            out.done("status %s" % (status == 0))
            out.check(all(p.startswith("o/inventory.json.") for p in changed) and len(changed) <= 1, key, lambda: "changed %s" % sorted(changed))
            for p in changed:
                out.check(after.get(p) == sidecar(data, p[len("o/inventory.json."):]), key, lambda: "sidecar %s is wrong" % p)
            if d in oracle_algs():    # The digest is said, so what is in the inventory does not matter
                out.check(status == 0 and after.get("o/inventory.json." + d) == sidecar(data, d), key, lambda: "sidecar of forced digest not written, status %s" % status)


def run_inside(case, world, out):
    """Inventory of a version directory."""
    tree = writer.write_object([STATES[1], STATES[2]], alg="sha256")
    for v in ("v1", "v2"):
        for form in ("abs", "abs/", "abs-file", "rel", "rel-file", "dot", "dot-file", "default"):
            world.fresh()
            t = dict(tree)
            put_sidecar(t, v + "/", "wrong", "sha256")
            write_tree(world.path("o"), t)
            before = files(world)
            p, cwd = arg(form, world, "o/" + v)
            os.chdir(world.path(cwd) if cwd != "." else world.dir)
            status, _ = attempt(*([p] if p else []))
            want = dict(before)
            want["o/%s/inventory.json.sha256" % v] = sidecar(tree[v + "/inventory.json"], "sha256")
            after = files(world)
            key = "inside:%s:%s" % (v, form)
            out.step()
            out.state(key)
            out.done("version")
            out.check(status == 0 and after == want, key, lambda: "status %s, files are not as expected: %s" % (status, sorted(set(after.items()) ^ set(want.items()), key=str)[:3]))
