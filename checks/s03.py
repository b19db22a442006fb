"""S03: a storage root acts like a map from identifier to object."""
import json

from mc import mcfs, oracle, writer
from mc.lib import STATES, Memory, backend, diff

from . import s02

PROPERTY = "S03"
LEVEL = "model_checking"
RULE = ("A state is a distinct storage root (tree and model), reached by a sequence of additions of objects and updates of objects in place; a transition is one operation on "
        "the real code compared with a map from identifier to object; in each state the root is listed and validated, and every object is found by its path and extracted")
ASSUMPTIONS = ["Additions one at a time (concurrent ones are in C06)", "Objects are added from the same filesystem or another"]
ROOTS = {
    "flat": ["0002", None, ["a", "b", "a/b", "extensions", "0=x", "...", " b"]],
    "quoted": ["flat-quoted", None, ["a", "a/b", "a b", "a+b", "extensions", " a", "a\n"]],
    "hash": ["0003", None, ["a", "a/b", "a%2fb", "..", "\u00e9" * 60, "a "]],
    "hash1": ["0003", {"digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 1}, ["id7", "id51", "a", "b", "c"]],
    "flathash": ["0003", {"digestAlgorithm": "sha1", "tupleSize": 0, "numberOfTuples": 0}, ["a", "b", "extensions", "A", "a/"]],
    "tuple": ["nnnn-tuple-tree", None, ["ab", "abab", "abcd", "a", "abx"]],
    "uuid": ["nnnn-uuid-quadtree", {"prefix": "urn:uuid:"}, ["urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c9", "a",
                                                              "urn:uuid:6ba7b811-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:"]],
    "none": [None, None, ["a", "b", "c", "d", "e"]],
}
KINDS = {
    "small": dict(states=[0]),
    "big": dict(states=[2, 4, 1], alg="sha256", omit=[1], extras=["logs", "vdir", "extensions"], cd="data", pad=2),
    "old": dict(states=[3], spec="1.0", meta="none"),
    "md5": dict(states=[3], alg="md5"),
}
BOUNDS = {
    "quick": "%d layouts: all sequences of up to 3 operations of additions of 5 identifiers or more x 3 objects (second copies with other content included), updates in place, additions of an object that needs lax digests with and without these, of objects put in by other means, of things "
             "that can't be added" % len(ROOTS),
    "thorough": "all sequences of up to 4 operations, also on the local filesystem for up to 2",
}


def cases(tier):
    out = []
    for r in ROOTS:
        n = len(operations(r))
        out += [["mcfs", r, 3 if tier == "quick" else 4, i] for i in range(n)]
        out += [["local", r, 1 if tier == "quick" else 2, i] for i in range(n)]
    return out


def operations(root):
    ids = ROOTS[root][2]
    ops = [["add", i, k] for i in range(len(ids)) for k in (("small", "big") if i < 2 else ("small",))] + [["add", 0, "old"]]
    # An object by an algorithm that is accepted only with lax digests, added without and with this
    ops += [["add", 2, "md5"], ["add", 2, "md5", "lax"]]
    ops += [["update", 0], ["update", 1], ["bad", "none"], ["bad", "empty"], ["bad", "noinv"], ["bad", "badinv"]]
    # Objects put in by other means, where the layout would not
    ops += [["place", 0, n] for n in (1, 2)]
    return ops


def objects(be, ids):
    for i, identifier in enumerate(ids):
        for k, spec in KINDS.items():
            spec = dict(spec)
            be.put("o/%d-%s" % (i, k), writer.write_object([STATES[j] for j in spec.pop("states")], identifier=identifier, **spec))
    be.put("o/empty", {})
    good = writer.write_object([STATES[0]], identifier="another")
    be.put("o/noinv", {p: d for p, d in good.items() if p != "inventory.json"})
    inv = json.loads(good["inventory.json"])
    inv["head"] = "v2"
    be.put("o/badinv", dict(good, **{"inventory.json": json.dumps(inv).encode()}))


def nested(path, others):
    return any(path == o or path.startswith(o + "/") for o in others)


def run(case, world, out):
    import ocfl
    bename, root, depth, first = case
    be = backend(bename, world)
    name, config, ids = ROOTS[root]
    be.put("in", {})
    ocfl.StorageRoot(root=be.url("in/r"), layout_name=name).initialize(layout_params=json.dumps(config) if config else None)
    objects(be, ids)
    be.put("src", {"new": b"new content"})
    f = s02.definition(name, config) if name else (lambda i: None)
    ops = operations(root)
    start = be.everything()
    seen = set()
    frontier = [(start, {}, [])]
    for d in range(depth):
        following = []
        for tree, model, history in frontier:
            for o, op in enumerate(ops):
                if d == 0 and o != first:
                    continue
                restore(be, world, tree)
                m = dict(model)
                h = history + [op]
                key = "%s:%s:%s" % (bename, root, h)
                step(be, f, ids, op, m, key, out)
                now = be.everything()
                out.step()
                ident = (root, sorted(m.items()), sorted(now.items(), key=str))
                canon = repr(ident)
                if canon in seen:
                    continue
                seen.add(canon)
                out.state(ident)
                judge(be, f, ids, m, key, out, world)
                if d + 1 < depth:
                    following.append((now, m, h))
        frontier = following
    out.sample = {"root": root, "first": ops[first], "states": len(seen)}


def restore(be, world, tree):
    if be.name == "mcfs":
        mcfs.STORE.reset(tree)
    else:
        world.fresh()
        be.put("", tree)


def step(be, f, ids, op, model, key, out):
    """One operation on the real root and on the model (identifier -> (path, tree of object))."""
    import ocfl
    store = ocfl.StorageRoot(root=be.url("in/r"), lax_digests="lax" in op)
    before = be.everything()
    if op[0] == "add":
        identifier = ids[op[1]]
        rel = "o/%d-%s" % (op[1], op[2])
        path = f(identifier)
        taken = [p for p, _ in model.values()]
        # Refused if there is no path, the path is taken, within another object, above another object, or would not be found
        ok = (path is not None and not nested(path, taken) and not any(nested(t, [path]) for t in taken)
              and path.split("/")[0] != "extensions" and not path.startswith("0=")
              and (op[2] != "md5" or "lax" in op))
        try:
            got = store.add(be.url(rel))
            done = True
        except Exception as e:
            if not isinstance(e, OSError) and not type(e).__module__.startswith("ocfl"):
                raise
            done, got = False, e
        out.done("add done" if done else "add refused")
        if not out.check(done == ok, key, lambda: "add of %r to %s was %s (%s)" % (identifier, sorted(model), "done" if done else "refused", got)):
            return
        if done:
            out.check(got == (identifier, path), key, lambda: "add returned %s" % (got,))
            obj = be.get(rel)
            model[identifier] = (path, frozenset((p, d) for p, d in obj.items() if d is not None))
        else:
            out.check(be.everything() == before, key, lambda: "add that was refused has effects %s" % diff(before, be.everything()))
    elif op[0] == "update":
        identifier = ids[op[1]]
        if identifier not in model:
            out.done("nothing to update")
            return
        path = store.object_path(identifier) if f(identifier) else model[identifier][0]
        ocfl.Object().add_version_with_content(objdir=be.url("in/r/" + path), srcdir=be.url("src"),
                                               metadata=ocfl.VersionMetadata(created="2021-01-01T00:00:00Z", message="m", name="n", address="mailto:a@b"))
        out.done("update")
        model[identifier] = (path, frozenset((p, d) for p, d in be.get("in/r/" + path).items() if d is not None))
    elif op[0] == "place":
        identifier = "placed"
        path = (f(ids[op[1]]) or "else/where").split("/")
        path = "/".join(path[:op[2]])
        taken = [p for p, _ in model.values()]
        if identifier in model or nested(path, taken) or any(nested(t, [path]) for t in taken) or path.startswith(("extensions", "0=")):
            out.done("nothing placed")
            return
        obj = writer.write_object([STATES[1]], identifier=identifier)
        be.put("in/r/" + path, obj)
        out.done("placed")
        model[identifier] = (path, frozenset((p, d) for p, d in obj.items() if d is not None))
    else:
        try:
            store.add(be.url("o/" + op[1]))
            out.violation(key, "add of %s was not refused" % op[1])
        except Exception as e:
            if not isinstance(e, OSError) and not type(e).__module__.startswith("ocfl"):
                raise
        out.done("bad refused")
        out.check(be.everything() == before, key, lambda: "add that was refused has effects %s" % diff(before, be.everything()))
        return
    # Nothing else is changed
    after = be.everything()
    allowed = "in/r/" + model[identifier][0] if identifier in model else None
    for p in set(before) | set(after):
        if before.get(p, 0) != after.get(p, 0):
            out.check(allowed is not None and (p == allowed or p.startswith(allowed + "/") or allowed.startswith(p + "/")), key, lambda: "%s was changed by operation %s" % (p, op))


def judge(be, f, ids, model, key, out, world):
    import ocfl
    odd = {i for i, (path, files) in model.items() if any(p == "inventory.json.md5" for p, d in files)}
    if odd:
        # By default these are not valid
        store = ocfl.StorageRoot(root=be.url("in/r"))
        want = sorted((path, "UNKNOWN-ID" if i in odd else i) for i, (path, _) in model.items())
        got = sorted(store.list_objects())
        out.check(got == want, key, lambda: "root lists %s, has %s" % (got, want))
        ok = store.validate()
        out.check(not ok and store.good_objects == len(model) - len(odd), key, "root is reported valid with an object with an md5 manifest")
    store = ocfl.StorageRoot(root=be.url("in/r"), lax_digests=bool(odd))
    want = sorted((path, i) for i, (path, _) in model.items())
    got = sorted(store.list_objects())
    out.check(got == want and store.num_objects == len(want), key, lambda: "root lists %s, has %s" % (got, want))
    for kw in ({}, {"validate_objects": False}):
        store = ocfl.StorageRoot(root=be.url("in/r"), lax_digests=bool(odd))
        ok = store.validate(**kw)
        out.check(ok is True, key, lambda: "root is reported invalid: %s %s" % (store.errors, store.log.messages))
        if not kw:
            out.check((store.num_objects, store.good_objects) == (len(want), len(want)), key, "numbers of objects are wrong")
    for i, (path, files) in model.items():
        if i != "placed" and f(i):
            p = ocfl.StorageRoot(root=be.url("in/r")).object_path(i)
            out.check(p == path, key, lambda: "path of %r is %s, not %s" % (i, p, path))
        tree = be.get("in/r/" + path)
        here = frozenset((p, d) for p, d in tree.items() if d is not None)
        out.check(here == files, key, lambda: "object %r has changed" % i)
        o = ocfl.Object(path=be.url("in/r/" + path), lax_digests=i in odd)
        out.check(o.id_from_inventory() == i, key, "identifier read is wrong")
