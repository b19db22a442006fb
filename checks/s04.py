"""S04: the verdict on a storage root follows the rules for its structure and the verdicts on its objects."""
import itertools
import re

from mc import oracle, writer
from mc.lib import STATES, Memory, backend, jdump, under

PROPERTY = "S04"
LEVEL = "model_checking"
RULE = "An execution is the validation and the listing of one storage root, compared with an independent traversal; a state is a distinct tree"
ASSUMPTIONS = ["The specification version of objects is not compared with that of the root (E081 is not checked by this library)"]
OBJ = writer.write_object([STATES[2]], identifier="info:one")
OBJ2 = writer.write_object([STATES[1], STATES[0]], identifier="info:two", spec="1.0", alg="sha256")
BAD = dict(OBJ, **{"v1/content/extra": b"x"})
CORRUPT = dict(OBJ, **{p: bytes(d[:-1]) + b"~" for p, d in OBJ.items() if p.startswith("v1/content/a")})
BADINV = dict(OBJ, **{"inventory.json": b"{"})


def pre(prefix, tree):
    return {prefix + "/" + p: d for p, d in tree.items()}


# name -> tree below one directory, or for a name that ends with "!" at the root
PARTS = {
    "object": pre("o", OBJ),
    "object2": pre("deep/er/o", OBJ2),
    "dot": pre(".hidden", OBJ),
    "bad": pre("bad", BAD),
    "badinv": pre("x/badinv", BADINV),
    "corrupt": pre("corrupt", CORRUPT),
    "warn": pre("warn", writer.write_object([STATES[1]], identifier="no uri", meta="none")),
    "empty": {"empty": None},
    "emptydeep": {"deep/empty": None},
    "files": {"files/file": b"x"},
    "filesdeep": {"deep/files/file": b"x", "deep/files/sub/file": b"x"},
    "filesobj": dict(pre("fo/o", OBJ), **{"fo/x": b"x"}),
    "rootfile": {"README": b"x"},
    "rootfile2": {"inventory.json": b"{}", "v1": b""},
    "twodecl": pre("two", dict(OBJ, **{"0=ocfl_object_1.0": b"ocfl_object_1.0\n"})),
    "nodecl": pre("no", {p: d for p, d in OBJ.items() if not p.startswith("0=")}),
    "laterdecl": {"later/0=ocfl_object_2.0": b"ocfl_object_2.0\n"},
    "odddecl": {"odd/0=other": b"other\n"},
    "nldecl": {"nl/0=ocfl_object_1.1\n": b"ocfl_object_1.1\n"},
    "rootdecl": {"inner/0=ocfl_1.1": b"ocfl_1.1\n"},
    "decl": {"only/0=ocfl_object_1.1": b"ocfl_object_1.1\n"},
    "decldir": {"dd/0=ocfl_object_1.1/file": b"x"},
    "inobject": dict(pre("o3", OBJ), **pre("o3/v9/sub", OBJ2)),
    "ext": {"extensions/0002-flat-direct-storage-layout/config.json": b'{"extensionName": "0002-flat-direct-storage-layout"}'},
    "extother": {"extensions/other/anything/x": b"x", "extensions/other/empty": None},
    "extfile": {"extensions/file": b"x"},
    "extempty": {"extensions": None},
    "extobject": pre("extensions/other/o", OBJ),
    "deepext": {"deep/extensions": None},
    "deepextobj": pre("deep/extensions/o", OBJ),
    "logs": {"logs": None},
    "seconddecl": {"0=ocfl_1.0": b"ocfl_1.0\n"},
    "objdecl": {"0=ocfl_object_1.1": b"ocfl_object_1.1\n"},
    "anydecl": {"0=x": b"x\n"},
    "onedecl": {"1=x": b"x\n"},
    "layout": {"ocfl_layout.json": jdump({"extension": "0002-flat-direct-storage-layout", "description": "d"})},
    "badlayout": {"ocfl_layout.json": b"{}"},
    "unklayout": {"ocfl_layout.json": jdump({"extension": "none", "description": "d"})},
}
DECLS = {"1.1": {"0=ocfl_1.1": b"ocfl_1.1\n"}, "1.0": {"0=ocfl_1.0": b"ocfl_1.0\n"}, "none": {}, "2.0": {"0=ocfl_2.0": b"ocfl_2.0\n"}, "content": {"0=ocfl_1.1": b"ocfl_1.0\n"},
         "empty": {"0=ocfl_1.1": b""}, "dir": {"0=ocfl_1.1/file": b"x"}, "nonl": {"0=ocfl_1.1": b"ocfl_1.1"}, "suffix": {"0=ocfl_1.1x": b"ocfl_1.1x\n"}}
BOUNDS = {
    "quick": "all storage roots with up to 3 of %d parts, %d declarations with up to 1 part; on an in-memory filesystem, and with up to 1 part on the local one; all pairs of roots with up to 1 part at one place one after the other, seen by one StorageRoot" % (len(PARTS), len(DECLS)),
    "thorough": "up to 4 parts, %d declarations with up to 2, local filesystem up to 2" % len(DECLS),
}


def cases(tier):
    more = 0 if tier == "quick" else 1
    names = list(PARTS)
    out = [["mcfs", "1.1", 3 + more, i] for i in range(-1, len(names))]
    out += [["mcfs", d, 1 + more, i] for d in DECLS for i in range(-1, len(names))]
    out += [["local", d, 1 + more, i] for d in ("1.1", "1.0") for i in range(-1, len(names))]
    out += [["again", "1.1", 1, i] for i in range(-1, len(names))]
    return out


def children(tree, d):
    dirs, files = set(), set()
    p = d + "/" if d else ""
    for path, data in tree.items():
        if path.startswith(p):
            rest = path[len(p):].split("/")
            if len(rest) == 1 and data is not None:
                files.add(rest[0])
            else:
                dirs.add(rest[0])
    return dirs, files


def expected(tree):
    """(root structure good, verdict without objects, verdict, [(path, id)])"""
    dirs, files = children(tree, "")
    decl = [n for n in dirs | files if n.startswith("0=")]
    good = (len(decl) == 1 and decl[0] in ("0=ocfl_1.0", "0=ocfl_1.1") and decl[0] in files and tree[decl[0]].decode().strip() == decl[0][2:])
    layout = tree.get("ocfl_layout.json")
    if layout is not None and b"0002-flat" not in layout:
        good = False
    if not good:
        return False, False, False, [], 0, [], []
    problems, bad, found, content = [], [], [], []
    if "extensions" in dirs:
        if children(tree, "extensions")[1]:
            problems.append("file in extensions")

    def visit(d):
        dirs, files = children(tree, d)
        if not dirs and not files:
            problems.append("empty " + d)
        elif not files:
            for c in sorted(dirs):
                visit(d + "/" + c)
        else:
            decl = [n for n in files if n.startswith("0=")]
            if len(decl) != 1 or decl[0] not in ("0=ocfl_object_1.0", "0=ocfl_object_1.1"):
                problems.append("not an object " + d)
            else:
                obj = under(tree, d)
                try:
                    identifier = oracle.load(obj["inventory.json"])["id"]
                except (KeyError, ValueError):
                    identifier = "UNKNOWN-ID"
                found.append((d, identifier))
                if oracle.object_problems(obj):
                    bad.append(d)
                    if obj == CORRUPT:
                        content.append(d)
    for c in sorted(dirs):
        if c != "extensions":
            visit(c)
    return True, not problems, not problems and not bad, sorted(found), len(bad), sorted(bad), content


def settings(be, key, out, want):
    """Settings that change what is checked or kept."""
    import ocfl
    paths = [p for p, _ in want[3]]
    for digests, warnings, most in ((False, False, 100), (True, True, 100), (True, True, 1), (True, False, 0)):
        store = ocfl.StorageRoot(root=be.url("r"))
        got = store.validate(check_digests=digests, log_warnings=warnings, max_errors=most)
        out.step()
        bad = [p for p in want[5] if digests or p not in want[6]]
        what = "%s with digests %s, warnings %s, errors up to %d" % (key, digests, warnings, most)
        out.check(got is (want[1] and not bad), key, lambda: "root %s is reported %r" % (what, got))
        out.check((store.num_objects, store.good_objects) == (len(paths), len(paths) - len(bad)), key, lambda: "%s: numbers of objects %d %d" % (what, store.num_objects, store.good_objects))
        told = sorted(e[0] for e in store.errors)
        noted = sorted(set(bad) | {p for p in paths if warnings and p in ("warn", "deep/er/o")})
        out.check(set(told) <= set(noted) and len(told) == min(len(noted), most), key, lambda: "%s: told of %s" % (what, told))


def again(case, world, out):
    """One StorageRoot, what is there changes between uses."""
    import ocfl
    names = list(PARTS)
    trees = [("none", dict(DECLS["1.1"]))] + [(n, dict(DECLS["1.1"], **PARTS[n])) for n in names]
    first = trees[case[3] + 1]
    for name, tree in trees:
        be = backend("mcfs", world)
        be.put("r", first[1])
        store = ocfl.StorageRoot(root=be.url("r"))
        key = "again:%s:%s" % (first[0], name)
        for stage, (t, objects) in enumerate(((first[1], True), (tree, True), (first[1], False), (tree, True), (tree, True))):
            be = backend("mcfs", world)
            be.put("r", t)
            want = expected(t)
            got = store.validate(validate_objects=objects)
            out.step()
            out.state((key, stage))
            out.check(got is (want[2] if objects else want[1]), key, lambda: "root with %s then %s is reported %r at stage %d" % (first[0], name, got, stage))
            if want[0] and objects:
                out.check((store.num_objects, store.good_objects, sorted(e[0] for e in store.errors)) == (len(want[3]), len(want[3]) - want[4], want[5]), key, lambda: "numbers of objects %d %d, errors %s at stage %d" % (
                    store.num_objects, store.good_objects, store.errors, stage))
            try:
                listed = sorted(store.list_objects())
                out.check(want[0] and listed == want[3] and store.num_objects == len(listed), key, lambda: "root lists %s at stage %d, has %s" % (listed, stage, want[3]))
            except ocfl.StorageRootException as e:
                out.check(not want[0], key, lambda: "listing refused at stage %d: %s" % (stage, e))
        out.done("again")


def run(case, world, out):
    import ocfl
    if case[0] == "again":
        again(case, world, out)
        return
    bename, decl, n, first = case
    names = list(PARTS)
    for k in range(0, n + 1):
        for combo in itertools.combinations(range(len(names)), k):
            if (combo[0] if combo else -1) != first:
                continue
            tree = dict(DECLS[decl])
            clash = False
            for i in combo:
                for p, d in PARTS[names[i]].items():
                    clash |= p in tree and tree[p] != d
                    tree[p] = d
            if clash:
                continue
            # Empty directories that were given something
            for p in [q for q, d in tree.items() if d is None and any(x.startswith(q + "/") for x in tree)]:
                del tree[p]
            if bename == "local":
                world.fresh()
            be = backend(bename, world)
            be.put("r", tree)
            key = "%s:%s:%s" % (bename, decl, [names[i] for i in combo])
            want = expected(tree)
            out.state(sorted(tree.items(), key=str))
            for objects, verdict in ((True, want[2]), (False, want[1])):
                store = ocfl.StorageRoot(root=be.url("r"))
                got = store.validate(validate_objects=objects)
                out.step()
                out.check(got is verdict, key, lambda: "root with %s is reported %r (objects %s): %s %s" % (key, got, objects, store.log.messages, store.errors))
                if want[0] and objects:
                    out.check((store.num_objects, store.good_objects) == (len(want[3]), len(want[3]) - want[4]), key, lambda: "numbers of objects %d %d" % (store.num_objects, store.good_objects))
                    out.check(sorted(e[0] for e in store.errors) == want[5], key, lambda: "errors for %s, not for %s" % ([e[0] for e in store.errors], want[5]))
                    out.check(all("[[%s]]" % e[0] in e[1] for e in store.errors), key, "errors do not tell the path")
            if k < 3 and want[0]:
                settings(be, key, out, want)
            out.done("valid" if want[2] else "invalid")
            store = ocfl.StorageRoot(root=be.url("r"))
            out.step()
            try:
                listed = sorted(store.list_objects())
                out.check(want[0] and listed == want[3] and store.num_objects == len(listed), key, lambda: "root with %s lists %s, has %s" % (key, listed, want[3]))
            except ocfl.StorageRootException as e:
                out.check(not want[0], key, lambda: "listing refused: %s" % e)
