"""X01: extraction writes just the files asked for into its destination, whatever the object and the destination."""
import json
import os

from mc import oracle, writer
from mc.lib import A, B, C, STATES, Local, Memory, backend, diff, make_object
from mc.tree import read_tree, write_tree

PROPERTY = "X01"
LEVEL = "model_checking"
RULE = ("An execution is one extraction (of a version or of one file) from one object, sound or hostile, to one destination, with the whole scratch directory compared before and after; "
        "a state is a distinct (object, version, path, destination)")
ASSUMPTIONS = ["Destinations are on the local filesystem", "Workers run as an unprivileged user in a scratch directory, so that an escape reaches nothing real"]
EVIL = ["../e", "../../e", "../../../e", "a/../../../e", "/e", "//e", "/", "..", ".", "", "./a", "a/.", "a/..", "a/", "a//b", "b/./c", "b/../c", "../secret", "../out2/e", "..//e", "./../e",
        "x/../../src/keep"]
DESTS = ["new", "new/", "./new", "empty", "empty/", "full", "nested", "file", "none/new", "file/new", "link", "deep/er/new", "out put \u00e9"]
VERSIONS = ["head", "v1", "v2", "v3", "v4", "v0", "v01", "1", "", "V1", "v1/", "../v1", "v", "head ", "v1\n"]
OBJECTS = {
    "plain": dict(states=[2, 4, 3]),
    "dup": dict(states=[2, 2, 1], store="dup", alg="sha256"),
    "cd": dict(states=[4, 5, 2], cd="data", pad=3),
    "upper": dict(states=[1, 3, 2], case="upper", omit=[1, 2]),
}
BOUNDS = {
    "quick": "%d objects x %d version names x %d destinations for versions, x all logical paths and malformed ones for single files; %d malformed paths as logical and as content path of "
             "an inventory; on local and in-memory storage" % (len(OBJECTS), len(VERSIONS), len(DESTS), len(EVIL)),
    "thorough": "the same, also pairs of malformed paths",
}


def cases(tier):
    out = []
    for be in ("local", "mcfs"):
        for o in OBJECTS:
            out += [[be, "version", o, d] for d in DESTS]
            out += [[be, "file", o, d] for d in DESTS]
        for e in range(len(EVIL)):
            out += [[be, "evil", where, e, None] for where in ("state", "oldstate", "manifest", "both")]
            if tier == "thorough":
                out += [[be, "evil", where, e, f] for where in ("state", "both") for f in range(len(EVIL)) if f != e]
    return out


def spec(name):
    opts = dict(OBJECTS[name])
    states = [STATES[i] for i in opts.pop("states")]
    return states, writer.write_object(states, **opts), (lambda n: "v%0*d" % (opts.get("pad") or 0, n))


def surroundings(world):
    write_tree(world.path("dst"), {"empty": None, "full/keep": A, "nested/sub": None, "file": b"file", "target": None, "deep/er": None, "src/keep": b"keep"})
    os.symlink(world.path("dst/target"), world.path("dst/link"))
    write_tree(world.path("secret"), {"s": b"the secret"})
    with open(world.path("e"), "wb") as fh:
        fh.write(b"e")


def snapshot(world):
    return {p: d for p, d in read_tree(world.dir).items()}


USABLE = {"new": "dst/new", "new/": "dst/new", "./new": "dst/new", "empty": "dst/empty", "empty/": "dst/empty", "link": "dst/target", "deep/er/new": "dst/deep/er/new",
          "out put \u00e9": "dst/out put \u00e9"}


def library_error(e):
    return isinstance(e, (OSError, ValueError)) or type(e).__module__.startswith("ocfl")


def run(case, world, out):
    os.chdir(world.dir)
    try:
        {"version": run_version, "file": run_file, "evil": run_evil}[case[1]](case, world, out)
    finally:
        os.chdir(world.base)


def within(before, after, where, files):
    """Problems with what has been added: just files below where and the directories that lead to them."""
    bad = []
    want = {where + "/" + p: d for p, d in files.items()}
    # A directory is in a tree explicitly only if it is empty
    for p in set(before) | set(after):
        if p in after and after[p] is not None and (p not in before or before[p] != after[p]):
            if want.get(p) != after[p]:
                bad.append(("added or changed", p))
        if p in before and before[p] is not None and p not in after:
            bad.append(("removed", p))
        if p in after and after[p] is None and p not in before and not any(w.startswith(p + "/") for w in want) and p != where:
            bad.append(("directory", p))
    bad += [("missing", p) for p in want if after.get(p) != want[p]]
    return bad


def run_version(case, world, out):
    bename, _, name, dest = case
    states, tree, vname = spec(name)
    for v in VERSIONS:
        world.fresh()
        os.chdir(world.dir)
        be = backend(bename, world)
        be.put("obj", tree)
        surroundings(world)
        before = snapshot(world)
        names = {vname(i + 1): i for i in range(len(states))}
        names["head"] = len(states) - 1
        ok = v in names and dest in USABLE
        for form in ("abs", "rel"):
            if form == "rel" and v != "head":
                continue
            if form == "rel":
                world.fresh()
                be = backend(bename, world)
                be.put("obj", tree)
                surroundings(world)
                os.chdir(world.dir)
                before = snapshot(world)
            key = "%s:%s:%r:%s:%s" % (bename, name, v, dest, form)
            dst = world.path("dst/" + dest) if form == "abs" else "dst/" + dest
            try:
                meta = make_object({}).extract(objdir=be.url("obj"), version=v, dstdir=dst)
                done = True
            except Exception as e:
                if not library_error(e):
                    raise
                done, meta = False, e
            after = snapshot(world)
            out.step()
            out.state((name, v, dest, form))
            out.done("version " + ("done" if done else "refused"))
            out.check(done == ok, key, lambda: "extract of %r to %s was %s (%s)" % (v, dest, "done" if done else "refused", meta))
            if done and ok:
                bad = within(before, after, USABLE[dest], states[names[v]])
                out.check(not bad, key, lambda: "extract of %r to %s has %s" % (v, dest, bad[:4]))
                out.check(meta.version == vname(names[v] + 1), key, "version returned is %s" % meta.version)
            elif not done:
                out.check(before == after, key, lambda: "refused extract of %r to %s has effects %s" % (v, dest, diff(before, after)))
            if bename == "mcfs":
                out.check(be.get("obj") == _dirs(tree), key, "object was changed by extract")


def _dirs(tree):
    from mc.tree import with_dirs
    return with_dirs(tree)


def run_file(case, world, out):
    bename, _, name, dest = case
    states, tree, vname = spec(name)
    paths = sorted({p for s in states for p in s}) + EVIL
    usable = dict(USABLE, full="dst/full", nested="dst/nested")
    for n, v in [(0, vname(1)), (2, "head"), (None, "v9")]:
        for p in paths:
            world.fresh()
            os.chdir(world.dir)
            be = backend(bename, world)
            be.put("obj", tree)
            surroundings(world)
            clash = dest in ("full", "nested") and os.path.basename(p) in ("keep", "sub")
            before = snapshot(world)
            key = "%s:%s:%s:%r:%s" % (bename, name, v, p, dest)
            ok = n is not None and p in states[n] and dest in usable and not clash
            try:
                make_object({}).extract_file(objdir=be.url("obj"), version=v, dstdir=world.path("dst/" + dest), logical_path=p)
                done, err = True, None
            except Exception as e:
                if not library_error(e):
                    raise
                done, err = False, e
            after = snapshot(world)
            out.step()
            out.state((name, v, p, dest))
            out.done("file " + ("done" if done else "refused"))
            out.check(done == ok, key, lambda: "extract_file of %r in %s to %s was %s (%s)" % (p, v, dest, "done" if done else "refused", err))
            if done and ok:
                bad = within(before, after, usable[dest], {p.split("/")[-1]: states[n][p]})
                out.check(not bad, key, lambda: "extract_file of %r to %s has %s" % (p, dest, bad[:4]))
            elif not done:
                out.check(before == after, key, lambda: "refused extract_file of %r in %s to %s has effects %s" % (p, v, dest, diff(before, after)))
    # A file that is there is not overwritten
    for p in sorted(states[2]):
        world.fresh()
        os.chdir(world.dir)
        be = backend(bename, world)
        be.put("obj", tree)
        surroundings(world)
        base = p.split("/")[-1]
        for kind in ("file", "dir"):
            write_tree(world.path("dst/there-" + kind), {base: b"old"} if kind == "file" else {base + "/x": b"old"})
            before = snapshot(world)
            try:
                make_object({}).extract_file(objdir=be.url("obj"), version="head", dstdir=world.path("dst/there-" + kind), logical_path=p)
                out.violation("%s:%s:over:%s" % (bename, name, p), "extract_file of %r over a %s of that name was done" % (p, kind))
            except Exception as e:
                if not library_error(e):
                    raise
            out.step()
            out.check(snapshot(world) == before, "%s:%s:over:%s" % (bename, name, p), "refused extract_file has effects")


def run_evil(case, world, out):
    """Inventories with paths that lead out of object or destination."""
    bename, _, where, e, f = case
    evil = EVIL[e]
    be = backend(bename, world)
    states = [{"a": A, "b/c": B}, {"a": A, "n": C}]
    for fixed in (False, True):
        tree = writer.write_object(states)
        inv = json.loads(tree["inventory.json"])
        da = oracle.digest("sha512", A)
        bad = [evil] + ([EVIL[f]] if f is not None else [])
        if where in ("state", "both"):
            inv["versions"]["v2"]["state"][da] = bad + (["a"] if fixed else [])
        if where == "oldstate":
            inv["versions"]["v1"]["state"][da] = bad + (["a"] if fixed else [])
        if where in ("manifest", "both"):
            # The first entry is that which is extracted
            inv["manifest"][da] = [evil] + (["v1/content/a"] if fixed else [])
        data = json.dumps(inv).encode()
        tree["inventory.json"] = tree["v2/inventory.json"] = data
        tree["inventory.json.sha512"] = tree["v2/inventory.json.sha512"] = (oracle.digest("sha512", data) + " inventory.json\n").encode()
        for v in ("head", "v1", "v2"):
            for op in ("version", "file", "filea"):
                world.fresh()
                os.chdir(world.dir)
                be = backend(bename, world)
                be.put("obj", tree)
                if bename == "mcfs":
                    be.put("secret", {"s": b"the secret"})
                surroundings(world)
                before = snapshot(world)
                here = "%s:%s:%r:%s:%s:%s:%s" % (bename, where, evil, f, fixed, v, op)
                obj = make_object({})
                try:
                    if op == "version":
                        obj.extract(objdir=be.url("obj"), version=v, dstdir=world.path("dst/new"))
                    else:
                        obj.extract_file(objdir=be.url("obj"), version=v, dstdir=world.path("dst/new"), logical_path=evil if op == "file" else "a")
                    done = True
                except Exception as err:
                    if not library_error(err):
                        raise
                    done = False
                after = snapshot(world)
                out.step()
                out.state((where, evil, f, fixed, v, op))
                out.done("evil " + ("done" if done else "refused"))
                # An inventory with such a path is not valid: nothing is extracted
                out.check(not done, here, lambda: "%s of %s with path %r in %s was done" % (op, v, evil, where))
                out.check(before == after, here, lambda: "%s of %s with path %r in %s has effects %s" % (op, v, evil, where, diff(before, after)))
    out.sample = {"path": evil, "in": where}
