"""L10: an operation that is refused leaves everything as it was."""
import json
import os

from mc import life, oracle, writer
from mc.lib import A, B, C, DEFAULTS, STATES, Memory, backend, make_object, meta

PROPERTY = "L10"
LEVEL = "model_checking"
RULE = ("An execution is one operation that has to be refused, run against one object, compared before and after file by file; operations "
        "that are not expected to be refused are run as well, so that refusing everything does not pass")
ASSUMPTIONS = ["Reasons for refusal outside those listed are not covered"]


def objects():
    """name -> tree of objects and things that are not objects."""
    good = writer.write_object([STATES[2], STATES[1]])
    out = {"good": good}

    def inv_change(f, tree=good):
        t = dict(tree)
        inv = json.loads(t["inventory.json"])
        f(inv)
        data = json.dumps(inv).encode()
        t["inventory.json"] = t["v2/inventory.json"] = data
        t["inventory.json.sha512"] = t["v2/inventory.json.sha512"] = (oracle.digest("sha512", data) + " inventory.json\n").encode()
        return t
    out["no-declaration"] = {p: d for p, d in good.items() if not p.startswith("0=")}
    out["two-declarations"] = dict(good, **{"0=ocfl_object_1.0": b"ocfl_object_1.0\n"})
    out["bad-declaration"] = dict(good, **{"0=ocfl_object_1.1": b"other\n"})
    out["no-inventory"] = {p: d for p, d in good.items() if p != "inventory.json"}
    out["no-sidecar"] = {p: d for p, d in good.items() if p != "inventory.json.sha512"}
    out["bad-sidecar"] = dict(good, **{"inventory.json.sha512": b"0" * 128 + b" inventory.json\n"})
    out["changed-inventory"] = dict(good, **{"inventory.json": good["inventory.json"].replace(b"msg 1", b"msg 7")})
    out["not-json"] = dict(good, **{"inventory.json": b"{"})
    out["head-wrong"] = inv_change(lambda i: i.update(head="v1"))
    out["no-head"] = inv_change(lambda i: i.pop("head"))
    out["no-v1"] = inv_change(lambda i: i["versions"].pop("v1"))
    out["bad-path"] = inv_change(lambda i: i["versions"]["v2"]["state"].update({list(i["versions"]["v2"]["state"])[0]: ["../x"]}))
    out["extra-file"] = dict(good, **{"extra": b"x"})
    out["extra-content"] = dict(good, **{"v2/content/extra": b"x"})
    content = [p for p in good if "/content/" in p]
    out["content-missing"] = {p: d for p, d in good.items() if p != content[0]}
    out["extra-version"] = dict(good, **{"v3": None})
    out["extra-version-file"] = dict(good, **{"v3/content/x": b"x"})
    out["version-as-file"] = dict(good, **{"v3": b""})
    out["version-missing"] = {p: d for p, d in good.items() if not p.startswith("v1")}
    out["empty"] = {}
    out["md5"] = writer.write_object([STATES[2]], alg="md5")
    return out


UPDATES = [
    ["update", {}], ["update", {"digest": "sha256"}], ["update", {"fixity": ["md5"]}], ["update", {"fd": 0, "dd": 0}], ["meta", {}],
    ["edit", {}], ["edit", {"digest": "sha256", "fixity": ["md5", "sha1"]}],
]
# What makes an update of a good object one that has to be refused
BAD = [
    ["update", {"digest": "nonsense"}], ["update", {"digest": ""}], ["meta", {"digest": "SHA512"}], ["edit", {"digest": "md6"}],
    ["update", {"fixity": ["nonsense"]}], ["meta", {"fixity": ["md5", "x"]}],
    ["update", {"norm": "nonsense"}], ["update-no-source", {}], ["update-bad-created", {}], ["update-bad-user", {}], ["meta-bad-created", {}],
    ["update-source-conflict", {}],
]
TARGETS = ["empty-dir", "absent", "file", "file-inside", "dir-inside", "object", "root", "hidden", "no-parent"]
EXTRACT = ["head", "v1", "v2", "v3", "v0", "V1", "", "v01", "1", "v1/", "content", "../v1"]
BOUNDS = {
    "quick": "%d objects (1 good) x %d updates, %d bad updates of a good object, create/build with bad options, build with bad metadata of one of 3 versions, %d targets for create, build "
             "and extract, %d version names for extract, 5 operations on objects that are not there, each on a local and an in-memory filesystem" %
             (len(objects()), len(UPDATES), len(BAD), len(TARGETS), len(EXTRACT)),
    "thorough": "the same (complete at the quick tier) with each pair of updates in sequence",
}


def cases(tier):
    out = []
    for be in ("mcfs", "local"):
        for name in objects():
            for u in UPDATES:
                out.append([be, "update", name, u])
        for u in BAD:
            out.append([be, "badupdate", "good", u])
            if tier == "thorough":
                for v in UPDATES:
                    out.append([be, "badupdate", "good", u, v])
        for t in TARGETS:
            for op in ("create", "build"):
                for opts in ({}, {"norm": None}, {"fixity": ["md5"], "digest": "sha256"}):
                    out.append([be, "target", op, t, opts])
            for v in ("head", "v1"):
                out.append([be, "extract-target", t, v])
                out.append([be, "extract-file-target", t, v])
        for name in objects():
            for v in EXTRACT if name == "good" else ("head", "v1"):
                out.append([be, "extract-version", name, v])
        for op in ("create", "build"):
            for opts in ({"digest": "nonsense"}, {"norm": "nonsense"}, {"id": None}, {"spec": "9.9"}, {"cd": ".."}, {"cd": "a/b"},
                         {"src": "missing"}, {"src": "conflict"}, {"cd": ""}):
                out.append([be, "badnew", op, opts])
        for p in ("a", "b", "x", "", "d", "d/d", "d/d/c", "d/d/c/", "/a", "../a", "a/", "A"):
            out.append([be, "extract-path", p])
        for where in ("none", "none/deeper", "src/none", "src/n", "void"):
            out.append([be, "absent", where])
        # One version of those to be built has metadata that is not allowed
        for n in (1, 2, 3):
            for bad in ({"created": "yesterday"}, {"created": ""}, {"created": "2020-01-01T00:00:00Z", "address": "mailto:x@y"},
                        {"created": "2020-01-01T00:00:00Z", "name": ""}, {"created": "2020-01-01T00:00:00Z", "message": 7}):
                for opts in ({}, {"dd": 0, "fd": 0, "fixity": ["md5"]}):
                    for there in (0, 1):
                        out.append([be, "build-metadata", n, bad, opts, there])
    return out


def attempt(f):
    """(done, exception)"""
    import ocfl
    try:
        f()
        return True, None
    except (Exception,) as e:
        if isinstance(e, (AssertionError, NameError, UnboundLocalError)):
            raise
        return False, e


def update(be, kind, opts):
    obj = make_object(dict(DEFAULTS, **opts))
    src, m = be.url("src"), life.vmeta(life.METAS[0])
    if kind == "update-no-source":
        src = be.url("not-there")
    if kind == "update-source-conflict":
        # Both names have the same normalized content path, which is not a conflict, so done
        src = be.url("src2")
    if kind.endswith("bad-created"):
        m = life.vmeta({"created": "yesterday"})
    if kind == "update-bad-user":
        m = life.vmeta({"created": "2020-01-01T00:00:00Z", "address": "mailto:x@y"})
    if kind.startswith("meta"):
        return obj.add_version_with_content(objdir=be.url("obj"), metadata=m)
    if kind.startswith("update"):
        return obj.add_version_with_content(objdir=be.url("obj"), srcdir=src, metadata=m)
    nv = obj.start_new_version(objdir=be.url("obj"), srcdir=src, digest_algorithm=opts.get("digest"), fixity=opts.get("fixity"), metadata=m)
    nv.add("n", "new-name")
    return obj.write_new_version(nv)


def run(case, world, out):
    bename, kind = case[:2]
    be = backend(bename, world)
    key = "%s" % case
    be.put("src", {"n": b"new", "a": A})
    be.put("src2", {"%61": b"1", "b/c": b"2"})
    out.state(case[1:])
    if kind in ("update", "badupdate"):
        name, (op, opts) = case[2:4]
        be.put("obj", objects()[name])
        if len(case) > 4:
            update(be, *case[4])
        before = be.everything()
        done, e = attempt(lambda: update(be, op, opts))
        out.step()
        # Digests, including that of the inventory, are not promised to be checked before an update
        should = kind == "update" and name == "good" or op == "update-source-conflict"
        out.check(done == should or name == "bad-sidecar", key, lambda: "%s of %s object was %s (%s)" % (op, name, "done" if done else "refused", e))
        if not done:
            out.check(be.everything() == before, key, lambda: "refused %s of %s object changed files" % (op, name))
        out.done("done" if done else "refused")
        return
    states = [STATES[2], STATES[1]]
    if kind == "badnew":
        op, opts = case[2:]
        o = dict(DEFAULTS)
        o.update({k: v for k, v in opts.items() if k not in ("src", "id")})
        src = opts.get("src", "ok")
        be.put("ok", {"f": A} if op == "create" else {"v1/f": A, "v2/g": B})
        be.put("conflict", {"f": A} if op == "create" else {"v1/f": A, "v3/g": B})
        before = be.everything()
        obj = make_object(o, identifier=opts.get("id", "info:obj/1"))
        done, e = attempt(lambda: getattr(obj, op)(srcdir=be.url(src), objdir=be.url("obj"), **(
            {"metadata": life.vmeta(life.METAS[0])} if op == "create" else {})))
        out.step()
        out.check(done == (src == "conflict" and op == "create"), key, lambda: "%s with %s was %s" % (op, opts, "done" if done else "refused"))
        if not done:
            after = be.everything()
            left = set(before) ^ set(after)
            out.check(not left and all(after[p] == d for p, d in before.items()), key, lambda: "refused %s left %s" % (op, sorted(left)))
        out.done("done" if done else "refused")
        return
    be.put("good", writer.write_object(states))
    if kind in ("target", "extract-target", "extract-file-target"):
        t = case[2] if kind != "target" else case[3]
        local = kind != "target"
        tb = backend("local", world) if local else be
        tree = {"empty-dir": {}, "file": None, "file-inside": {"f": b"x"}, "dir-inside": {"d": None}, "hidden": {".h": b""},
                "object": writer.write_object([STATES[0]]), "root": {"0=ocfl_1.1": b"ocfl_1.1\n"}, "absent": None, "no-parent": None}[t]
        where = "p/t"
        if t != "no-parent":
            tb.put("p", {"other": b"o"})
        if t == "file":
            tb.put("p", {"t": b"file"})
        elif tree is not None:
            tb.put(where, tree)
        be.put("b", {"v1/n": b"new", "v2/n": b"newer"})
        before, tbefore = be.everything(), tb.everything()
        if kind == "target":
            op, opts = case[2], case[4]
            obj = make_object(dict(DEFAULTS, **opts))
            done, e = attempt(lambda: obj.create(srcdir=be.url("src"), metadata=meta(1), objdir=be.url(where)) if op == "create" else
                              obj.build(srcdir=be.url("b"), objdir=be.url(where)))
            should = t in ("absent", "empty-dir") or (t == "no-parent" and bename == "mcfs")
            # A missing parent may or may not be made
            ok = done == should or t == "no-parent"
        elif kind == "extract-target":
            done, e = attempt(lambda: make_object(DEFAULTS).extract(objdir=be.url("good"), version=case[3], dstdir=world.path(where)))
            ok = done == (t in ("absent", "empty-dir"))
        else:
            done, e = attempt(lambda: make_object(DEFAULTS).extract_file(objdir=be.url("good"), version=case[3], dstdir=world.path(where),
                                                                        logical_path="a" if case[3] == "v1" else "d/b"))
            ok = done == (t not in ("file", "no-parent")) or t == "no-parent"
        out.step()
        out.check(ok, key, lambda: "%s with target %s was %s (%s)" % (kind, t, "done" if done else "refused", e))
        after, tafter = be.everything(), tb.everything()
        # Whatever happens, nothing there is changed or removed
        for b, x in ((before, after), (tbefore, tafter)):
            lost = [p for p in b if x.get(p, 0) != b[p]]
            out.check(not lost, key, lambda: "%s with target %s changed or removed %s" % (kind, t, lost))
            if not done:
                new = [p for p in x if p not in b]
                out.check(not new, key, lambda: "refused %s with target %s left %s" % (kind, t, new))
        out.done("done" if done else "refused")
        return
    if kind == "build-metadata":
        n, bad, opts, there = case[2:]
        be.put("b", {"v1/f": A, "v2/g": B, "v3/f": B, "v3/h": A})
        if there:
            be.put("obj", {})
        before = be.everything()
        vm = {i: life.vmeta(bad if i == n else life.METAS[0]) for i in (1, 2, 3)}
        done, e = attempt(lambda: make_object(dict(DEFAULTS, **opts)).build(srcdir=be.url("b"), versions_metadata=vm, objdir=be.url("obj")))
        out.step()
        # An empty created or name may stand for one that is not given, what is written is then for other checks
        soft = "" in bad.values()
        out.check(not done or soft, key, lambda: "build with metadata %s of version %d was done" % (bad, n))
        if not done:
            out.check(be.everything() == before, key, lambda: "refused build left %s" % sorted(set(before) ^ set(be.everything())))
        out.done("done" if done else "refused")
        return
    if kind == "absent":
        where = case[2]
        be.put("void", {})
        for op in ("extract", "extract_file", "update", "meta", "edit"):
            def f():
                o = make_object(DEFAULTS)
                if op == "extract":
                    o.extract(objdir=be.url(where), version="head", dstdir=world.path("out"))
                elif op == "extract_file":
                    o.extract_file(objdir=be.url(where), version="v1", logical_path="a", dstdir=world.path("out"))
                elif op == "edit":
                    o.write_new_version(o.start_new_version(objdir=be.url(where), srcdir=be.url("src"), metadata=meta(1)))
                else:
                    o.add_version_with_content(objdir=be.url(where), srcdir=be.url("src") if op == "update" else None, metadata=meta(1))
            before = be.everything()
            done, e = attempt(f)
            out.step()
            out.check(not done, "%s:%s" % (key, op), "%s of an object that is not there was done" % op)
            out.check(be.everything() == before and not os.path.lexists(world.path("out")), "%s:%s" % (key, op), lambda: "refused %s of what is not there left %s" % (
                op, sorted(set(before) ^ set(be.everything()))))
            out.done("done" if done else "refused")
        return
    tb = backend("local", world) if bename == "local" else None
    if kind == "extract-version":
        name, v = case[2:]
        be.put("obj", objects()[name])
        before = be.everything()
        done, e = attempt(lambda: make_object(DEFAULTS).extract(objdir=be.url("obj"), version=v, dstdir=world.path("out")))
        out.step()
        if name == "good":
            out.check(done == (v in ("head", "v1", "v2")), key, lambda: "extract of version %r was %s" % (v, "done" if done else "refused"))
        elif name in ("no-inventory", "not-json", "empty", "no-head", "no-v1", "head-wrong", "bad-path", "md5"):
            out.check(not done, key, lambda: "extract of version %r of %s was done" % (v, name))
        if not done and name not in ("content-missing", "version-missing"):
            out.check(not os.path.lexists(world.path("out")), key, "refused extract left something")
        if bename == "mcfs":
            out.check(be.everything() == before, key, "extract changed the object")
        else:
            out.check(be.get("obj") == objects_tree(name), key, "extract changed the object")
        out.done("done" if done else "refused")
        return
    if kind == "extract-path":
        p = case[2]
        done, e = attempt(lambda: make_object(DEFAULTS).extract_file(objdir=be.url("good"), version="v1", dstdir=world.path("out"), logical_path=p))
        out.step()
        out.check(done == (p in STATES[2]), key, lambda: "extract_file of %r was %s" % (p, "done" if done else "refused"))
        if not done:
            out.check(not os.path.lexists(world.path("out")), key, "refused extract_file left something")
        out.done("done" if done else "refused")


def objects_tree(name):
    from mc.lib import with_dirs
    return with_dirs(objects()[name])
