"""L12: every operation writes only where it is meant to; reading operations write nothing at all."""
import contextlib
import io
import os
import posixpath

from mc import life, mcfs, writer
from mc.lib import A, B, DEFAULTS, STATES, Memory, backend, jdump, make_object, meta, read_tree

from . import l10

PROPERTY = "L12"
LEVEL = "model_checking"
RULE = ("An execution is one operation on one object, or on one storage root, whose every primitive effect on the filesystem is recorded by "
        "the instrumented filesystem and has to be under the paths the operation is meant to write; also compared on the local filesystem")
ASSUMPTIONS = ["Effects outside the filesystems that are monitored are not covered"]


def ops():
    """name -> (function of url for a path, allowed prefixes)."""
    import ocfl
    from ocfl.namaste import find_namastes
    from ocfl.fsw import fsw_openfs, fsw_walk_files

    def lax(f):
        return lambda u, w: [f(u, w, make_object({}, lax_digests=x)) for x in (False, True)]

    def new_version(u, w, o):
        nv = o.start_new_version(objdir=u("obj"), srcdir=u("src"), digest_algorithm="sha256", fixity=["md5", "sha1"])
        nv.add("n", "new")
        nv.delete(nv.inventory.current_version.logical_paths[0])
        nv.diff_with_previous()
        return nv
    S = ocfl.StorageRoot
    out = {
        "validate": (lax(lambda u, w, o: [o.validate(objdir=u("obj"), check_digests=c, log_warnings=c) for c in (True, False)]), []),
        "validate_inventory": (lax(lambda u, w, o: o.validate_inventory(u("obj") + "/inventory.json")), []),
        "extract": (lax(lambda u, w, o: o.extract(objdir=u("obj"), version="head", dstdir=w.path("out%d" % id(o)))), ["LOCAL"]),
        "extract1": (lax(lambda u, w, o: o.extract(objdir=u("obj"), version="v1", dstdir=w.path("out%d" % id(o)))), ["LOCAL"]),
        "extract_file": (lax(lambda u, w, o: o.extract_file(objdir=u("obj"), version="v1", logical_path="a", dstdir=w.path("out%d" % id(o)))), ["LOCAL"]),
        "tree": (lax(lambda u, w, o: o.tree(u("obj"))), []),
        "parse_inventory": (lax(lambda u, w, o: (o.open_obj_fs(u("obj")), o.parse_inventory())), []),
        "id_from_inventory": (lax(lambda u, w, o: (o.open_obj_fs(u("obj")), o.id_from_inventory())), []),
        "new_version_unwritten": (lax(new_version), []),
        "update_aborted": (lax(lambda u, w, o: o.add_version_with_content(objdir=u("obj"), metadata=meta(1), abort_if_no_difference=True)), []),
        "create_dry": (lax(lambda u, w, o: o.create(srcdir=u("src"))), []),
        "build_dry": (lax(lambda u, w, o: o.build(srcdir=u("bsrc"))), []),
        "find_path_type": (lambda u, w: [ocfl.find_path_type(u(p)) for p in ("obj", "root", "obj/inventory.json", "none", "none/none")], []),
        "find_namastes": (lambda u, w: [n.content_ok(fsw=fsw_openfs(u("obj"))) for n in find_namastes(0, fsw=fsw_openfs(u("obj")))], []),
        "walk": (lambda u, w: fsw_walk_files(fsw_openfs(u("obj"))), []),
        "root_list": (lambda u, w: list(S(root=u("root")).list_objects()), []),
        "root_validate": (lambda u, w: [S(root=u("root")).validate(validate_objects=x, check_digests=x) for x in (True, False)], []),
        "root_path": (lambda u, w: S(root=u("root")).object_path("some:id/x"), []),
        "create": (lambda u, w: make_object({}).create(srcdir=u("src"), metadata=meta(1), objdir=u("new")), ["new"]),
        "build": (lambda u, w: make_object({}).build(srcdir=u("bsrc"), objdir=u("new")), ["new"]),
        "update": (lambda u, w: make_object({}).add_version_with_content(objdir=u("obj"), srcdir=u("src"), metadata=meta(1)),
                   ["obj/HEAD", "obj/inventory.json", "obj/inventory.json.sha512"]),
        "update_digest": (lambda u, w: make_object({"digest": "sha256", "fixity": ["md5"]}).add_version_with_content(objdir=u("obj"), srcdir=u("src"), metadata=meta(1)),
                          ["obj/HEAD", "obj/inventory.json", "obj/inventory.json.sha512", "obj/inventory.json.sha256"]),
        "meta": (lambda u, w: make_object({}).add_version_with_content(objdir=u("obj"), metadata=meta(1)),
                 ["obj/HEAD", "obj/inventory.json", "obj/inventory.json.sha512"]),
        "root_add": (lambda u, w: S(root=u("root")).add(u("obj")), ["root/info%3Aobj%2F1", "root/info:obj"]),
        "root_create": (lambda u, w: S(root=u("newroot"), layout_name="0002-flat-direct-storage-layout").initialize(), ["newroot"]),
        "sidecar": (lambda u, w: make_object({}, path=u("obj")).write_inventory_sidecar(), ["obj/inventory.json.sha512"]),
    }
    return out


OBJECTS = sorted(l10.objects()) + ["fixity", "padded"]
NAMES = ["validate", "validate_inventory", "extract", "extract1", "extract_file", "tree", "parse_inventory", "id_from_inventory",
         "new_version_unwritten", "update_aborted", "create_dry", "build_dry", "find_path_type", "find_namastes", "walk", "root_list",
         "root_validate", "root_path", "create", "build", "update", "update_digest", "meta", "root_add", "root_create", "sidecar"]
BOUNDS = {
    "quick": "%d operations x %d objects (most of them invalid), on an in-memory and a local filesystem; the operations on objects and roots that are not there, in %d places, with and without a slash after the path" % (len(NAMES), len(OBJECTS), 5),
    "thorough": "the same, and every pair of operations one after the other on the in-memory filesystem",
}
ABSENT = ["none", "none/deeper", "src/none", "src/f", "empty"]


def cases(tier):
    out = [[be, name, [op]] for be in ("mcfs", "local") for name in OBJECTS for op in NAMES]
    # Where nothing is: operations that need something there have no effect
    out += [["absent", be, where, slash] for be in ("mcfs", "local") for where in ABSENT for slash in ("", "/")]
    if tier == "thorough":
        out += [["mcfs", name, [a, b]] for name in OBJECTS for a in NAMES for b in NAMES]
    return out


def the_object(name):
    if name == "fixity":
        return writer.write_object([STATES[2], STATES[1]], fixity=["md5"], extras=["logs", "extensions", "vdir"])
    if name == "padded":
        return writer.write_object([STATES[2], STATES[1], STATES[0]], pad=3)
    return l10.objects()[name]


def run_absent(case, world, out):
    """Operations on what is not there have no effects, whatever they answer."""
    _, bename, where, slash = case
    for op, (f, _) in ops().items():
        if op in ("create", "build", "root_create", "create_dry", "build_dry", "sidecar"):
            continue  # for sidecar the directory is documented to be made if it isn't there
        world.fresh()
        be = backend(bename, world)
        be.put("src", {"n": b"new", "f": b"file"})
        be.put("empty", {})

        def url(rel):
            return be.url(where + "/" + rel) + slash if rel.split("/")[0] in ("obj", "root") else be.url(rel)
        before, local = be.everything(), read_tree(world.dir)
        if bename == "mcfs":
            mcfs.STORE.log, mcfs.STORE.logging = [], True
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(url, world)
            out.done(op)
        except (AssertionError, NameError, TypeError, AttributeError, IndexError):
            raise
        except Exception:
            out.done("refused " + op)
        mcfs.STORE.logging = False
        out.step()
        out.state((bename, where, op))
        changed = [p for t, u in ((before, be.everything()), (local, read_tree(world.dir))) for p in set(t) | set(u) if t.get(p, 0) != u.get(p, 0)]
        out.check(not changed and not (bename == "mcfs" and mcfs.STORE.log), "absent:%s:%s%s:%s" % (bename, where, slash, op), lambda: "%s on what is not there wrote %s" % (op, changed))


def run(case, world, out):
    if case[0] == "absent":
        run_absent(case, world, out)
        return
    bename, name, seq = case
    key = "%s" % case
    be = backend(bename, world)
    be.put("obj", the_object(name))
    be.put("src", {"n": b"new", "a": A})
    be.put("bsrc", {"v1/n": b"new", "v2/n": b"newer", "other/x": A})
    be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": jdump({"extension": "nnnn-flat-quoted-storage-layout", "description": "d"}),
                    "x/y/empty": None, "f": b""})
    be.put("root/one", writer.write_object([STATES[0]], identifier="one"))
    be.put("root/bad", the_object(name))
    table = ops()
    for done, op in enumerate(seq):
        f, allowed = table[op]
        if op in ("update", "meta") and "update_digest" in seq[:done]:
            allowed = allowed + ["obj/inventory.json.sha256"]  # the object keeps its digest algorithm
        before = be.everything()
        if bename == "mcfs":
            mcfs.STORE.log, mcfs.STORE.logging = [], True
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(be.url, world)
            out.done(op)
        except (AssertionError, NameError, TypeError, AttributeError, IndexError):
            raise
        except Exception:
            out.done("refused " + op)
        out.step()
        after = be.everything()
        changed = {p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)}
        if bename == "mcfs":
            mcfs.STORE.logging = False
            for e in mcfs.STORE.log:
                changed.add(e[1])
                if e[0] == "rename":
                    changed.add(e[2])
        else:
            changed = {p for p in changed if not p.startswith("out")}
        # The version directory that an update may make is one that was not there
        allow = []
        for a in allowed:
            if a == "obj/HEAD":
                allow += [p for p in changed if p not in before and posixpath.dirname(p) == "obj" and posixpath.basename(p)[0] == "v"]
            else:
                allow.append(a)
        wrong = sorted(p for p in changed if not any(p == a or p.startswith(a + "/") for a in allow))
        out.check(not wrong, key, lambda: "%s on %s wrote %s" % (op, name, wrong))
        out.state((name, op, sorted(after.items(), key=str)))
    out.sample = {"op": seq, "object": name, "changed": sorted(changed)[:6]}
