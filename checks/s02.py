"""S02: a storage root is used with the layout and configuration it was created with, and bad ones are refused."""
import argparse
import json

from mc import oracle, writer
from mc.lib import STATES, Memory, backend

from . import s01, v03
from .v04 import quiet, script

PROPERTY = "S02"
LEVEL = "model_checking"
RULE = ("An execution is the creation of one storage root with one layout and configuration, by one route, followed by opening it again and comparing paths for identifiers with "
        "those of an independent definition; or an attempt with a bad configuration, which has to be refused with nothing created")
ASSUMPTIONS = ["Values outside those listed behave like those in them"]
LAYOUTS = ["0002-flat-direct-storage-layout", "0002", "flat-direct", "0003-hash-and-id-n-tuple-storage-layout", "0003", "nnnn-flat-quoted-storage-layout", "flat-quoted",
           "nnnn-tuple-tree-layout", "nnnn-tuple-tree", "nnnn-uuid-quadtree"]
NUMBERS = [None, True, 0, 1, 2, 3, 6, 7, 16, 32, 33, -1, 1.5, "3", []]
ALGS = [None, "md5", "sha1", "sha256", "sha512", "SHA256", "", 1, ["sha256"]]
PREFIXES = [None, "urn:uuid:", "x", "", 1, "\u00e9", "/"]
IDS = ["a", "info:a/b", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "x6ba7b810-9dad-11d1-80b4-00c04fd430c8", "\u00e96ba7b810-9dad-11d1-80b4-00c04fd430c8",
       "/6ba7b810-9dad-11d1-80b4-00c04fd430c8", "\u00e9" * 40, ".", "..", ""]
BOUNDS = {
    "quick": "%d names of layouts x all configurations (%d digest algorithms x %d x %d numbers; %d prefixes) x with and without extensionName, x 2 versions of the specification; "
             "4 routes for a selection; another layout given when the root is opened; %d configurations written by others" % (len(LAYOUTS), len(ALGS), len(NUMBERS), len(NUMBERS), len(PREFIXES), 19),
    "thorough": "the same with all routes for all configurations",
}


def configs(name):
    """All configurations, None for none given."""
    yield None
    yield {}
    if name.startswith("0003"):
        for a in ALGS:
            for t in NUMBERS:
                for n in NUMBERS:
                    yield {k: v for k, v in (("digestAlgorithm", a), ("tupleSize", t), ("numberOfTuples", n)) if v is not None}
        yield {"digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 2, "other": 1}
    elif "tuple" in name:
        for t in NUMBERS:
            yield {} if t is None else {"tupleSize": t}
    elif "uuid" in name:
        for p in PREFIXES:
            yield {} if p is None else {"prefix": p}
    else:
        yield {"other": 1}


def canonical(name):
    return {"0002": "0002-flat-direct-storage-layout", "flat-direct": "0002-flat-direct-storage-layout", "0003": "0003-hash-and-id-n-tuple-storage-layout",
            "flat-quoted": "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree": "nnnn-tuple-tree-layout"}.get(name, name)


def definition(name, config):
    c = config or {}
    name = canonical(name)
    if name.startswith("0002"):
        return s01.flat
    if name.startswith("0003"):
        return lambda i: s01.hashed(i, c.get("digestAlgorithm", "sha256"), c.get("tupleSize", 3), c.get("numberOfTuples", 3))
    if name.startswith("nnnn-flat"):
        return s01.quoted
    if name.startswith("nnnn-tuple"):
        return s01.tupled(c.get("tupleSize", 2))

    def uuid(i):
        p = c.get("prefix", "urn:uuid:")
        if not i.startswith(p) or len(i) != len(p) + 36:
            return None
        h = i[len(p):].replace("-", "")
        return "/".join(h[k:k + 4] for k in range(0, 32, 4))
    return uuid


def cases(tier):
    out = []
    for name in LAYOUTS:
        n = len(list(configs(name)))
        step = 60
        for lo in range(0, n, step):
            out.append(["create", name, lo, lo + step, tier])
    out += [["open", a, b] for a in LAYOUTS + [None] for b in LAYOUTS + [None, "unknown"]]
    out += [["refused"], ["spec"], ["config"]]
    return out


def run(case, world, out):
    {"create": run_create, "open": run_open, "refused": run_refused, "spec": run_spec, "config": run_config}[case[0]](case, world, out)


def paths_of(store):
    from ocfl.layout import LayoutException
    out = []
    for i in IDS:
        try:
            out.append(store.object_path(i))
        except LayoutException:
            out.append(None)
    return out


def run_create(case, world, out):
    import ocfl
    _, name, lo, hi, tier = case
    canon = canonical(name)
    for n, config in enumerate(configs(name)):
        if not lo <= n < hi:
            continue
        for with_name in (False, True, "wrong") if config is not None else (False,):
            c = dict(config, extensionName=canon if with_name is True else "wrong") if with_name else config
            good = c is None or (with_name != "wrong" and v03.config_ok(canon, c))
            routes = ["library"] if tier == "quick" and n % 25 else ["library", "local", "cli"]
            for route in routes:
                key = "%s:%s:%s" % (name, json.dumps(c), route)
                be = backend("local" if route != "library" else "mcfs", world)
                if route != "library":
                    world.fresh()
                be.put("in", {})
                params = None if c is None else json.dumps(c)
                done = True
                try:
                    if route == "cli":
                        args = argparse.Namespace(cmd="create", root=be.url("in/root"), layout=name, lax_digests=False, spec_version="1.1", layout_params=params)
                        quiet(lambda: script("ocfl-root.py").do_store_operation(args))
                    else:
                        ocfl.StorageRoot(root=be.url("in/root"), layout_name=name).initialize(layout_params=params)
                except Exception as e:
                    if not type(e).__module__.startswith("ocfl"):
                        raise
                    done = False
                out.step()
                out.done("created" if done else "refused")
                if good is None:
                    continue
                out.check(done == good, key, lambda: "creation of root with layout %s and %s was %s" % (name, c, "done" if done else "refused"))
                if not done:
                    out.check(not be.exists("in/root"), key, "root created by a call that was refused")
                    continue
                tree = be.get("in/root")
                layout = json.loads(tree["ocfl_layout.json"])
                out.check(layout["extension"] == canon and isinstance(layout["description"], str), key, "layout file has %s" % layout)
                allowed = {"0=ocfl_1.1", "ocfl_layout.json", "extensions", "extensions/" + canon, "extensions/%s/config.json" % canon}
                out.check(set(tree) <= allowed and tree["0=ocfl_1.1"] == b"ocfl_1.1\n", key, "root has %s" % sorted(tree))
                if c and "extensions/%s/config.json" % canon in tree:
                    written = json.loads(tree["extensions/%s/config.json" % canon])
                    out.check(written.get("extensionName") == canon and all(written.get(k) == v for k, v in c.items() if k != "other"), key, "configuration written is %s" % written)
                again = ocfl.StorageRoot(root=be.url("in/root"))
                f = definition(name, c)
                want = [f(i) for i in IDS]
                got = paths_of(again)
                out.check(got == want, key, lambda: "paths are %s with the root opened again, should be %s" % (got, want))
                out.check(again.layout_name == canon and again.spec_version == "1.1", key, "layout and version read are %s %s" % (again.layout_name, again.spec_version))
                out.check(ocfl.StorageRoot(root=be.url("in/root")).validate() is True, key, "new storage root is not valid")
                out.state((canon, json.dumps(c)))


def run_open(case, world, out):
    """The layout declared in the root is the one used, whatever was asked for."""
    import ocfl
    _, declared, asked = case
    be = Memory()
    be.put("in", {})
    ocfl.StorageRoot(root=be.url("in/root"), layout_name=declared).initialize()
    be.put("obj", writer.write_object([STATES[0]], identifier=IDS[2]))
    store = ocfl.StorageRoot(root=be.url("in/root"), layout_name=asked)
    key = "%s" % case
    effective = declared or (asked if asked != "unknown" else None)
    try:
        identifier, path = store.add(be.url("obj"))
    except Exception as e:
        out.check(effective is None, key, lambda: "add refused: %s" % e)
        out.check(sorted(p for p in be.get("in/root") if "/" in p or not p.startswith(("0=", "ocfl_layout", "extensions"))) == [p for p in be.get("in/root") if p.startswith("extensions/")],
                  key, "add that was refused has effects")
        out.done("refused")
        return
    out.step()
    out.done("added")
    want = definition(effective, None)(IDS[2]) if effective else None
    # The same instance used for a path before it is used to add
    if asked != "unknown":
        be.put("in", {})
        ocfl.StorageRoot(root=be.url("in/root2"), layout_name=declared).initialize()
        store = ocfl.StorageRoot(root=be.url("in/root2"), layout_name=asked)
        store.object_path(IDS[2])
        again = store.add(be.url("obj"))
        out.check(again == (IDS[2], want), key, lambda: "added at %s with layout %s declared and %s asked for, after use of the instance for a path" % (again[1], declared, asked))
    out.check(path == want and identifier == IDS[2], key, lambda: "added at %s with layout %s declared and %s asked for" % (path, declared, asked))
    out.check(be.get("in/root/" + path) == be.get("obj"), key, "object added is not the same")
    out.check([p for p, _ in ocfl.StorageRoot(root=be.url("in/root")).list_objects()] == [path], key, "object added is not listed")
    out.state(case)


def run_refused(case, world, out):
    import ocfl
    for bename in ("mcfs", "local"):
        world.fresh()
        be = backend(bename, world)
        be.put("there", {"file": b"x"})
        be.put("empty", {})
        be.put("in", {})
        before = be.everything()
        for rel, kw, init in (("there", {}, {}), ("empty", {}, {}), ("there/file", {}, {}), ("none/root", {}, {}), ("in/root", {"layout_name": "unknown"}, {}), ("in/root", {"layout_name": ""}, {}),
                              ("in/root", {"spec_version": "2.0"}, {}), ("in/root", {}, {"spec_version": "0.9"}), ("in/root", {"layout_name": "0003"}, {"layout_params": "{"}),
                              ("in/root", {"layout_name": "0003"}, {"layout_params": "[]"}), ("in/root", {"layout_name": "0002"}, {"layout_params": "1"})):
            if bename == "mcfs" and rel == "none/root":
                continue  # parent directories are created on filesystems other than the local one
            key = "refused:%s:%s:%s:%s" % (bename, rel, kw, init)
            try:
                ocfl.StorageRoot(root=be.url(rel), **kw).initialize(**init)
                out.violation(key, "not refused")
            except Exception as e:
                out.check(isinstance(e, OSError) or type(e).__module__.startswith("ocfl") or type(e) is Exception, key, "ended with %s" % type(e).__name__)
            out.step()
            out.done("refused")
            out.check(be.everything() == before, key, lambda: "refused creation of root has effects %s" % sorted(set(be.everything()) ^ set(before)))
            out.state(key)


CONFIGS = [b"{}", b"[]", b"null", b"", b"{", b"0", b'""', b'"x"', b'{"tupleSize": 2}', b'{"extensionName": "%s"}', b'{"extensionName": "other"}', b'{"extensionName": null}', b'{"extensionName": ["%s"]}',
           b'{"extensionname": "%s"}', b"\xff", None, "dir",
           b'{"extensionName": "%s", "tupleSize": 2, "numberOfTuples": 3, "digestAlgorithm": "md5", "prefix": "x"}', b'{"tupleSize": 2, "numberOfTuples": 3, "digestAlgorithm": "md5", "prefix": "x"}']


def run_config(case, world, out):
    """Roots whose layout has a configuration written by others."""
    import ocfl
    for canon in sorted({canonical(n) for n in LAYOUTS}):
        for c in CONFIGS:
            for bename in ("mcfs", "local"):
                world.fresh()
                be = backend(bename, world)
                data = c.replace(b"%s", canon.encode()) if isinstance(c, bytes) else c
                tree = {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": json.dumps({"extension": canon, "description": "d"}).encode()}
                where = "extensions/%s/config.json" % canon
                if c is None:
                    tree["extensions/%s" % canon] = None
                elif c == "dir":
                    tree[where] = None
                else:
                    tree[where] = data
                be.put("r", tree)
                key = "config:%s:%s:%s" % (bename, canon, c)
                try:
                    parsed = json.loads(data) if isinstance(data, bytes) else None
                except ValueError:
                    parsed = None
                good = c is None or (isinstance(parsed, dict) and parsed.get("extensionName") == canon and v03.config_ok(canon, parsed))
                identifier = "abcd" if "uuid" not in canon else IDS[2] if c is None else IDS[3]
                before = be.everything()
                got = ocfl.StorageRoot(root=be.url("r")).validate()
                out.step()
                out.state(key)
                out.done("config valid" if got else "config invalid")
                if c != "dir":
                    out.check(got == good, key, lambda: "root with configuration %r is reported %s" % (c, got))
                try:
                    path = ocfl.StorageRoot(root=be.url("r"))
                    path.open_root_fs()
                    path.check_root_structure()
                    path = path.object_path(identifier)
                except Exception as e:
                    if not type(e).__module__.startswith("ocfl") and not isinstance(e, OSError):
                        raise
                    path = None
                if c != "dir":
                    out.check((path is not None) == good, key, lambda: "path in a root with configuration %r is %s" % (c, path))
                    if good:
                        out.check(path == definition(canon, parsed)(identifier), key, lambda: "path is %s" % path)
                out.check(be.everything() == before, key, "something was changed")


def run_spec(case, world, out):
    import ocfl
    for given in (None, "1.0", "1.1"):
        for at in (None, "1.0", "1.1"):
            for layout in (None, "0003"):
                be = Memory()
                be.put("in", {})
                key = "spec:%s:%s:%s" % (given, at, layout)
                ocfl.StorageRoot(root=be.url("in/root"), layout_name=layout, spec_version=given).initialize(spec_version=at)
                want = at or given or "1.1"
                tree = be.get("in/root")
                out.step()
                out.done("spec " + want)
                out.state(key)
                out.check([p for p in tree if p.startswith("0=")] == ["0=ocfl_" + want] and tree["0=ocfl_" + want] == b"ocfl_" + want.encode() + b"\n", key, "declarations %s" % sorted(tree))
                for expect in (None, "1.0", "1.1"):
                    store = ocfl.StorageRoot(root=be.url("in/root"), spec_version=expect)
                    ok = store.validate()
                    out.check(ok == (expect in (None, want)), key, "root of %s expected to be %s reported %s" % (want, expect, ok))
                    if ok:
                        out.check(store.spec_version == want, key, "specification version is %s" % store.spec_version)
