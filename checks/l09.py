"""L09: version metadata given by any route is what is recorded and given back."""
import contextlib
import io
import itertools
import json
import os
import runpy
import sys

from mc import core, life, oracle
from mc.lib import A, B, Memory, make_object, validate

PROPERTY = "L09"
LEVEL = "model_checking"
RULE = ("An execution is one version written with one combination of metadata values by one route, whose inventory block (root and version "
        "copies) and the metadata given back by extract, extract_file and VersionMetadata are compared with what was given")
ASSUMPTIONS = ["Values outside the alphabet behave like those in it"]
CREATED = [None, "2020-01-02T03:04:05Z", "1999-12-31T23:59:59.999999+14:00", "2024-02-29T00:00:00-00:30"]
MESSAGE = [None, "", "text", "two\nlines \u00e9 \u540d \U0001f600 \"q\" \\ \t"]
NAME = [None, "N", "\u00e9 O'Neil <x>"]
ADDRESS = [None, "mailto:a@example.org", "not a uri", "https://example.org/\u540d?x=1#f"]
ROUTES = ["create", "update", "meta", "build", "edit-arg", "edit-set", "edit-reset", "first-set"]
CLI = ["cli-create", "cli-update", "cli-build"]
BOUNDS = {
    "quick": "all %d combinations of 4 created, 4 message, 3 name and 4 address values x %d library routes, and 54 combinations x 3 command line routes" %
             (4 * 4 * 3 * 4, len(ROUTES)),
    "thorough": "all combinations of values x all library and command line routes, each also with different metadata in the version before",
}


def cases(tier):
    out = []
    for c, m, n, a in itertools.product(range(4), range(4), range(3), range(4)):
        for route in ROUTES:
            out.append([route, c, m, n, a])
        if tier == "thorough" or (c in (0, 1, 2) and m != 2 and a in (0, 1, 3) and n != 1):
            for route in CLI:
                out.append([route, c, m, n, a])
    return out


def cli(script, *args):
    """Run a command line script in this process, return (exit status, stdout)."""
    argv, sys.argv = sys.argv, [script] + list(args)
    stdout = io.StringIO()
    try:
        with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(core.REPO, script), run_name="__main__")
        status = 0
    except SystemExit as e:
        status = e.code or 0
    finally:
        sys.argv = argv
    return status, stdout.getvalue()


def set_all(nv, given):
    for name, k in (("created", "created"), ("message", "message"), ("user_name", "name"), ("user_address", "address")):
        if given[k] is not None:
            setattr(nv, name, given[k])


def run(case, world, out):
    import ocfl
    route, c, m, n, a = case
    given = {"created": CREATED[c], "message": MESSAGE[m], "name": NAME[n], "address": ADDRESS[a]}
    key = "%s" % case
    setting = given
    if route == "edit-reset":
        given = {k: v if v is not None else life.METAS[0][k] for k, v in given.items()}
    # An address alone can't be recorded, as a user block must have a name
    bad = given["address"] is not None and given["name"] is None
    be = Memory()
    be.put("s1", {"f": A})
    be.put("s2", {"f": B})
    v1meta = life.METAS[0]
    args = [x for k, v in given.items() if v is not None for x in ("--%s=%s" % (k, v),)]
    local = route.startswith("cli")
    first = route in ("create", "first-set", "cli-create")
    obj = make_object({})
    status = None
    try:
        if route == "create":
            obj.create(srcdir=be.url("s1"), metadata=life.vmeta(given), objdir=be.url("obj"))
        elif route == "build":
            be.put("b/v1", {"f": A})
            be.put("b/v2", {"f": B})
            obj.build(srcdir=be.url("b"), versions_metadata={1: life.vmeta(v1meta), 2: life.vmeta(given)}, objdir=be.url("obj"))
        elif route == "first-set":
            nv = ocfl.NewVersion.first_version(identifier="info:obj/1", srcdir=be.url("s1"))
            set_all(nv, given)
            nv.add("f", "f")
            got = nv.inventory.data["versions"]["v1"]
            out.check((nv.created, nv.message, nv.user_name, nv.user_address) == tuple(given.values()), key, "setters and getters do not agree")
        elif local:
            from mc.tree import write_tree
            write_tree(world.path("s1"), {"f": A})
            write_tree(world.path("s2"), {"f": B})
            if route == "cli-build":
                write_tree(world.path("b"), {"v1/f": A, "v2/f": B})
                blocks = {}
                for v, d in (("v1", v1meta), ("v2", given)):
                    block = {k: d[k] for k in ("created", "message") if d.get(k) is not None}
                    user = {k: d[k] for k in ("name", "address") if d.get(k) is not None}
                    if user:
                        block["user"] = user
                    blocks[v] = block
                with open(world.path("m.json"), "w", encoding="utf-8") as fh:
                    json.dump({"head": "v2", "versions": blocks}, fh)
                status, text = cli("ocfl-object.py", "build", "--id=info:obj/1", "--src=" + world.path("b"), "--obj=" + world.path("obj"),
                                   "--metadata=" + world.path("m.json"))
            elif route == "cli-create":
                status, text = cli("ocfl-object.py", "create", "--id=info:obj/1", "--src=" + world.path("s1"), "--obj=" + world.path("obj"), *args)
            else:
                make_object({}).create(srcdir=world.path("s1"), metadata=life.vmeta(v1meta), objdir=world.path("obj"))
                status, text = cli("ocfl-object.py", "update", "--src=" + world.path("s2"), "--obj=" + world.path("obj"), *args)
            if status != 0:
                raise ocfl.ObjectException("exit status")
        else:
            obj.create(srcdir=be.url("s1"), metadata=life.vmeta(v1meta), objdir=be.url("obj"))
            if route == "update":
                obj.add_version_with_content(objdir=be.url("obj"), srcdir=be.url("s2"), metadata=life.vmeta(given))
            elif route == "meta":
                obj.add_version_with_content(objdir=be.url("obj"), metadata=life.vmeta(given))
            else:
                start = {"edit-arg": life.vmeta(given), "edit-set": None, "edit-reset": life.vmeta(v1meta)}[route]
                nv = obj.start_new_version(objdir=be.url("obj"), srcdir=be.url("s2"), metadata=start)
                nv.add("f", "g")
                if route != "edit-arg":
                    set_all(nv, setting)
                obj.write_new_version(nv)
        done = True
    except Exception as e:
        if not type(e).__module__.startswith("ocfl"):
            raise
        done = False
    out.step()
    if route != "first-set":
        out.check(done != bad, key, lambda: "%s with %s was %s" % (route, given, "done" if done else "refused"))
        if bad or not done:
            out.done("refused")
            return
        from mc.tree import read_tree
        tree = read_tree(world.path("obj")) if local else be.get("obj")
        vdir = "v1" if first else "v2"
        inv = oracle.load(tree["inventory.json"])
        blocks = [inv["versions"][vdir], oracle.load(tree[vdir + "/inventory.json"])["versions"][vdir]]
    else:
        blocks = [got]
    out.done(route)
    for block in blocks:
        if given["created"] is None:
            if route != "first-set":
                out.check(oracle.created_ok(block.get("created", "")) and block["created"][:2] == "20", key, lambda: "created recorded as %s" % block.get("created"))
        else:
            out.check(block.get("created") == given["created"], key, lambda: "created is %r, given %r" % (block.get("created"), given["created"]))
        out.check(block.get("message") == given["message"] and ("message" in block) == (given["message"] is not None), key,
                  lambda: "message is %r, given %r" % (block.get("message"), given["message"]))
        user = {k: given[k] for k in ("name", "address") if given[k] is not None}
        out.check(block.get("user", {}) == user and ("user" in block) == bool(user), key, lambda: "user is %r, given %r" % (block.get("user"), user))
    if route == "first-set":
        return
    if not first:
        b = inv["versions"]["v1"]
        out.check(b["created"] == v1meta["created"] and b["message"] == v1meta["message"] and
                  b["user"] == {"name": v1meta["name"], "address": v1meta["address"]}, key, "metadata of v1 changed")
    url = world.path("obj") if local else be.url("obj")
    back = [ocfl.Object().extract(objdir=url, version=vdir, dstdir=world.path("out")),
            ocfl.Object().extract_file(objdir=url, version="head", dstdir=world.path("out2"), logical_path="f"),
            ocfl.VersionMetadata(inventory=inv), ocfl.VersionMetadata(inventory=ocfl.Inventory(inv), version=vdir)]
    for x in back:
        got = {"created": x.created, "message": x.message, "name": x.name, "address": x.address}
        want = dict(given, created=given["created"] or inv["versions"][vdir]["created"])
        out.check(got == want and x.version == vdir and x.id == "info:obj/1", key, lambda: "metadata given back is %s, given %s" % (got, given))
        d = x.as_dict()
        out.check(d == {k: v for k, v in inv["versions"][vdir].items() if k != "state"}, key, lambda: "as_dict() is %s" % d)
    v = ocfl.Inventory(inv).version(vdir)
    out.check((v.created, v.message, v.user_name, v.user_address) == (want["created"], want["message"], want["name"], want["address"]), key,
              "properties of Version are not the metadata")
    out.state(sorted(given.items(), key=str))
    p, codes = (validate(be, "obj") if not local else (True, []))
    out.check(p, key, lambda: "not valid: %s" % codes)
    out.sample = {"given": given, "block": {k: x for k, x in inv["versions"][vdir].items() if k != "state"}}
