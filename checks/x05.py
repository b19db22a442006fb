"""X05: the command line programs do what the library does with the same settings, and their exit status tells whether they did."""
import itertools
import json
import os

from mc import oracle, writer
from mc.lib import A, B, C, STATES, make_object
from mc.tree import read_tree, write_tree

from . import c03, l09

PROPERTY = "X05"
LEVEL = "model_checking"
RULE = ("An execution is one command with one combination of options, whose exit status, output and whole effect on storage are compared with those of the library called with the settings "
        "that the options stand for; a state is a distinct (command, options, situation)")
ASSUMPTIONS = ["Commands that say that they are not implemented (purge, validate-object) and the option --skip are not covered", "Commands run in the process of the check; V04 runs some in their own"]
DEFAULTS = {"content_path_normalization": None}    # Of the command line
CREATED = "2021-02-03T04:05:06Z"
OPTIONS = {
    "spec": [("--spec-version=1.0", {"spec_version": "1.0"}), ("--spec=1.1", {"spec_version": "1.1"}), ("--spec=0.9", {"spec_version": "0.9"})],
    "digest": [("--digest=sha256", {"digest_algorithm": "sha256"}), ("--digest=md5", {"digest_algorithm": "md5"}), ("--digest=none", {"digest_algorithm": "none"})],
    "fixity": [("--fixity=md5", {"fixity": ["md5"]}), (("--fixity=sha1", "--fixity=blake2b-160"), {"fixity": ["sha1", "blake2b-160"]})],
    "id": [("--id=info:other", {"identifier": "info:other"})],
    "norm": [("--normalization=uri", {"content_path_normalization": "uri"}), ("--norm=md5", {"content_path_normalization": "md5"}), ("--norm=bad", {"content_path_normalization": "bad"})],
    "delta": [("--no-forward-delta", {"forward_delta": False})],
    "dedupe": [("--no-dedupe", {"dedupe": False}), ("--no-dedup", {"dedupe": False})],
    "lax": [("--lax-digests", {"lax_digests": True})],
    "quiet": [("-q", {}), ("-v", {}), ("--debug", {})],
}
SOURCES = [{"a": A, "b": A, "c d%": B, "e/f": C}, {"a": A, "n": A, "x": C, "y": C, "e/f": B}]
INITIAL = {"sha512": {}, "sha256-1.0": {"digest_algorithm": "sha256", "spec_version": "1.0"}, "fixity": {"fixity": ["md5"]}, "md5": {"digest_algorithm": "md5", "lax_digests": True}}
ARGS = ["--message=m", "--name=N", "--address=mailto:n@example.org", "--created=" + CREATED]
LAYOUTS = [None, "0002", "0003", "flat-quoted", "nnnn-tuple-tree", "nnnn-uuid-quadtree", "bad", ""]
PARAMS = [None, "{}", '{"digestAlgorithm": "md5"}', '{"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 15}', '{"tupleSize": 99}', "bad", "[]", '{"prefix": "x:"}']
SPECS = [None, "1.0", "1.1", "2.0"]
BLOCKS = [dict([("created", "2021-02-03T04:05:06Z")] * c + [("message", "m")] * m + [("user", u)] * bool(u)) for c in (1, 0) for m in (0, 1) for u in (None, {"name": "n"}, {"name": "n", "address": "mailto:a@example.org"})]
N = sum(len(v) for v in OPTIONS.values())
BOUNDS = {
    "quick": "create (dry too), build, update of %d objects with all combinations of up to 2 of %d options; extract of all versions and paths; validate of %d objects; root create with %d layouts x "
             "%d parameters x %d versions; add, list, path, validate over sequences" % (len(INITIAL), N, len(c03.objects()), len(LAYOUTS), len(PARAMS), len(SPECS)),
    "thorough": "all combinations of up to 3 options",
}


def combos(k):
    for n in range(k + 1):
        for names in itertools.combinations(OPTIONS, n):
            for values in itertools.product(*(OPTIONS[x] for x in names)):
                args, settings = [], {}
                for a, s in values:
                    args += [a] if isinstance(a, str) else list(a)
                    settings.update(s)
                yield args, settings


def cases(tier):
    k = 2 if tier == "quick" else 3
    out = [["make", cmd, k, part] for cmd in ("create", "dry", "build", "drybuild") for part in range(4)]
    out += [["update", i, k, part] for i in INITIAL for part in range(4)]
    out += [["extract", i] for i in range(2)] + [["args"], ["show"], ["rootargs"]] + [["buildmeta", i] for i in range(-1, len(BLOCKS))]
    out += [["validate", n] for n in sorted(vobjects())]
    out += [["root", i, j] for i in range(len(LAYOUTS)) for j in range(len(PARAMS))] + [["store", l] for l in ("0002", "0003", "flat-quoted")]
    return out


def vobjects():
    """Objects to validate, some of which are valid with lax digests only."""
    out = dict(c03.objects())
    out["lax-alg"] = writer.write_object([STATES[1], STATES[2]], alg="blake2b-160")
    out["lax-earlier"] = writer.write_object([STATES[1], STATES[2]], alg=["md5", "sha512"])
    return out


def cli(script, *args):
    """Exit status and output; an exception that is not caught gives a status that isn't 0."""
    try:
        return l09.cli(script, *args)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), ""


def lib(f):
    try:
        return True, f()
    except Exception as e:
        if type(e) is not Exception and not isinstance(e, (OSError, ValueError)) and not type(e).__module__.startswith("ocfl"):
            raise
        return False, e


def vm():
    import ocfl
    return ocfl.VersionMetadata(created=CREATED, message="m", name="N", address="mailto:n@example.org")


def obj_with(settings, **defaults):
    import ocfl
    return ocfl.Object(**dict(dict(DEFAULTS, **defaults), **settings))


def run(case, world, out):
    os.chdir(world.dir)
    try:
        globals()["run_" + case[0]](case, world, out)
    finally:
        os.chdir(world.base)


def compare(out, key, status, done, got, want, what):
    out.step()
    out.done("%s %s" % (what, "done" if done else "refused"))
    out.check((status == 0) == done, key, lambda: "exit status is %s, library %s" % (status, "does it" if done else "refuses"))
    out.check(got == want, key, lambda: "effect differs from that of the library: %s" % sorted(set(got.items()) ^ set(want.items()), key=str)[:4])


def two(world):
    """Two copies of a place: for the library and for the command line."""
    world.fresh()
    os.chdir(world.dir)
    return world.path("lib"), world.path("cli")


def run_make(case, world, out):
    _, cmd, k, part = case
    for i, (args, settings) in enumerate(combos(k)):
        if i % 4 != part:
            continue
        one, other = two(world)
        key = "%s:%s" % (cmd, args)
        out.state(key)
        if cmd in ("create", "dry"):
            trees = {"src": SOURCES[0]}
        else:
            trees = {"src/v%d" % (n + 1): s for n, s in enumerate(SOURCES)}
        for base in (one, other):
            for p, t in trees.items():
                write_tree(base + "/" + p, t)
        meta = {"head": "v2", "versions": {"v%d" % n: {"created": "2021-02-0%dT00:00:00Z" % n, "message": "m%d" % n, "user": {"name": "n%d" % n}} for n in (1, 2)}}
        with open(world.path("meta.json"), "w", encoding="utf-8") as fh:
            json.dump(meta, fh)
        ident = [] if "identifier" in settings else ["--id=info:obj/1"]
        o = lib(lambda: obj_with(settings, **({} if ident is None else {"identifier": settings.get("identifier", "info:obj/1")})))
        dst = None if cmd.startswith("dry") else one + "/obj"
        obj = None
        if o[0]:
            obj = obj_with(dict(settings, identifier=settings.get("identifier", "info:obj/1")))
            if cmd in ("create", "dry"):
                done, inv = lib(lambda: obj.create(srcdir=one + "/src", metadata=vm(), objdir=dst))
            else:
                import ocfl
                vms = {n: ocfl.VersionMetadata(created="2021-02-0%dT00:00:00Z" % n, message="m%d" % n, name="n%d" % n) for n in (1, 2)}
                done, inv = lib(lambda: obj.build(srcdir=one + "/src", versions_metadata=vms, objdir=dst))
        else:
            done, inv = o
        more = [] if dst is None else ["--objdir", other + "/obj"]
        if cmd in ("create", "dry"):
            status, text = cli("ocfl-object.py", "create", "--srcdir", other + "/src", *more, *ident, *args, *ARGS)
        else:
            status, text = cli("ocfl-object.py", "build", "--src", other + "/src", "--metadata", world.path("meta.json"), *more, *ident, *args)
        compare(out, key, status, done, read_tree(other), read_tree(one), cmd)
        if dst is None and done and status == 0:
            got = json.loads(text[text.index("{"):])
            out.check(got == inv.data, key, "inventory shown differs from that of the library")
        else:
            out.check("manifest" not in text, key, "inventory shown though not asked for")


def run_buildmeta(case, world, out):
    """Metadata of each version is that given for it, whatever is given for others."""
    import ocfl
    first = None if case[1] < 0 else BLOCKS[case[1]]
    for second in [None] + BLOCKS:
        for third in (None, BLOCKS[-1]):
            given = {"v%d" % n: b for n, b in enumerate((first, second, third), 1) if b is not None}
            if not given:
                continue
            for vmax in (2, 3):
                one, other = two(world)
                for base in (one, other):
                    for n in range(vmax):
                        write_tree(base + "/src/v%d" % (n + 1), SOURCES[n % 2])
                with open(world.path("meta.json"), "w", encoding="utf-8") as fh:
                    json.dump({"head": sorted(given)[-1], "versions": given}, fh)
                vms = {int(v[1:]): ocfl.VersionMetadata(created=b.get("created"), message=b.get("message"), name=b.get("user", {}).get("name"), address=b.get("user", {}).get("address")) for v, b in given.items()}
                done, inv = lib(lambda: obj_with({}, identifier="info:x").build(srcdir=one + "/src", versions_metadata=vms, objdir=one + "/obj"))
                status, _ = cli("ocfl-object.py", "build", "--src", other + "/src", "--metadata", world.path("meta.json"), "--objdir", other + "/obj", "--id", "info:x")
                key = "buildmeta:%s:%d" % (sorted(given.items()), vmax)
                out.step()
                out.state(key)
                out.done("buildmeta %s" % done)
                out.check((status == 0) == done, key, lambda: "exit status is %s, library %s" % (status, "does it" if done else "refuses"))
                if done and status == 0:
                    versions = oracle.load(read_tree(other)["obj/inventory.json"])["versions"]
                    for v, block in versions.items():
                        want = dict(given.get(v, {}))
                        got = {k: x for k, x in block.items() if k != "state" and (k != "created" or "created" in want)}
                        out.check(got == want, key, lambda: "version %s has %s, not %s" % (v, got, want))
                        out.check(block["state"] == inv.data["versions"][v]["state"], key, "state of %s is not that of the library" % v)


def run_update(case, world, out):
    _, initial, k, part = case
    for i, (args, settings) in enumerate(combos(k)):
        if i % 4 != part:
            continue
        one, other = two(world)
        key = "update:%s:%s" % (initial, args)
        out.state(key)
        for base in (one, other):
            write_tree(base + "/src", SOURCES[0])
            obj_with(dict(INITIAL[initial], identifier="info:obj/1")).create(srcdir=base + "/src", metadata=vm(), objdir=base + "/obj")
            write_tree(base + "/new", SOURCES[1])
        done, inv = lib(lambda: obj_with(settings, spec_version=settings.get("spec_version", "1.1"), digest_algorithm=settings.get("digest_algorithm", "sha512"))
                        .add_version_with_content(objdir=one + "/obj", srcdir=one + "/new", metadata=vm()))
        status, text = cli("ocfl-object.py", "update", "--srcdir", other + "/new", "--objdir", other + "/obj", *args, *ARGS)
        compare(out, key, status, done, read_tree(other), read_tree(one), "update")
        if done and status == 0:
            out.check(text == "Updated object %s to %s\n" % (inv.id, inv.head), key, lambda: "output is %r" % text)


def run_extract(case, world, out):
    states = [STATES[2], STATES[4], STATES[1]]
    tree = writer.write_object(states, alg=["sha512", "sha256"][case[1]], pad=[0, 3][case[1]])
    name = (lambda n: "v%d" % n) if case[1] == 0 else (lambda n: "v%03d" % n)
    paths = [None] + sorted({p for s in states for p in s}) + ["none", "../x"]
    for v in [None, "head", name(1), name(2), name(3), name(4), "v0", "x", ""]:
        for p in paths:
            for form in ("new", "empty", "full", "none/new"):
                one, other = two(world)
                for base in (one, other):
                    write_tree(base, {"empty": None, "full/x": A})
                    write_tree(base + "/obj", tree)
                args = ["extract", "--objdir", other + "/obj", "--dstdir" if p else "--dst", other + "/" + form] + (["--objver", v] if v is not None else []) + (["--path", p] if p else [])
                if p:
                    done, _ = lib(lambda: make_object({}).extract_file(objdir=one + "/obj", version="head" if v is None else v, dstdir=one + "/" + form, logical_path=p))
                else:
                    done, _ = lib(lambda: make_object({}).extract(objdir=one + "/obj", version="head" if v is None else v, dstdir=one + "/" + form))
                status, text = cli("ocfl-object.py", *args)
                key = "extract:%s:%s:%s:%s" % (case[1], v, p, form)
                out.state(key)
                compare(out, key, status, done, read_tree(other), read_tree(one), "extract")
                if done and status == 0:
                    real = name(3) if v in (None, "head") else v
                    out.check(real in text, key, lambda: "output %r does not name the version" % text)


def run_args(case, world, out):
    """Commands that lack what they need do nothing."""
    write_tree(world.path("src"), SOURCES[0])
    write_tree(world.path("obj"), writer.write_object([STATES[1]]))
    o, s = ["--objdir", world.path("obj")], ["--src", world.path("src")]
    n = ["--objdir", world.path("new")]
    for args in ([], ["create"], ["create"] + n, ["create"] + o + s + ["--id=x:y"], ["create"] + n + ["--src", world.path("none"), "--id=x:y"], ["build"] + n, ["build"] + n + s + ["--id=x:y"],
                 ["build"] + o + s + ["--id=x:y"], ["update"], ["update"] + o, ["update"] + s, ["update"] + n + s, ["update"] + o + ["--src", world.path("none")], ["extract"], ["extract"] + n, ["show"],
                 ["validate"], ["validate"] + n, ["unknown"], ["create", "--unknown"], ["extract"] + o + ["--dstbag", world.path("b"), "--path", "a"], ["create"] + n + s,
                 ["update"] + o + s + ["--created", "yesterday"], ["create"] + n + s + ["--id=x:y", "--created", "x"], ["create"] + n + s + ["--id="],
                 ["build"] + n + s + ["--id=x:y", "--metadata", world.path("none")], ["create"] + n + ["--srcbag", world.path("src"), "--id=x:y"], ["update"] + o + ["--srcbag", world.path("none")]):
        before = read_tree(world.dir)
        status, _ = cli("ocfl-object.py", *args)
        out.step()
        out.state(tuple(args))
        out.done("refused" if status != 0 else "done")
        out.check(status != 0, "args:%s" % args, "exit status is 0")
        after = read_tree(world.dir)
        if args[:1] == ["build"]:   # May leave an empty directory
            after = {p: d for p, d in after.items() if d is not None or p in before}
        out.check(after == before, "args:%s" % args, "command that is refused has effects")
    for script in ("ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"):
        for opt in ("--version", "--help"):
            before = read_tree(world.dir)
            status, text = cli(script, opt)
            out.step()
            out.check(status == 0 and text != "" and read_tree(world.dir) == before, "args:%s:%s" % (script, opt), "%s %s has exit status %s" % (script, opt, status))


def run_show(case, world, out):
    for n, tree in sorted(c03.objects().items()):
        world.fresh()
        os.chdir(world.dir)
        write_tree(world.path("obj"), tree)
        before = read_tree(world.dir)
        done, text = lib(lambda: make_object({}).tree(objdir=world.path("obj")))
        status, shown = cli("ocfl-object.py", "show", "--objdir", world.path("obj"))
        out.step()
        out.state(n)
        out.done("show " + ("done" if done else "refused"))
        out.check((status == 0) == done, "show:" + n, lambda: "exit status of show is %s, library %s" % (status, done))
        if done and status == 0:
            out.check(text in shown, "show:" + n, "show differs from the library")
        out.check(read_tree(world.dir) == before, "show:" + n, "show has effects")


def run_validate(case, world, out):
    name = case[1]
    tree = vobjects()[name]
    write_tree(world.path("obj"), tree)
    good = writer.write_object([STATES[1]], identifier="info:good")
    write_tree(world.path("good"), good)
    write_tree(world.path("root"), {"0=ocfl_1.1": b"ocfl_1.1\n", "x/y": None})
    write_tree(world.path("root/x/y/o"), tree)
    write_tree(world.path("root/x/good"), good)
    before = read_tree(world.dir)
    valid, v = make_object({}).validate(world.path("obj"))
    fast, _ = make_object({}).validate(world.path("obj"), check_digests=False)
    inv, _ = lib(lambda: make_object({}).validate_inventory(world.path("obj/inventory.json")))
    for q in ([], ["-q"], ["-v"]):
        status, text = cli("ocfl-object.py", "validate", "--objdir", world.path("obj"), *q)
        out.check((status == 0) == valid and ("is VALID" in text) == valid and ("is INVALID" in text) == (not valid), "validate:%s:%s" % (name, q),
                  lambda: "ocfl-object validate has status %s and says %s, library %s" % (status, text[-100:], valid))
        lax, _ = make_object({}, lax_digests=True).validate(world.path("obj"))
        status, text = cli("ocfl-object.py", "validate", "--lax-digests", "--objdir", world.path("obj"), *q)
        out.check((status == 0) == lax and ("is VALID" in text) == lax, "validate:%s:%s:lax" % (name, q), lambda: "ocfl-object validate --lax-digests has status %s, library %s" % (status, lax))
        for extra, want in (([], valid), (["--no-check-digests"], fast), (["-Q"], valid), (["--lax-digests"], lax)):
            seen = cli("ocfl-validate.py", *q, *extra, world.path("obj"))
            out.check((seen[0] == 0) == want, "validate:%s:%s" % (name, q + extra), lambda: "ocfl-validate %s has status %s, library %s" % (extra, seen[0], want))
            for several in (["good", "obj"], ["obj", "good"], ["good", "good"], ["good", "none"], ["root"], ["root", "good"], ["obj/inventory.json"]):
                paths = [world.path(x) for x in several]
                seen = cli("ocfl-validate.py", *q, *extra, *paths)
                if several == ["obj/inventory.json"]:
                    r, out2 = lib(lambda: make_object({}, lax_digests="--lax-digests" in extra).validate_inventory(world.path("obj/inventory.json")))
                    ok = r and out2[0]
                else:
                    ok = ("obj" not in several and "root" not in several or want) and "none" not in several
                out.step()
                out.state((name, tuple(q), tuple(extra), tuple(several)))
                out.done("validate %s" % (seen[0] == 0))
                out.check((seen[0] == 0) == ok, "validate:%s:%s:%s" % (name, q + extra, several), lambda: "ocfl-validate %s of %s has status %s, expected %s" % (extra, several, seen[0], ok))
        for objects, digests, want in (([], [], None), (["--validate-objects"], [], fast), (["--validate-objects"], ["--check-digests"], valid),
                                       (["--validate-objects", "--lax-digests"], ["--check-digests"], lax)):
            import ocfl
            store = ocfl.StorageRoot(root=world.path("root"), lax_digests="--lax-digests" in objects)
            ok, ok2 = lib(lambda: store.validate(validate_objects=bool(objects), check_digests=bool(digests)))
            ok = ok and ok2
            status, text = cli("ocfl-root.py", "validate", "--root", world.path("root"), *q, *objects, *digests)
            out.step()
            out.check((status == 0) == ok, "validate:%s:root:%s" % (name, objects + digests), lambda: "ocfl-root validate has status %s, library %s" % (status, ok))
            if want is not None and not any(c.startswith("E003") for c in v.log.codes):
                out.check((status == 0) == want, "validate:%s:root:%s" % (name, objects + digests), lambda: "ocfl-root validate has status %s, object is %s" % (status, want))
            for message in [m for e in store.errors for m in e[1].split("\n") if "[E" in m]:
                out.check(message in text.split("\n"), "validate:%s:root:%s" % (name, objects + digests), lambda: "ocfl-root validate does not tell %s" % message)
            out.check(("Storage root %s is VALID" % world.path("root") in text) == (status == 0), "validate:%s:root" % name, lambda: "ocfl-root validate with status %s says %s" % (status, text[-100:]))
    for lax in (False, True):
        done, listed = lib(lambda: sorted(ocfl.StorageRoot(root=world.path("root"), lax_digests=lax).list_objects()))
        status, text = cli("ocfl-root.py", "list", "--root", world.path("root"), *(["--lax-digests"] if lax else []))
        out.step()
        out.check((status == 0) == done, "validate:%s:list" % name, lambda: "list has status %s, library %s" % (status, done))
        if done and status == 0:
            lines = ["%s -- id=%s" % x for x in listed] + ["Found %d OCFL Objects under root %s" % (len(listed), world.path("root"))]
            out.check(sorted(text.split("\n")) == sorted("\n".join(lines + [""]).split("\n")), "validate:%s:list" % name, lambda: "list is %r, not %r" % (text, lines))
    out.check(read_tree(world.dir) == before, "validate:" + name, "validation has effects")


def run_root(case, world, out):
    import ocfl
    layout, params = LAYOUTS[case[1]], PARAMS[case[2]]
    for spec in SPECS:
        for slash in ("", "/"):
            one, other = two(world)
            os.mkdir(one), os.mkdir(other)
            kw = {} if spec is None else {"spec_version": spec}
            done, e = lib(lambda: ocfl.StorageRoot(root=one + "/r" + slash, layout_name=layout).initialize(layout_params=params, **kw))
            args = (["--layout", layout] if layout is not None else []) + (["--layout-params", params] if params is not None else []) + (["--spec", spec] if spec else [])
            status, text = cli("ocfl-root.py", "create", "--root", other + "/r" + slash, *args)
            key = "root:%s:%s:%s" % (layout, params, spec)
            out.state(key)
            compare(out, key, status, done, read_tree(other), read_tree(one), "root create")
            # Once there it is not created again
            if done:
                before = read_tree(other)
                status, _ = cli("ocfl-root.py", "create", "--root", other + "/r", *args)
                out.check(status != 0 and read_tree(other) == before, key, "root that is there was created again with status %s" % status)


def run_rootargs(case, world, out):
    os.environ.pop("OCFL_ROOT", None)
    write_tree(world.path("r"), {"0=ocfl_1.1": b"ocfl_1.1\n"})
    write_tree(world.path("obj"), writer.write_object([STATES[1]]))
    r = ["--root", world.path("r")]
    for args in ([], ["create"], ["list"], ["validate"], ["add"], ["add"] + r, ["add", "--src", world.path("obj")], ["path"] + r, ["show"] + r, ["unknown"], ["create", "--root", world.path("r")],
                 ["list", "--root", world.path("none")], ["list", "--root", world.path("obj")], ["add", "--root", world.path("none"), "--src", world.path("obj")],
                 ["add", "--root", world.path("obj"), "--src", world.path("obj")], ["add"] + r + ["--src", world.path("none")], ["add"] + r + ["--src", world.path("obj")],
                 ["path"] + r + ["--id", "x"], ["show"] + r + ["--id", "x"], ["validate", "--root", world.path("obj")], ["validate", "--root", world.path("none")]):
        before = read_tree(world.dir)
        status, _ = cli("ocfl-root.py", *args)
        out.step()
        out.state(tuple(args))
        out.done("refused" if status != 0 else "done")
        out.check(status != 0, "rootargs:%s" % args, "exit status is 0")
        out.check(read_tree(world.dir) == before, "rootargs:%s" % args, "command that is refused has effects")
    # The root can be given by the environment
    os.environ["OCFL_ROOT"] = world.path("env")
    try:
        status, _ = cli("ocfl-root.py", "create", "--layout", "0002")
        out.check(status == 0 and os.path.isfile(world.path("env/0=ocfl_1.1")), "rootargs:env", "root in environment is not used: %s" % status)
        status, text = cli("ocfl-root.py", "list")
        out.check(status == 0 and "Found 0 OCFL Objects under root %s" % world.path("env") in text, "rootargs:env", "root in environment is not used: %s" % text)
        status, text = cli("ocfl-root.py", "list", "--root", world.path("r"))
        out.check(status == 0 and world.path("r") in text, "rootargs:env", "option --root does not go before environment: %s" % text)
        out.step(3)
    finally:
        del os.environ["OCFL_ROOT"]


def run_store(case, world, out):
    """Sequences of add, list, path and validate compared with the library on a second root."""
    import ocfl
    layout = case[1]
    ids = ["info:a", "b", "info:a"]
    kinds = []
    for i, ident in enumerate(ids):
        kinds.append(writer.write_object([STATES[i], STATES[4]], identifier=ident))
    kinds.append({p: d for p, d in kinds[0].items() if p != "inventory.json"})
    kinds.append(writer.write_object([STATES[2]], identifier="lax", alg="md5"))
    orders = [(o, lax) for o in itertools.permutations(range(len(kinds)), 3) for lax in ((False, True) if 4 in o else (False,))]
    for order, lax in orders:
        opt = ["--lax-digests"] if lax else []
        one, other = two(world)
        for base in (one, other):
            ocfl.StorageRoot(root=base and _mk(base) + "/r", layout_name=layout).initialize()
        for i, t in enumerate(kinds):
            write_tree(world.path("o%d" % i), t)
        for i in order:
            key = "store:%s:%s:%d:%s" % (layout, order, i, opt)
            done, got = lib(lambda: ocfl.StorageRoot(root=one + "/r", lax_digests=lax).add(world.path("o%d" % i)))
            status, text = cli("ocfl-root.py", "add", "--root", other + "/r", "--src", world.path("o%d" % i), *opt)
            out.state((layout, order, i, lax))
            compare(out, key, status, done, read_tree(other), read_tree(one), "add")
            if done and status == 0:
                out.check(text == "Added object %s at path %s\n" % got, key, lambda: "output of add is %r" % text)
            want = sorted(ocfl.StorageRoot(root=one + "/r", lax_digests=lax).list_objects())
            out.check("UNKNOWN-ID" not in [x[1] for x in want], key, "library does not list an object by its identifier")
            status, text = cli("ocfl-root.py", "list", "--root", other + "/r", *opt)
            lines = ["%s -- id=%s" % x for x in want] + ["Found %d OCFL Objects under root %s" % (len(want), other + "/r")]
            out.check(status == 0 and sorted(text.splitlines()) == sorted(lines), key, lambda: "list is %r, not %r" % (text, lines))
            for ident in ids[:2]:
                done, p = lib(lambda: ocfl.StorageRoot(root=one + "/r").object_path(ident))
                status, text = cli("ocfl-root.py", "path", "--root", other + "/r", "--id", ident)
                quiet = cli("ocfl-root.py", "path", "-q", "--root", other + "/r", "--id", ident)
                out.check((status == 0) == done == (quiet[0] == 0), key, "exit status of path is %s, library %s" % (status, done))
                if done and status == 0:
                    out.check(text.strip().endswith(" is " + p) and quiet[1] == "%s/r/%s\n" % (other, p), key, lambda: "output of path is %r and %r" % (text, quiet[1]))
                out.step(2)
            ok, ok2 = lib(lambda: ocfl.StorageRoot(root=one + "/r", lax_digests=lax).validate())
            status, text = cli("ocfl-root.py", "validate", "--root", other + "/r", "--validate-objects", "--check-digests", *opt)
            out.step(2)
            out.check((status == 0) == (ok and ok2) and "Objects checked: %d / %d are VALID" % (len(want), len(want)) in text, key, lambda: "validate has status %s and says %s" % (status, text))


def _mk(p):
    os.makedirs(p, exist_ok=True)
    return p
