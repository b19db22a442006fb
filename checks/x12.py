"""X12: on S3 storage things are as on files, as they are at the time; a request that is refused is never taken for success."""
import json
import os

from mc import s3stub, writer
from mc.lib import A, C, STATES, Local, diff, files_only, make_object, meta, read_tree
from mc.tree import write_tree

from .l09 import cli

PROPERTY = "X12"
LEVEL = "model_checking"
RULE = ("An execution is one operation of the library on S3 storage (the real S3 filesystem, on a service with its objects in memory), compared with the same on local files, or with one of its "
        "requests refused; a state is a distinct (content of the bucket, operation, form of URL, request refused)")
ASSUMPTIONS = ["The service answers as S3 does for the requests the S3 filesystem makes, and is consistent", "Files are smaller than a part of a multipart upload"]
FORMS = ["env", "query", "profile", "marked"]  # the last is "env" on a service with markers of directories
LAYOUTS = ["0002", "0003", "nnnn-flat-quoted-storage-layout", "nnnn-uuid-quadtree"]
WAYS = ["add", "edit", "build"]
SOURCES = ["local", "s3"]
PLACES = ["bk", "bk/p", "bk/p q/\u00e9"]
IDS = ["info:obj/1", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8"]
BOUNDS = {
    "quick": "%d forms of URL x all histories of up to 2 of %d source states (for two of the forms, a sixth of the pairs) x %d ways of writing x %d kinds of source, then all that reads; %d layouts of roots in %d places; each object or root changed by any single "
             "removal, alteration or addition after it was read; each request of %d operations refused, it only or with all later ones" % (len(FORMS), len(STATES), len(WAYS), len(SOURCES), 3, len(PLACES), 12),
    "thorough": "all histories of up to 3 versions; all pairs by all forms of URL with pages of listings of 1, 3 and 1000 keys; objects changed by all forms of URL",
}


class S3:
    """Objects and sources in a bucket of the S3 service, by one form of URL."""

    name = "s3"

    def __init__(self, form, world, place="bk", page=3):
        self.srv = s3stub.server()
        self.srv.page = page
        self.srv.markers = form == "marked"
        self.form = form
        self.place = place
        self.bucket, _, self.prefix = place.partition("/")
        self.srv.put(self.bucket, {})
        for var in [v for v in os.environ if v.startswith("AWS_")]:
            del os.environ[var]
        os.environ["AWS_EC2_METADATA_DISABLED"] = "true"
        os.environ["AWS_CONFIG_FILE"] = world.path("aws-config")
        os.environ["AWS_SHARED_CREDENTIALS_FILE"] = world.path("aws-none")
        with open(world.path("aws-config"), "w", encoding="utf-8") as fh:
            if form == "profile":
                fh.write("[default]\naws_access_key_id=x\naws_secret_access_key=x\nendpoint_url=http://127.0.0.1:9\n\n"
                         "[profile other]\nendpoint_url=%s\naws_access_key_id=k\naws_secret_access_key=s\nregion=us-east-1\n" % self.srv.endpoint)
        if form in ("env", "marked"):
            os.environ.update(AWS_ENDPOINT_URL=self.srv.endpoint, AWS_ACCESS_KEY_ID="k", AWS_SECRET_ACCESS_KEY="s", AWS_DEFAULT_REGION="us-east-1")

    def url(self, rel):
        url = "s3://" + self.place + ("/" + rel if rel else "")
        return url + {"env": "", "marked": "", "query": "?endpoint_url=%s&key=k&secret=s" % self.srv.endpoint, "profile": "?profile=other"}[self.form]

    def key(self, rel):
        return (self.prefix + "/" if self.prefix else "") + rel

    def put(self, rel, tree):
        self.srv.add(self.bucket, {self.key(rel): None})
        self.srv.add(self.bucket, {self.key(rel + "/" + p): d for p, d in tree.items()})

    def set(self, rel, tree):
        """Have just this tree."""
        pre = self.key(rel) + "/"
        objects = {p: d for p, d in self.srv.tree(self.bucket).items() if not p.startswith(pre)}
        objects[self.key(rel)] = None
        objects.update({pre + p: d for p, d in tree.items()})
        self.srv.put(self.bucket, objects)

    def get(self, rel=""):
        pre = self.key(rel + "/") if rel else self.key("")
        return {p[len(pre):]: d for p, d in self.srv.tree(self.bucket).items() if p.startswith(pre)}


def cases(tier):
    out = []
    n = len(STATES)
    for form in FORMS:
        for way in WAYS:
            for source in SOURCES:
                for i in range(n):
                    seconds = range(n) if form == "env" or tier == "thorough" else [(i + 1) % n]
                    out += [["history", form, way, source, [i], 3]] + [["history", form, way, source, [i, j], 3] for j in seconds]
                    if tier == "thorough":
                        out += [["history", form, way, source, [i, j], page] for j in range(n) for page in (1, 1000)]
                        out += [["history", form, way, source, [i, j, k], 3] for j in range(n) for k in range(n) if form == "env"]
        for place in PLACES:
            for layout in ("0002", "0003", "nnnn-flat-quoted-storage-layout"):
                out.append(["root", form, place, layout])
            out.append(["programs", form, place])
    for name in objects():
        for form in ("env", "marked") if tier == "quick" else FORMS:
            out += [["damage", name, form, part] for part in range(4)]
    out += [["rootdamage", form, part] for form in ("env", "marked") for part in range(2)]
    for op in OPS:
        for source in SOURCES if op in ("create", "add", "build") else SOURCES[:1]:
            for later in (False, True):
                out.append(["refused", op, source, later])
    return out


def run(case, world, out):
    {"history": run_history, "root": run_root, "damage": run_damage, "rootdamage": run_rootdamage, "programs": run_programs, "refused": run_refused}[case[0]](case, world, out)


def write(be, world, way, source, states, rel="o"):
    """Write versions with states; sources are in the same storage or in local files."""
    src = Local(world) if source == "local" else be
    src.put("src", {})
    if way == "build":
        for n, i in enumerate(states, 1):
            src.put("src/v%d" % n, STATES[i])
        return make_object({}).build(srcdir=src.url("src"), versions_metadata={n: meta(n) for n in range(1, len(states) + 1)}, objdir=be.url(rel))
    inv = None
    for n, i in enumerate(states, 1):
        src.put("src%d" % n, STATES[i])
        if n == 1:
            inv = make_object({}).create(srcdir=src.url("src1"), metadata=meta(1), objdir=be.url(rel))
        elif way == "add":
            inv = make_object({}).add_version_with_content(objdir=be.url(rel), srcdir=src.url("src%d" % n), metadata=meta(n))
        else:
            obj = make_object({})
            nv = obj.start_new_version(objdir=be.url(rel), srcdir=src.url("src%d" % n), metadata=meta(n), carry_content_forward=False)
            for p in sorted(STATES[i]):
                nv.add(src_path=p, logical_path=p)
            inv = obj.write_new_version(nv)
    return inv


def tree_lines(be, rel):
    return [line.rstrip() for line in make_object({}).tree(objdir=be.url(rel)).split("\n")[1:]]


def answers(be, world, rel, n, label):
    """All that can be read of an object of n versions."""
    import ocfl
    obj = make_object({})
    passed, v = obj.validate(be.url(rel))
    ipassed, iv = make_object({}).validate_inventory(be.url(rel + "/inventory.json"))
    got = {"validate": (passed, sorted(v.log.codes)), "validate_inventory": (ipassed, sorted(iv.log.codes)), "id": ocfl.Object(path=be.url(rel)).id_from_inventory(),
           "types": [ocfl.find_path_type(be.url(x)) for x in (rel, rel + "/inventory.json", rel + "/none")], "tree": sorted(tree_lines(be, rel)),
           "head": ocfl.Object(path=be.url(rel)).parse_inventory().head}
    for k in range(1, n + 1):
        for kind, dst in (("local", Local(world).url("out-%s-%d" % (label, k))), ("own", be.url("out-%d" % k))):
            m = make_object({}).extract(objdir=be.url(rel), version="v%d" % k, dstdir=dst)
            files = files_only(read_tree(dst)) if kind == "local" else {p: d for p, d in be.get("out-%d" % k).items() if d is not None}
            got["extract %s %d" % (kind, k)] = (files, m.created, m.message, m.name, m.address)
    return got


def run_history(case, world, out):
    _, form, way, source, states, page = case
    if source == "s3" and form != "marked" and any(not STATES[i] for i in states):
        return  # there is no empty directory
    results = []
    for name in ("local", "s3"):
        world.fresh()
        be = S3(form, world, page=page) if name == "s3" else Local(world)
        inv = write(be, world, way, source if name == "s3" else "local", states)
        tree = {p: d for p, d in be.get("o").items() if d is not None}
        got = answers(be, world, "o", len(states), name)
        got["inventory"] = inv.data
        got["others"] = None
        if name == "s3":
            expected = {"o", "src", "src1", "src2", "src3"} | {"out-%d" % k for k in range(1, len(states) + 1)}
            got["others"] = sorted({p.split("/")[0] for p in be.get()} - expected) or None
            out.check(not [r for r in be.srv.requests if r[1] not in ("", "bk")], "bucket", "other buckets are accessed: %s" % be.srv.requests)
        for k, i in enumerate(states, 1):
            out.check(got["extract own %d" % k][0] == STATES[i], "history:%s" % json.dumps(case), "what is extracted is wrong on %s" % name)
        results.append((tree, got))
        out.step(len(states) * 3 + 6)
        out.state((form, way, source, tuple(states), page, name))
    out.done("history")
    (tree, want), (s3tree, got) = results
    out.check(tree == s3tree, "history:%s" % json.dumps(case), lambda: "on S3 there is %s" % diff(tree, s3tree))
    for k in want:
        w, g = want[k], got[k]
        out.check(w == g, "history:%s:%s" % (json.dumps(case), k), lambda: "%s on S3 is %s, on files %s" % (k, str(g)[:600], str(w)[:600]))


def run_root(case, world, out):
    import ocfl
    from ocfl.storage_root import StorageRoot
    _, form, place, layout = case
    key = "root:%s" % json.dumps(case)
    results = []
    objs = {"one": ("info:obj/1", [STATES[1], STATES[2]]), "two": ("x", [STATES[4]])}
    for name in ("local", "s3"):
        world.fresh()
        be = S3(form, world, place) if name == "s3" else Local(world)
        for rel, (ident, states) in objs.items():
            be.put("src/" + rel, writer.write_object(states, identifier=ident))
        be.put("other", {"keep": A})
        got = []

        def do(what, f):
            try:
                got.append((what, f()))
            except Exception as e:  # pylint: disable=broad-except
                got.append((what, type(e).__name__))
            out.step()

        def root(lay=None):
            return StorageRoot(root=be.url("r"), **({"layout_name": lay} if lay else {}))
        do("open none", lambda: root().validate())
        do("list none", lambda: list(root().list_objects()))
        do("initialize", lambda: root(layout).initialize())
        do("again", lambda: root(layout).initialize())
        do("there", lambda: StorageRoot(root=be.url("other"), layout_name=layout).initialize())
        do("empty", lambda: (root().validate(), list(root().list_objects())))
        for rel in ("one", "two", "one", "none"):
            do("add", lambda: root().add(be.url("src/" + rel)))
            do("list", lambda: sorted(root().list_objects()))
            do("validate", lambda: root().validate())
            do("type", lambda: ocfl.find_path_type(be.url("r")))
        for rel in objs:
            def there():
                r = root()
                path = r.object_path(objs[rel][0])
                return path, make_object({}).validate(be.url("r/" + path))[0], sorted(tree_lines(be, "r/" + path))
            do("path", there)
        do("damage", lambda: be.put("r/stray", {"x": A}))
        do("validate", lambda: root().validate())
        do("list", lambda: sorted(root().list_objects()))
        results.append((got, {p: d for p, d in be.get().items() if d is not None and not p.startswith("aws-")} if name == "s3" else
                        {p: d for p, d in read_tree(world.dir).items() if d is not None and not p.startswith("aws-")}))
        out.state((form, place, layout, name))
    out.done("root")
    (want, tree), (got, s3tree) = results
    for w, g in zip(want, got):
        out.check(w == g, key, lambda: "%s on S3 gives %s, on files %s" % (w[0], str(g[1])[:600], str(w[1])[:600]))
    out.check(tree == s3tree, key, lambda: "on S3 there is %s" % diff(tree, s3tree))


def objects():
    return {"one": writer.write_object([STATES[1]]), "two": writer.write_object([STATES[2], STATES[1]], fixity=["md5"]), "old": writer.write_object([STATES[4], STATES[0]], alg="sha256", spec="1.0")}


def damages(tree, form):
    """All single changes of a tree of files, and if the form of storage has them additions of empty directories."""
    tree = {p: d for p, d in tree.items() if d is not None}
    for p in sorted(tree):
        yield "remove %s" % p, {q: d for q, d in tree.items() if q != p}
        for what, d in (("alter", b"X" + tree[p][1:]), ("append", tree[p] + b"!"), ("cut", tree[p][:-1]), ("empty", b"")):
            if d != tree[p]:
                yield "%s %s" % (what, p), dict(tree, **{p: d})
    for d in sorted({""} | {p.rpartition("/")[0] + "/" for p in tree if "/" in p}):
        for name in ("new", "0=new", "d/new", "v9/new", "inventory.json.md5", "extensions/new/x", "extensions", "logs"):
            if d + name not in tree and not any(p.startswith(d + name + "/") for p in tree):
                yield "add %s" % (d + name), dict(tree, **{d + name: C})
                if form == "marked":
                    yield "mkdir %s" % (d + name), dict(tree, **{d + name: None})


def run_damage(case, world, out):
    _, name, form, part = case
    tree = objects()[name]
    be = S3(form, world)
    loc = Local(world)
    be.put("o", tree)
    before = make_object({}).validate(be.url("o"))[0]
    out.check(before is True, "damage:%s" % name, "object on S3 is not valid")
    for k, (what, changed) in enumerate(damages(tree, form)):
        if k % 4 != part:
            continue
        be.set("o", changed)
        passed, v = make_object({}).validate(be.url("o"))
        key = "damage:%s:%s:%s" % (name, form, what)
        out.state(key)
        out.step()
        rel = "l%d" % k
        loc.put(rel, changed)
        lpassed, lv = make_object({}).validate(loc.url(rel))
        out.done("damage %s" % passed)
        out.check((passed, sorted(v.log.codes)) == (lpassed, sorted(lv.log.codes)), key, lambda: "verdict on S3 after %s is %s %s, on files %s %s" % (
            what, passed, sorted(v.log.codes), lpassed, sorted(lv.log.codes)))
        # Back as it was
        be.set("o", tree)
        out.check(make_object({}).validate(be.url("o"))[0] is True, key, "object on S3 that is as it was is not valid after %s" % what)
        out.step()


def run_rootdamage(case, world, out):
    import ocfl
    from ocfl.storage_root import StorageRoot
    _, form, part = case
    be, loc = S3(form, world), Local(world)
    StorageRoot(root=loc.url("r0"), layout_name="0003").initialize()
    r = StorageRoot(root=loc.url("r0"))
    for i, (name, t) in enumerate(sorted(objects().items())[:1]):
        loc.put("o%d" % i, t)
        r.add(loc.url("o%d" % i))
    tree = {p: d for p, d in loc.get("r0").items() if d is not None}
    be.put("r", tree)

    def answer(url):
        got = []
        for f in (lambda r: r.validate(), lambda r: sorted(r.list_objects()), lambda r: r.object_path("info:obj/1")):
            try:
                got.append(f(StorageRoot(root=url)))
            except Exception as e:  # pylint: disable=broad-except
                got.append(type(e).__name__)
        return got
    want0 = answer(loc.url("r0"))
    out.check(answer(be.url("r")) == want0, "rootdamage", "root on S3 is not as on files")
    for k, (what, changed) in enumerate(damages(tree, form)):
        if k % 2 != part:
            continue
        be.set("r", changed)
        got = answer(be.url("r"))
        loc.put("c%d" % k, changed)
        want = answer(loc.url("c%d" % k))
        out.step(3)
        out.state(("rootdamage", form, what))
        out.done("root %s" % want[0])
        out.check(got == want, "rootdamage:%s:%s" % (form, what), lambda: "after %s the root on S3 gives %s, on files %s" % (what, got, want))


def run_programs(case, world, out):
    """The command line programs on S3 URLs."""
    import ocfl
    _, form, place = case
    results = []
    for name in ("local", "s3"):
        world.fresh()
        be = S3(form, world, place) if name == "s3" else Local(world)
        base = be.url("").split("?")[0].rstrip("/")
        got = []

        def program(script, *args):
            try:
                status, text = cli(script, *[be.url(a[1:]) if a.startswith("@") else a for a in args])
            except OSError as e:
                status, text = type(e).__name__, ""
            lines = [line.split("?")[0] if base in line and "?" in line else line for line in text.replace(base, "BASE").replace(be.url("").partition("?")[1] + be.url("").partition("?")[2], "").split("\n")]
            got.append((script, args, status, sorted(lines)))
            out.step()
        be.put("src", {"v1/a": A, "v2/b": C, "v2/d/a": A})
        more = ("--name", "N", "--message", "m", "--created", "2020-01-01T00:00:00Z")
        program("ocfl-object.py", "build", "--srcdir", "@src", "--objdir", "@built", "--id", "b")
        program("ocfl-object.py", "create", "--srcdir", "@src/v1", "--objdir", "@o", "--id", "x", *more)
        program("ocfl-object.py", "update", "--srcdir", "@src/v2", "--objdir", "@o", *more)
        program("ocfl-object.py", "update", "--srcdir", "@src/none", "--objdir", "@o", *more)
        program("ocfl-object.py", "show", "--objdir", "@o")
        program("ocfl-object.py", "extract", "--objdir", "@o", "--objver", "v1", "--dstdir", "@out")
        program("ocfl-object.py", "extract", "--objdir", "@o", "--objver", "v2", "--dstdir", "@out2", "--logical-path", "d/a")
        program("ocfl-object.py", "validate", "--objdir", "@o")
        program("ocfl-root.py", "create", "--root", "@r", "--layout", "0003")
        program("ocfl-root.py", "create", "--root", "@r", "--layout", "0003")
        program("ocfl-root.py", "add", "--root", "@r", "--src", "@o")
        program("ocfl-root.py", "list", "--root", "@r")
        program("ocfl-root.py", "path", "--root", "@r", "--id", "x")
        program("ocfl-root.py", "path", "--root", "@r", "--id", "x", "--quiet")
        program("ocfl-root.py", "show", "--root", "@r", "--id", "x")
        program("ocfl-root.py", "validate", "--root", "@r")
        for path in ("@o", "@r", "@o/inventory.json", "@o/v1/inventory.json", "@o/none", "@none", "@src", "@o/v1/content/a"):
            program("ocfl-validate.py", path)
        status, path = cli("ocfl-root.py", "path", "--root", be.url("r"), "--id", "x", "--quiet")
        got.append(("path is that of the object", status, make_object({}).validate(path.strip())[0], ocfl.Object(path=path.strip()).id_from_inventory()))
        tree = {p: d for p, d in (be.get() if name == "s3" else read_tree(world.dir)).items() if d is not None and not p.startswith("aws-")}
        for p in [p for p in tree if "built/" in p]:
            tree[p] = b""  # build has the time
        results.append((got, tree))
        out.state(("programs", form, place, name))
    out.done("programs")
    (want, tree), (got, s3tree) = results
    for w, g in zip(want, got):
        out.check(w == g, "programs:%s:%s" % (json.dumps(case), json.dumps(w[:2])), lambda: "on S3 %s, on files %s" % (g, w))
    out.check(sorted(tree) == sorted(s3tree), "programs:%s" % json.dumps(case), lambda: "on S3 there is %s" % diff(tree, s3tree))
    for p in tree:
        out.check(tree[p] == s3tree.get(p), "programs:%s:%s" % (json.dumps(case), p), lambda: "%s is different on S3" % p)


OPS = ["create", "add", "edit", "build", "init", "rootadd", "validate", "validate_inventory", "extract", "extract_file", "rootvalidate", "rootlist"]


def prepare(op, source, world):
    """Storage before op, and op itself."""
    from ocfl.storage_root import StorageRoot
    world.fresh()
    be = S3("env", world)
    loc = Local(world)
    src = loc if source == "local" else be
    for n, i in enumerate((2, 1), 1):
        src.put("src/v%d" % n, STATES[i])
    obj = writer.write_object([STATES[2]])
    if op in ("add", "edit"):
        be.put("o", obj)
    elif op not in ("create", "build", "init"):
        be.put("o", writer.write_object([STATES[2], STATES[1]]))
    if op in ("rootadd", "rootvalidate", "rootlist"):
        be.put("r", {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": json.dumps({"extension": "nnnn-flat-quoted-storage-layout", "description": "x"}).encode()})
        if op != "rootadd":
            be.put("r/info%3Aobj%2F1", obj)

    def edit():
        o = make_object({})
        nv = o.start_new_version(objdir=be.url("o"), srcdir=src.url("src/v2"), metadata=meta(2), carry_content_forward=True)
        nv.add(src_path="a", logical_path="new")
        nv.delete(logical_path="b")
        return o.write_new_version(nv)

    def extract():
        make_object({}).extract(objdir=be.url("o"), version="v1", dstdir=loc.url("out"))
        return files_only(read_tree(loc.url("out")))

    def extract_file():
        make_object({}).extract_file(objdir=be.url("o"), version="v1", dstdir=loc.url("out"), logical_path="d/d/c")
        return files_only(read_tree(loc.url("out")))

    return be, {
        "create": lambda: make_object({}).create(srcdir=src.url("src/v1"), metadata=meta(1), objdir=be.url("o")),
        "add": lambda: make_object({}).add_version_with_content(objdir=be.url("o"), srcdir=src.url("src/v2"), metadata=meta(2)),
        "edit": edit,
        "build": lambda: make_object({}).build(srcdir=src.url("src"), versions_metadata={n: meta(n) for n in (1, 2)}, objdir=be.url("o")),
        "init": lambda: StorageRoot(root=be.url("r"), layout_name="0003").initialize(),
        "rootadd": lambda: StorageRoot(root=be.url("r")).add(be.url("o")),
        "validate": lambda: make_object({}).validate(be.url("o"))[0],
        "validate_inventory": lambda: make_object({}).validate_inventory(be.url("o/inventory.json"))[0],
        "extract": extract, "extract_file": extract_file,
        "rootvalidate": lambda: StorageRoot(root=be.url("r")).validate(),
        "rootlist": lambda: sorted(StorageRoot(root=be.url("r")).list_objects()),
    }[op]


def run_refused(case, world, out):
    _, op, source, later = case
    be, f = prepare(op, source, world)
    before = be.get()
    want = f()
    after = be.get()
    n = len(be.srv.requests)
    for k in range(1, n + 1):
        be, f = prepare(op, source, world)
        be.srv.deny = (lambda i, *r: i >= k) if later else (lambda i, *r: i == k)
        key = "refused:%s:%s:%s:%d" % (op, source, later, k)
        try:
            got = f()
            ended = True
        except Exception as e:  # pylint: disable=broad-except
            ended, got = False, e
        request = be.srv.requests[k - 1] if len(be.srv.requests) >= k else None
        be.srv.deny = None
        there = be.get()
        out.step()
        out.state((op, source, later, k))
        out.done("%s ended" % op if ended else "%s failed: %s" % (op, type(got).__name__))
        if ended and op in ("validate", "validate_inventory", "rootvalidate"):
            out.check(got is False or request is None, key, lambda: "%s gives %s though request %s was refused" % (op, got, request))
        elif ended:
            out.check(there == after, key, lambda: "%s ended as if done though request %s was refused, and %s" % (op, request, diff(after, there)))
            if op not in ("create", "add", "edit", "build"):
                out.check(got == want, key, lambda: "%s gives %s and not %s when request %s was refused" % (op, got, want, request))
        # What was there is there, apart from the inventory that is replaced
        gone = {p: d for p, d in before.items() if there.get(p) != d and p not in ("o/inventory.json", "o/inventory.json.sha512")}
        out.check(not gone, key, lambda: "%s is lost or changed when request %s of %s is refused" % (sorted(gone), request, op))
        # An object that seems complete is the one before or that after
        for rel in ("o", "r"):
            if rel == "o" and op not in ("create", "add", "edit", "build"):
                continue
            t = {p[2:]: d for p, d in there.items() if p.startswith(rel + "/")}
            if rel == "o" and t and oracle_valid(t):
                out.check(t in ({p[2:]: d for p, d in x.items() if p.startswith("o/")} for x in (before, after)), key, lambda: "object is valid but neither as before nor as after")


def oracle_valid(tree):
    """Whether this is a complete object, by local validation."""
    import shutil
    import tempfile
    d = tempfile.mkdtemp()
    try:
        write_tree(d, tree)
        return make_object({}).validate(d)[0]
    finally:
        shutil.rmtree(d)
