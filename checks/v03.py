"""V03: validation of any bytes ends with a verdict."""
import itertools
import json
import os

from mc import mcfs, oracle, writer
from mc.lib import STATES, Local, Memory, jdump, make_object, validate

PROPERTY = "V03"
LEVEL = "model_checking"
RULE = ("An execution is the validation of an object, an inventory file or a storage root one file of which is replaced with a string of tokens (all strings up to "
        "the bounded length), or which has an entry of an unusual kind or an extreme value; it has to end with a verdict, which for damage has to be invalid")
ASSUMPTIONS = ["Strings over the token alphabet stand for all file contents", "Errors of input and output, and links that can't be followed, may be reported as an OSError (see C03)"]

JSON_TOKENS = [b"{", b"}", b"[", b"]", b",", b":", b'"id"', b'"manifest"', b'"versions"', b'"v1"', b"1", b"-1e999", b"null", b"NaN", b'"\\ud800"', b"\xff", b" ", b"\\"]
SIDECAR_TOKENS = ["DIGEST", b" ", b"\t", b"\n", b"\r", b"inventory.json", b"x", b"\xff", b"."]
DECLARATION_TOKENS = [b"ocfl_object_1.1", b"ocfl_1.1", b"1.1", b"\n", b"\r", b" ", b"\xff", b"\x00", b"0=", b"ocfl_object_1.0"]
LAYOUT_TOKENS = [b"{", b"}", b'"extension"', b'"description"', b":", b",", b'"0002-flat-direct-storage-layout"', b'"0003-hash-and-id-n-tuple-storage-layout"',
                 b"null", b"[", b"]", b"1", b"\xff", b" "]
CONFIG_VALUES = [None, True, False, 0, 1, -1, 2, 3, 16, 32, 33, 1.0, 1e400, "", "sha256", "md5", "sha512", "blake2b-160", "SHA256", "x", "3", [], {}, [3], ["sha256"], "urn:uuid:"]
EXTREME = {
    "deep-list": b"[" * 100000 + b"]" * 100000,
    "deep-dict": b'{"a":' * 100000 + b"1" + b"}" * 100000,
    "long-number": b"1" * 100000,
    "long-float": b"1." + b"1" * 100000,
    "long-string": b'"' + b"x" * 1000000 + b'"',
    "bom": b"\xef\xbb\xbf{}",
    "utf16": "{}".encode("utf-16"),
    "nul": b"\x00" * 1000,
    "spaces": b" " * 100000,
    "repeated": b"{" + b",".join([b'"id":"x"'] * 1000) + b"}",
}
# Values at particular places of a good inventory
PLACES = [["id"], ["type"], ["digestAlgorithm"], ["head"], ["contentDirectory"], ["manifest"], ["versions"], ["fixity"], ["versions", "v1"], ["versions", "v1", "state"],
          ["versions", "v1", "created"], ["versions", "v1", "user"], ["versions", "v1", "user", "name"], ["versions", "v1", "message"], ["fixity", "md5"]]


def nested(n, leaf):
    for _ in range(n):
        leaf = {"a": [leaf]}
    return leaf


VALUES = [10**30, -10**30, 1e308, float("inf"), float("nan"), "\x00", "\ud800", "v" + "9" * 5000, "v1" * 3000, "9" * 5000, "\U0001f600" * 50, nested(100, 1), ["x"] * 3000,
          [[[]]], {"v" + "9" * 5000: {}}, {"v1": {}, "v" + "0" * 5000: {}}, {"\ud800": ["\ud800"]}, {"": [""]}, {"a" * 10000: ["b" * 10000]},
          {"md5": {"0" * 5000: []}}, {"blake2b-": {"0": ["v1/content/a"]}}, {"-spec-ex": {"0": ["v1/content/a"]}}, {"sha512-spec-ex": {"(": ["v1/content/a"]}}, "https://ocfl.io/1.1/spec/#inventory" * 1000,
          "2020-01-01T00:00:00." + "0" * 5000 + "Z", "9999-12-31T23:59:59+00:01", "0001-01-01T00:00:00+23:59", "0000-01-01T00:00:00Z"]
BOUNDS = {
    "quick": "all strings of up to 3 of %d JSON tokens as inventory, up to 2 as inventory of an earlier version, up to 4 of %d sidecar tokens, up to 3 of %d declaration tokens, up to 3 of %d layout "
             "tokens, all configurations of layouts over %d values; %d extreme contents of every file; %d extreme values at %d places; entries of 7 unusual kinds at every place" % (
                 len(JSON_TOKENS), len(SIDECAR_TOKENS), len(DECLARATION_TOKENS), len(LAYOUT_TOKENS), len(CONFIG_VALUES), len(EXTREME), len(VALUES), len(PLACES)),
    "thorough": "the same with strings of one token more",
}
KIND_PLACES = ["", "v1", "v1/content", "v1/content/sub", "v2", "extensions", "logs", "extensions/x", "inventory.json", "inventory.json.sha512", "v1/inventory.json", "v1/inventory.json.sha512",
               "0=ocfl_object_1.1", "v1/content/f0.a", "v3", "other", "0=other"]
KINDS = ["link-file", "link-dir", "link-loop", "link-none", "link-self", "fifo", "socket"]


def cases(tier):
    more = -1 if tier == "quick" else 0
    out = [["json", t, n, p] for n in range(0, 5 + more) for t in (["root"] if n > 3 + more else ["root", "v1", "file"]) for p in (range(32) if n > 2 else range(1))]
    out += [["sidecar", v, 5 + more, p] for v in ("", "v1/") for p in range(8 if v == "" else 1)]
    out += [["declaration", w, 4 + more, p] for w in ("object", "root") for p in range(8)]
    out += [["layout", 4 + more, p] for p in range(16)]
    out += [["config", e, p] for p in range(8) for e in ("0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree-layout",
                                    "nnnn-uuid-quadtree")]
    out += [["configtokens", 4 + more, p] for p in range(8)]
    out += [["extreme", k] for k in EXTREME] + [["values", i] for i in range(len(PLACES))]
    out += [["kinds", k] for k in KINDS] + [["paths"]]
    return out


def tree():
    return writer.write_object([STATES[2], STATES[1]], fixity=["md5"])


def strings(tokens, n, exact=False):
    for k in range(n if exact else 0, n + 1):
        yield from itertools.product(tokens, repeat=k)


def judge_object(be, key, out, want=None, path="obj"):
    try:
        passed, codes = validate(be, path)
    except BaseException as e:  # pylint: disable=broad-except
        if type(e).__name__ == "Hang":
            raise
        if isinstance(e, OSError) and key.startswith("kind:link-"):
            out.done("error for link that can't be followed")
            return
        out.violation(key, "validation of object with %s raised %s: %s" % (key, type(e).__name__, str(e)[:200]))
        return
    out.step()
    out.done("object valid" if passed else "object invalid")
    out.check(isinstance(passed, bool) and passed == (not codes), key, "object with %s: verdict %r and errors %s" % (key, passed, codes))
    if want is not None:
        out.check(passed == want, key, "object with %s is reported %s %s" % (key, passed, codes))


def judge_root(be, key, out, want=None, path="root", **kwargs):
    import ocfl
    try:
        passed = ocfl.StorageRoot(root=be.url(path)).validate(**kwargs)
    except BaseException as e:  # pylint: disable=broad-except
        if type(e).__name__ == "Hang":
            raise
        if isinstance(e, OSError) and key.startswith("kind:link-"):
            out.done("error for link that can't be followed")
            return
        out.violation(key, "validation of storage root with %s raised %s: %s" % (key, type(e).__name__, str(e)[:200]))
        return
    out.step()
    out.done("root valid" if passed else "root invalid")
    if want is not None:
        out.check(passed is want, key, "storage root with %s is reported %r" % (key, passed))


def judge_file(be, path, key, out, want=None):
    try:
        passed, v = make_object({}).validate_inventory(be.url(path))
    except BaseException as e:  # pylint: disable=broad-except
        if type(e).__name__ == "Hang":
            raise
        out.violation(key, "validation of inventory file with %s raised %s: %s" % (key, type(e).__name__, str(e)[:200]))
        return
    out.step()
    out.done("file valid" if passed else "file invalid")
    if want is not None:
        out.check(passed is want, key, "inventory file with %s is reported %r" % (key, passed))


def setfile(path, data):
    mcfs.STORE.nodes[path] = mcfs.Inode(data)


def with_sidecar(pre, data):
    setfile(pre + "inventory.json", data)
    setfile(pre + "inventory.json.sha512", writer.sidecar_line(data, "sha512", "two"))


def run(case, world, out):
    {"json": run_json, "sidecar": run_sidecar, "declaration": run_declaration, "layout": run_layout, "config": run_config, "configtokens": run_layout, "extreme": run_extreme,
     "values": run_values, "kinds": run_kinds, "paths": run_paths}[case[0]](case, world, out)


def run_json(case, world, out):
    _, where, n, part = case
    be = Memory()
    be.put("obj", tree())
    for i, s in enumerate(strings(JSON_TOKENS, n, exact=True)):
        if n > 2 and i % 32 != part:
            continue
        data = b"".join(s)
        key = "json:%s:%r" % (where, data)
        out.state(data)
        if where == "root":
            with_sidecar("obj/", data)
            judge_object(be, key, out, False)
        elif where == "v1":
            with_sidecar("obj/v1/", data)
            judge_object(be, key, out, False)
        else:
            setfile("obj/inventory.json", data)
            judge_file(be, "obj/inventory.json", key, out, False)


def run_sidecar(case, world, out):
    _, pre, n, part = case
    be = Memory()
    good = tree()
    be.put("obj", good)
    d = oracle.digest("sha512", good[pre + "inventory.json"]).encode()
    tokens = [d if t == "DIGEST" else t for t in SIDECAR_TOKENS]
    for i, s in enumerate(strings(tokens, n if pre == "" else n - 1)):
        if pre == "" and i % 8 != part:
            continue
        data = b"".join(s)
        setfile("obj/%sinventory.json.sha512" % pre, data)
        key = "sidecar:%s:%r" % (pre, [t if t != d else "DIGEST" for t in s])
        line = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")
        want = None
        if not any(x.strip() for x in line[1:]):
            # What later lines may have is not checked. White space other than space and tab between digest and name, or around, is not specified
            e = line[0].split()
            if e != [d, b"inventory.json"] or b"\xff" in data:
                want = False
            elif line[0].strip(b" \t") == line[0] and data in (line[0], line[0] + b"\n"):
                want = True
        judge_object(be, key, out, want)
        out.state(data)
    if part:
        return
    for name in ("inventory.json x", "inventory.json inventory.json", "inventory.json\tx", "./inventory.json", "*inventory.json", "obj/inventory.json", "v1/inventory.json", "/inventory.json", "inventory.json/",
                 "inventory.json.sha512", "inventory.jsonx", "xinventory.json", "Inventory.json", "inventory-json", "inventory.json;", "", "inventory.json\\", "inventory.json#", "manifest.json"):
        for line in (b"%s  %s\n", b"%s %s", b"%s %s \n"):
            data = line % (d, name.encode())
            setfile("obj/%sinventory.json.sha512" % pre, data)
            judge_object(be, "sidecar:%s:name:%r" % (pre, line % (b"D", name.encode())), out, False)
            out.state(data)
    for x in ["0" * 128, "9" * 128, "1" * 64, "a" * 128, "f" * 129, "0" * 5000, "-" + "1" * 127, "1.5", "1e9", "_" * 128, "0x" + "1" * 126, "\u0661" * 128, "\u00e9", "nan", "None", "v1", "%s", "\\", "*"]:
        for name in ("inventory.json", "inventory.json.sha512", "INVENTORY.JSON", "./inventory.json", "*inventory.json", "v1/inventory.json", "0"):
            data = ("%s  %s\n" % (x, name)).encode()
            setfile("obj/%sinventory.json.sha512" % pre, data)
            judge_object(be, "sidecar:%s:%s:%s" % (pre, x[:8], name), out, False)
            out.state(data)


def run_declaration(case, world, out):
    _, what, n, part = case
    be = Memory()
    if what == "object":
        be.put("obj", tree())
    else:
        be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        be.put("root/o", writer.write_object([STATES[0]]))
    right = b"ocfl_object_1.1" if what == "object" else b"ocfl_1.1"
    for i, s in enumerate(strings(DECLARATION_TOKENS, n)):
        if i % 8 != part:
            continue
        data = b"".join(s)
        want = None
        if data in (right, right + b"\n"):
            want = True
        elif data.split() != [right]:
            want = False
        key = "declaration:%s:%r" % (what, data)
        if what == "object":
            setfile("obj/0=ocfl_object_1.1", data)
            judge_object(be, key, out, want)
        else:
            setfile("root/0=ocfl_1.1", data)
            judge_root(be, key, out, want, validate_objects=False)
        out.state(data)


def run_layout(case, world, out):
    kind, n, part = case
    be = Memory()
    be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
    ext = "0003-hash-and-id-n-tuple-storage-layout"
    if kind == "configtokens":
        be.put("root", {"ocfl_layout.json": jdump({"extension": ext, "description": "x"}), "extensions/%s/config.json" % ext: b""})
        tokens = LAYOUT_TOKENS[:6] + [b'"extensionName"', b'"digestAlgorithm"', b'"sha256"'] + LAYOUT_TOKENS[7:]
    else:
        be.put("root", {"ocfl_layout.json": b""})
        tokens = LAYOUT_TOKENS
    for i, s in enumerate(strings(tokens, n)):
        if i % (8 if kind == "configtokens" else 16) != part:
            continue
        data = b"".join(s)
        setfile("root/ocfl_layout.json" if kind == "layout" else "root/extensions/%s/config.json" % ext, data)
        judge_root(be, "%s:%r" % (kind, data), out, False, validate_objects=False)
        out.state(data)
    if part == 0 and kind == "layout":
        for a, b in itertools.product(CONFIG_VALUES + ["0002-flat-direct-storage-layout", ext], repeat=2):
            setfile("root/ocfl_layout.json", jdump({"extension": a, "description": b}))
            judge_root(be, "layout:%r:%r" % (a, b), out, a in ("0002-flat-direct-storage-layout", ext) and isinstance(b, str), validate_objects=False)


def run_config(case, world, out):
    _, ext, part = case
    be = Memory()
    be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": jdump({"extension": ext, "description": "x"}), "extensions/%s/config.json" % ext: b""})
    params = {"0003-hash-and-id-n-tuple-storage-layout": ["digestAlgorithm", "tupleSize", "numberOfTuples"], "nnnn-tuple-tree-layout": ["tupleSize"],
              "nnnn-uuid-quadtree": ["prefix"]}.get(ext, [])
    import ocfl
    for i, values in enumerate(itertools.product(["absent"] + CONFIG_VALUES, repeat=len(params))):
        if i % 8 != part:
            continue
        for name in (ext, None, "absent", "other", 1):
            if name != ext and len(params) == 3 and values[1:] != (3, 3):
                continue
            config = {"extensionName": name} if name != "absent" else {}
            config.update({p: v for p, v in zip(params, values) if v != "absent"})
            setfile("root/extensions/%s/config.json" % ext, jdump(config))
            want = config_ok(ext, config) if name == ext else False
            key = "config:%s:%s" % (ext, json.dumps(config))
            judge_root(be, key, out, want, validate_objects=False)
            out.state(key)


def whole(v):
    return isinstance(v, int) and not isinstance(v, bool)


def config_ok(ext, c):
    """True or False if the configuration is allowed by the description of the layout, None if it does not say."""
    if ext.startswith("0003"):
        a, t, n = c.get("digestAlgorithm"), c.get("tupleSize"), c.get("numberOfTuples")
        if None in (a, t, n):
            return False  # this implementation has no defaults for missing parameters in a configuration that is there
        if not isinstance(a, str) or a not in oracle.HEX:
            return False
        if a.startswith("blake2b"):
            return None  # allowed, but support is not promised
        if not whole(t) or not whole(n) or not 0 <= t <= 32 or not 0 <= n <= 32:
            return False
        return (t == 0) == (n == 0) and t * n <= oracle.HEX[a]
    if ext == "nnnn-tuple-tree-layout":
        return whole(c.get("tupleSize")) and 2 <= c["tupleSize"] <= 6
    if ext == "nnnn-uuid-quadtree":
        return isinstance(c.get("prefix"), str) and c["prefix"] != ""
    return True


def run_extreme(case, world, out):
    _, name = case
    data = EXTREME[name]
    good = tree()
    for p in [q for q in sorted(good) if good[q] is not None]:
        be = Memory()
        be.put("obj", good)
        setfile("obj/" + p, data)
        judge_object(be, "extreme:%s:%s" % (name, p), out, False)
        if p.endswith("inventory.json"):
            with_sidecar("obj/" + p[:-len("inventory.json")], data)
            judge_object(be, "extreme:%s:%s+" % (name, p), out, False)
            judge_file(be, "obj/" + p, "extreme:%s:%s" % (name, p), out, False)
    ext = "0003-hash-and-id-n-tuple-storage-layout"
    for p in ("0=ocfl_1.1", "ocfl_layout.json", "extensions/%s/config.json" % ext):
        be = Memory()
        be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": jdump({"extension": ext, "description": "x"}), "extensions/%s/config.json" % ext: b""})
        setfile("root/" + p, data)
        judge_root(be, "extreme:%s:%s" % (name, p), out, False)
    out.state(name)


def run_values(case, world, out):
    place = PLACES[case[1]]
    good = writer.write_object([STATES[0]], fixity=["md5"])
    for i, v in enumerate(VALUES):
        inv = json.loads(good["inventory.json"])
        at = inv
        for k in place[:-1]:
            at = at[k]
        at[place[-1]] = v
        try:
            data = json.dumps(inv).encode("utf-8", "surrogatepass")
        except RecursionError:
            continue
        be = Memory()
        be.put("obj", good)
        with_sidecar("obj/", data)
        with_sidecar("obj/v1/", data)
        # Any string will do for some values, otherwise not valid
        free = place[-1] in ("id", "message", "name") and isinstance(v, str) or place == ["contentDirectory"] and isinstance(v, str)
        judge_object(be, "value:%s:%d" % (place, i), out, None if free or place[-1] in ("created", "fixity", "md5") else False)
        judge_file(be, "obj/inventory.json", "value:%s:%d" % (place, i), out, None)
        out.state((place, i))


def run_kinds(case, world, out):
    """Entries that are not files or directories, on the local filesystem."""
    import socket
    kind = case[1]
    good = tree()
    for place in KIND_PLACES:
        if place == "":
            continue
        world.fresh()
        be = Local(world)
        be.put("r/obj", good)
        be.put("r", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        be.put("aside", {"file": b"a\n", "dir/file": b"a\n"})
        full = world.path("r/obj", place)
        if os.path.isdir(full):
            continue
        if os.path.exists(full):
            os.remove(full)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if kind == "fifo":
            if place.split("/")[-1].startswith(("inventory", "0=ocfl")) or "content/f0" in place:
                continue  # opening it would wait, as any program does
            os.mkfifo(full)
        elif kind == "socket":
            cwd = os.getcwd()
            os.chdir(os.path.dirname(full))
            s = socket.socket(socket.AF_UNIX)
            s.bind(os.path.basename(full))
            s.close()
            os.chdir(cwd)
        else:
            target = {"link-file": world.path("aside/file"), "link-dir": world.path("aside/dir"), "link-loop": world.path("r/obj"), "link-none": world.path("none"),
                      "link-self": full}[kind]
            os.symlink(target, full)
        key = "kind:%s:%s" % (kind, place)
        if kind == "socket" and place.split("/")[-1].startswith(("inventory", "0=ocfl")) or kind == "socket" and "content/f0" in place:
            continue  # opening it is an error
        # The specification says that these are not allowed, or does not make a difference between links and what they point to
        want = None if kind.startswith("link") else False
        if place.startswith("logs") or place.startswith("extensions/x"):
            want = None
        judge_object(be, key, out, want, "r/obj")
        if kind != "link-loop":
            judge_root(be, key, out, want, "r")
        out.state(key)


def run_paths(case, world, out):
    """Paths that aren't there or aren't what is asked for, and numbers of declarations."""
    import ocfl
    for n in range(0, 40):
        be = Memory()
        decl = {"0=x%d" % i: b"x%d\n" % i for i in range(n)}
        be.put("obj", dict(tree(), **decl))
        be.put("root", dict({"0=ocfl_1.1": b"ocfl_1.1\n"}, **decl))
        judge_object(be, "declarations:%d" % n, out, n == 0)
        judge_root(be, "declarations:%d" % n, out, n == 0)
        be.put("root2", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        be.put("root2/o", dict(tree(), **decl))
        judge_root(be, "object declarations:%d" % n, out, n == 0, "root2")
    for be in (Local(world), Memory()):
        be.put("obj", tree())
        be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        be.put("empty", {})
        for p in ("none", "none/none", "obj/inventory.json", "empty", "root", "obj/v1", "obj/inventory.json/x", "obj/"):
            if be.name == "mcfs" and p.endswith("json/x"):
                continue  # an error of this filesystem
            judge_object(be, "path:%s:%s" % (be.name, p), out, p == "obj/", p)
            try:
                ocfl.StorageRoot(root=be.url(p)).validate()
            except ocfl.StorageRootException:
                out.check(not be.exists(p) or p == "obj/inventory.json" or p.endswith("/x"), "path:%s:%s" % (be.name, p), "StorageRootException for existing directory %s" % p)
            out.step()
            judge_file(be, p, "path:%s:%s" % (be.name, p), out, p == "obj/inventory.json")
            out.state((be.name, p))
