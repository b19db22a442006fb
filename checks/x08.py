"""X08: the inventory classes answer and act as the inventory data says."""
import copy
import io
import itertools
import json
import os

from mc import oracle, writer
from mc.lib import STATES, Memory, seqs
from mc.tree import write_tree

PROPERTY = "X08"
LEVEL = "model_checking"
RULE = ("A state is a distinct inventory, written independently or reached by a sequence of operations; in each every accessor and query is compared with an independent reading of the JSON "
        "data; a transition is one operation compared with a model of maps")
ASSUMPTIONS = ["Digests are opaque to the classes: short strings stand for them in sequences of operations"]
DIGESTS = ["da", "dB"]
PATHS = ["p", "q/r"]
META = {"message": "m", "user": {"name": "n", "address": "mailto:a"}}
OPS = ([["version", None, None], ["version", None, 3], ["version", "v1", None], ["version", None, None, "meta"], ["version", None, None, "state"]]
       + [["add", d, p, None, True] for d in (0, 1) for p in (0, 1)] + [["add", 0, 0, None, False], ["add", 0, 1, None, False], ["add", 0, 1, "c", True], ["add", 1, 0, "c", False], ["add", 1, 1, "q", False]]
       + [["delete", 0], ["delete", 1], ["delete", None]]
       + [["fixity", 0], ["fixity", 1], ["unfix"], ["normalize"], ["manifest", 0], ["cd"], ["head"]])
FEATURES = [{}, {"pad": 3}, {"alg": "sha256", "cd": "data"}, {"case": "upper", "store": "dup"}, {"meta": "none", "spec": "1.0"}, {"meta": "name", "store": "all", "fixity": ["md5", "sha1"]}]
BOUNDS = {
    "quick": "inventories of all histories of up to 2 versions over %d states and one of 12 versions x %d sets of features, each also with every block left out; all sequences of up to 4 of %d "
             "operations from an empty inventory" % (len(STATES), len(FEATURES), len(OPS)),
    "thorough": "histories of up to 3 versions; all sequences of up to 5 operations",
}


def cases(tier):
    out = [["read", f, n] for f in range(len(FEATURES)) for n in (range(1, 3) if tier == "quick" else range(1, 4))] + [["long", f] for f in range(len(FEATURES))]
    out += [["ops", o, 4 if tier == "quick" else 5] for o in range(len(OPS))] + [["make"]]
    return out


def run(case, world, out):
    {"read": run_read, "long": run_long, "ops": run_ops, "make": run_make}[case[0]](case, world, out)


def run_read(case, world, out):
    _, f, n = case
    for s in seqs(len(STATES), n, n):
        tree = writer.write_object([STATES[i] for i in s], **FEATURES[f])
        inventory(oracle.load(tree["inventory.json"]), "%s:%s" % (f, s), world, out, parts=(n == 2 and s[0] == 2) or n == 1)
    out.sample = {"features": FEATURES[f], "versions": n}


def run_long(case, world, out):
    states = [{"f%d" % i: b"x%d" % i, "same": b"s"} for i in range(12)]
    tree = writer.write_object(states, **FEATURES[case[1]])
    inventory(oracle.load(tree["inventory.json"]), "long:%s" % case[1], world, out, parts=False)


def inventory(data, key, world, out, parts):
    compare(data, key, world, out)
    if parts:
        for k in list(data):
            compare({x: y for x, y in data.items() if x != k}, "%s:no %s" % (key, k), world, out)
        for v in data["versions"]:
            for k in data["versions"][v]:
                d = copy.deepcopy(data)
                del d["versions"][v][k]
                compare(d, "%s:no %s %s" % (key, v, k), world, out)


def number(v):
    return int(v[1:])


def answers(data):
    """Independent reading of what there is in an inventory."""
    manifest = data.get("manifest", {})
    versions = data.get("versions", {})
    order = sorted(versions, key=number)
    a = {
        "id": data.get("id"), "head": data.get("head"), "digest_algorithm": data.get("digestAlgorithm"), "content_directory": data.get("contentDirectory"),
        "content_directory_to_use": data.get("contentDirectory", "content"), "manifest": manifest, "fixity": data.get("fixity", {}), "versions_block": versions,
        "spec_version": data["type"].split("/")[3] if "type" in data else None, "content": {p: d for d, ps in manifest.items() for p in ps},
        "content_paths": sorted(p for ps in manifest.values() for p in ps), "version_directories": order, "version_numbers": [number(v) for v in order],
    }
    return a, order


def compare(data, key, world, out):
    import ocfl
    original = copy.deepcopy(data)
    inv = ocfl.Inventory(data)
    want, order = answers(data)
    out.step()
    out.state(data)
    out.done("inventory")
    for name, w in want.items():
        got = getattr(inv, name)
        if name == "content_paths":
            got = sorted(got)
        out.check(got == w, "%s:%s" % (key, name), lambda: "%s is %r, not %r" % (name, got, w))
    manifest = want["manifest"]
    out.check([v.vdir for v in inv.versions()] == order and [v.number for v in inv.versions()] == [number(v) for v in order], key, "versions are not in order")
    if data.get("head"):
        out.check(inv.current_version.vdir == data["head"], key, "current version is not head")
    where = {}
    for v in order + ["v99"]:
        block = data.get("versions", {}).get(v, {})
        ver = inv.version(v)
        user = block.get("user", {})
        state = block.get("state", {})
        out.check((ver.created, ver.message, ver.user, ver.user_name, ver.user_address, ver.state) ==
                  (block.get("created"), block.get("message"), user, user.get("name"), user.get("address"), state), "%s:%s" % (key, v), "properties of version are wrong")
        logical = {p: d for d, ps in state.items() for p in ps}
        out.check(sorted(ver.logical_paths) == sorted(logical), "%s:%s" % (key, v), "logical paths are wrong")
        for p in list(logical) + ["none", "", "a/"]:
            d = logical.get(p)
            out.check(ver.digest_for_logical_path(p) == d, "%s:%s:%s" % (key, v, p), "digest of logical path is wrong")
            c = manifest.get(d, [None])[0]
            out.check(ver.content_path_for_logical_path(p) == c, "%s:%s:%s" % (key, v, p), "content path of logical path is wrong")
        where.update({p: (v, manifest.get(d, [None])[0]) for p, d in logical.items()})
        out.step()
    for p in list(where) + ["none"]:
        got = inv.find_logical_path(p)
        out.check(got == where.get(p, (None, None)), "%s:find:%s" % (key, p), lambda: "find_logical_path gives %s, not %s" % (got, where.get(p)))
    for p in list(want["content"]) + ["none"]:
        out.check(inv.digest_for_content_path(p) == want["content"].get(p), "%s:%s" % (key, p), "digest of content path is wrong")
    for d in list(manifest) + ["none"]:
        out.check(inv.content_paths_for_digest(d) == manifest.get(d, []) and inv.content_path_for_digest(d) == manifest.get(d, [None])[0], "%s:%s" % (key, d[:8]), "content paths of digest are wrong")
    # Asking changes nothing
    out.check(inv.data == original == data, key, "inventory was changed by queries")
    # Written and read it is the same, and a copy shares nothing with the original
    text = inv.as_json()
    fh = io.StringIO()
    inv.write_json(fh)
    out.check(json.loads(text) == data and json.loads(fh.getvalue()) == data, key, "JSON written is not that of the data")
    out.check(text == json.dumps(data, sort_keys=True, indent=2) == fh.getvalue(), key, "JSON written is not in the usual form")
    write_tree(world.path("i"), {"x.json": text.encode()})
    be = Memory()
    be.put("i", {"x.json": text.encode()})
    from ocfl.fsw import fsw_openfs
    cwd = os.getcwd()
    os.chdir(world.dir)
    try:
        read = [ocfl.Inventory(filepath="i/x.json"), ocfl.Inventory(filepath="x.json", fsw=fsw_openfs(be.url("i"))), ocfl.Inventory(filepath=world.path("i/x.json"))]
    finally:
        os.chdir(cwd)
    out.check(all(r.data == data for r in read), key, "inventory read from file differs")
    dup = ocfl.Inventory(inv)
    scramble(dup.data)
    out.check(inv.data == data, key, "a copy of an inventory is not independent")
    scramble(inv.data)
    out.check(data == original, key, "the data that the inventory was made from was changed")
    # Normalization
    if data.get("digestAlgorithm") in ("sha512", "sha256"):
        inv = ocfl.Inventory(data)
        inv.normalize_digests(data["digestAlgorithm"])
        low = copy.deepcopy(original)
        if "manifest" in low:
            low["manifest"] = {d.lower(): ps for d, ps in low["manifest"].items()}
        for b in low.get("versions", {}).values():
            if "state" in b:
                b["state"] = {d.lower(): ps for d, ps in b["state"].items()}
        out.check(inv.data == low, key, "normalized digests are wrong")


def scramble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        x["scrambled"] = 1
    elif isinstance(x, list):
        x.append("scrambled")


class Model:
    """Reference: inventory as plain maps."""

    def __init__(self):
        self.versions = []      # [vdir, metadata, {path: digest} in order]
        self.manifest = []      # [(content path, digest)]
        self.fixity = {}
        self.extra = {}

    def content(self):
        return [p for p, _ in self.manifest]


class Refused(Exception):
    pass


def next_dir(m, width):
    if not m.versions:
        return "v" + (str(1).zfill(width) if width else "1")
    last = sorted((v[0] for v in m.versions), key=number)[-1]
    n = number(last) + 1
    return "v" + (str(n).zfill(len(last) - 1) if last[1] == "0" else str(n))


def model_step(m, op):
    """Apply to the model; return expected result."""
    if op[0] == "version":
        vdir = op[1] or next_dir(m, op[2])
        kind = op[3] if len(op) > 3 else None
        new = [vdir, copy.deepcopy(META) if kind == "meta" else {}, [("given", "dg")] if kind == "state" else []]
        m.versions = [new if v[0] == vdir else v for v in m.versions]
        if new not in m.versions:
            m.versions.append(new)
        m.extra["head"] = vdir
        return vdir
    cur = next((v for v in m.versions if v[0] == m.extra.get("head")), None)
    if op[0] == "add":
        if cur is None:
            raise Refused()
        d, p = DIGESTS[op[1]], PATHS[op[2]]
        if p in [x for x, _ in cur[2]]:
            raise Refused()
        result = None
        if not op[4] or d not in [x for _, x in m.manifest]:
            c = "%s/%s/%s" % (cur[0], m.extra.get("cd", "content"), op[3] or p)
            result, n = c, 1
            while result in m.content():
                n += 1
                result = "%s__%d" % (c, n)
            m.manifest.append((result, d))
        cur[2].append((p, d))
        return result
    if op[0] == "delete":
        p = "none" if op[1] is None else PATHS[op[1]]
        if cur is None or p not in [x for x, _ in cur[2]]:
            raise Refused()
        d = dict(cur[2])[p]
        cur[2] = [x for x in cur[2] if x[0] != p]
        if d not in [x for _, x in cur[2]]:
            gone = [c for c, x in m.manifest if x == d and c.startswith(cur[0] + "/")]
            m.manifest = [x for x in m.manifest if x[0] not in gone]
            for alg in m.fixity:
                m.fixity[alg] = [x for x in m.fixity[alg] if x[0] not in gone]
        return d
    if op[0] == "fixity":
        alg = ("md5", "sha1")[op[1]]
        m.fixity[alg] = [(c, "f" + d) for c, d in m.manifest]
    elif op[0] == "unfix":
        first = m.content()[:1]
        for alg in m.fixity:
            m.fixity[alg] = [x for x in m.fixity[alg] if x[0] not in first]
    elif op[0] == "normalize":
        m.manifest = [(c, d.lower()) for c, d in m.manifest]
        for v in m.versions:
            v[2] = [(p, d.lower()) for p, d in v[2]]
    elif op[0] == "manifest":
        c = "v1/content/p"
        if c in m.content():
            raise Refused()
        m.manifest.append((c, DIGESTS[op[1]]))
    elif op[0] == "cd":
        m.extra["cd"] = "data"
    elif op[0] == "head":
        if m.versions:
            m.extra["head"] = m.versions[0][0]
    return None


def real_step(inv, op):
    if op[0] == "version":
        kind = op[3] if len(op) > 3 else None
        given = copy.deepcopy(META) if kind == "meta" else None
        vdir = inv.add_version(op[1], zero_padded_width=op[2], metadata=given, state={"dg": ["given"]} if kind == "state" else None).vdir
        scramble(given)      # The inventory has its own
        return vdir
    if op[0] == "add":
        if inv.head is None:
            raise Refused()
        return inv.current_version.add_file(digest=DIGESTS[op[1]], logical_path=PATHS[op[2]], content_path=op[3], dedupe=op[4])
    if op[0] == "delete":
        return inv.current_version.delete_logical_path("none" if op[1] is None else PATHS[op[1]])
    if op[0] == "fixity":
        alg = ("md5", "sha1")[op[1]]
        inv.add_fixity_type(alg)
        for c, d in inv.content.items():
            inv.add_fixity_data(alg, "f" + d, c)
    elif op[0] == "unfix":
        for c in inv.data.get("__first", []):
            inv.remove_fixity_data(c)
    elif op[0] == "normalize":
        inv.normalize_digests("sha512")
    elif op[0] == "manifest":
        inv.add_file_to_manifest(digest=DIGESTS[op[1]], content_path="v1/content/p")
    elif op[0] == "cd":
        inv.content_directory = "data"
    elif op[0] == "head":
        if inv.version_directories:
            inv.head = first_written(inv)
    return None


def first_written(inv):
    return next(iter(inv.versions_block))


def digest_map(pairs):
    m = {}
    for p, d in pairs:
        m.setdefault(d, []).append(p)
    return m


def unordered(block):
    return {d: sorted(ps) for d, ps in block.items()}


def run_ops(case, world, out):
    import ocfl
    from ocfl.inventory import InventoryException
    _, first, depth = case
    frontier = [({}, Model(), [])]
    seen = set()
    for n in range(depth):
        following = []
        for data, model, history in frontier:
            for o, op in enumerate(OPS):
                if n == 0 and o != first:
                    continue
                h = history + [op]
                key = str(h)
                m = copy.deepcopy(model)
                inv = ocfl.Inventory(data)
                before = copy.deepcopy(inv.data)
                try:
                    want, ok = model_step(m, op), True
                except Refused:
                    want, ok = None, False
                try:
                    if op[0] == "unfix":
                        for c in model.content()[:1]:
                            inv.remove_fixity_data(c)
                        got = None
                    else:
                        got = real_step(inv, op)
                    done = True
                except (InventoryException, Refused):
                    got, done = None, False
                out.step()
                out.done("%s %s" % (op[0], "done" if done else "refused"))
                if not out.check(done == ok, key, lambda: "operation %s was %s" % (op, "done" if done else "refused")):
                    continue
                if not done:
                    out.check(inv.data == before or inv.data == dict(before, manifest={}), key, "operation that was refused has effects")
                    continue
                out.check(got == want, key, lambda: "operation %s returns %r, not %r" % (op, got, want))
                good = (unordered(inv.manifest) == unordered(digest_map(m.manifest)) and inv.head == m.extra.get("head") and
                        {v: unordered(b.get("state", {})) for v, b in inv.versions_block.items()} == {v[0]: unordered(digest_map(v[2])) for v in m.versions} and
                        {v: {k: x for k, x in b.items() if k != "state"} for v, b in inv.versions_block.items()} == {v[0]: v[1] for v in m.versions} and
                        {a: unordered(b) for a, b in inv.fixity.items()} == {a: unordered(digest_map(x)) for a, x in m.fixity.items()} and
                        inv.content_directory == m.extra.get("cd"))
                out.check(good, key, lambda: "inventory is %s, model %s" % (json.dumps(inv.data), vars(m)))
                canon = (json.dumps(inv.data), json.dumps([m.versions, m.manifest, m.fixity, m.extra]))
                out.state(canon)
                if canon not in seen and good and n + 1 < depth:
                    seen.add(canon)
                    following.append((inv.data, m, h))
        frontier = following
    out.sample = {"first": OPS[first], "states": len(seen)}


def run_make(case, world, out):
    """Helpers for names, compared with simple definitions over all small inputs."""
    from ocfl.inventory import InventoryException
    from ocfl.object_utils import ObjectException, first_version_directory, make_unused_filepath, next_version_directory, parse_version_directory, remove_first_directory
    names = ["a", "a__2", "a__3", "b", "a/b", "a__2__2"]
    for n in range(len(names) + 1):
        for used in itertools.combinations(names, n):
            for want in names:
                expect, k = want, 1
                while expect in used:
                    k += 1
                    expect = "%s__%d" % (want, k)
                out.step()
                out.state((used, want))
                out.done("unused")
                for form in (set(used), list(used), dict.fromkeys(used)):
                    out.check(make_unused_filepath(want, form) == expect, "unused:%s:%s" % (want, used), "name not used is wrong")
                expect, k = want, 1
                while expect in used:
                    k += 1
                    expect = "%s.%d" % (want, k)
                out.check(make_unused_filepath(want, used, separator=".") == expect, "unused:sep", "name with other separator is wrong")
    for parts in seqs(4, 1, 4):
        segs = [["a", "bb", ".c", "d e"][i] for i in parts]
        for tail in ("", "/"):
            got = remove_first_directory("/".join(segs) + tail)
            out.step()
            out.state(("remove", tuple(segs), tail))
            out.done("removed first directory")
            out.check(got == "/".join(segs[1:]), "first:%s%s" % (segs, tail), lambda: "path without first directory is %r" % got)
    for width in [None] + list(range(-1, 9)):
        try:
            got = first_version_directory(width)
        except ObjectException:
            got = None
        out.step()
        out.done("first version")
        want = "v1" if width is None else ("v" + "1".zfill(width) if 2 <= width <= 5 else None)
        out.check(got == want, "firstv:%s" % width, lambda: "first version of width %s is %s" % (width, got))
        if got:
            seq = [got]
            while len(seq) < 10 ** min((width or 3) - 1, 3) - 1:
                seq.append(next_version_directory(seq[-1]))
                out.step()
            out.check([parse_version_directory(v) for v in seq] == list(range(1, len(seq) + 1)) and (not width or all(len(v) == width + 1 for v in seq)), "nextv:%s" % width,
                      "sequence of version directories is wrong")
            if width == 2 or width == 3:
                try:
                    got = next_version_directory("v" + "0" + "9" * (width - 1))
                    out.violation("nextv:overflow", "version after the last is %s" % got)
                except ObjectException:
                    pass
