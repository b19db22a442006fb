"""V02: an inventory is accepted exactly if it follows the rules of the specification."""
import copy
import json

from mc import oracle, writer
from mc.lib import STATES, Memory, jdump, make_object, validate

PROPERTY = "V02"
LEVEL = "model_checking"
RULE = ("An execution is the validation of an inventory with one change (or two) at the level of JSON values, keys and strings, alone and in an object whose "
        "sidecars are right, with the verdict compared with that of an independent validator; a state is a distinct inventory")
ASSUMPTIONS = ["The independent validator (mc/oracle.py) implements the OCFL 1.0 and 1.1 rules for inventories", "Values outside the alphabet behave like those in it"]
SPECS = {
    "one": dict(states=[0]),
    "two": dict(states=[2, 1], fixity=["md5"]),
    "alg": dict(states=[1, 2], alg="sha256", cd="data", pad=2, fixity=["sha1", "blake2b-160"], store="dup"),
    "old": dict(states=[0, 5], spec="1.0", meta="none"),
    "name": dict(states=[3], meta="name", case="upper"),
    "void": dict(states=[5], cd="data"),
}
GENERIC = [None, True, 0, 1, -1, 1.5, "", "x", " ", [], {}, [""], [None], [1], ["x"], {"": ""}, {"x": []}, {"x": 1}, {"x": ["y"]}, [["x"]]]
ROLES = {
    "created": ["2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.000Z", "2020-01-01T00:00:00+00:00", "2020-01-01T00:00Z",
                "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01T24:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:00Z\n", "2020", "now",
                " 2020-01-01T00:00:00Z", "\u0662020-01-01T00:00:00Z", "2020-01-01T00:00:00-23:59"],
    "type": ["https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.2/spec/#inventory", "https://ocfl.io/1.0/spec/",
             "https://ocfl.io/1.10/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory ", "http://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1x1/spec/#inventory"],
    "digestAlgorithm": ["sha512", "sha256", "md5", "sha1", "SHA512", "blake2b-512", "sha512-spec-ex", "unknown", "sha512 "],
    "contentDirectory": ["content", "data", "c", ".", "..", "a/b", "/", "content/", "...", "a b", "content\n"],
    "head": ["v1", "v2", "v3", "v01", "v02", "v0", "V1", "1", "v1\n", "v"],
    "id": ["info:x/y", "http://example.org/", "not a uri", "/", "x\n", "\u00e9"],
    "name": ["N", "\u00e9\n"], "address": ["mailto:x@y", "not"], "message": ["m", "\n"],
    "cpath": ["v1/content/x", "v2/content/x", "v1/data/x", "v01/data/x", "v3/content/x", "v1/content", "v1/content/", "content/x", "/v1/content/x", "v1//content/x",
              "v1/content/../x", "v1/content/./x", "v1/../v1/content/x", "V1/content/x", "v1/contentx/x", "v1/content/a/b/c", "v1/content/x/b/c/d/e", "v0/content/x", "v1\n/content/x",
              "v1/content/x\n", "v1/content/..."],
    "lpath": ["a", "b", "d", "d/b", "a/b", "/a", "a/", "a//b", ".", "..", "./a", "a/.", "a/../b", "a/..", "...", " ", "a\n", "A", "d/b/c", "v1/content/a", "a/b/c/d", "d/b/c/d/e"],
    "digest": ["same-upper", "same-mixed", "short", "long", "nothex", "other", "newline", "space", ""],
    "version": ["v1", "v2", "v3", "v0", "v01", "v02", "v002", "V2", "2", "v-1", "v2\n", "v1.0", "v\u0662", "v10", "version"],
    "alg": ["md5", "sha1", "sha256", "sha512", "unknown", "MD5", "sha512-spec-ex", "blake2b-160", "", "md5 "],
    "key": ["id", "type", "extra", "ID", "manifest", "versions", "fixity", "state", "created", "user", "message", "name", "address", ""],
}
BOUNDS = {
    "quick": "%d inventories x every change of a value, key, list or string from the alphabet of its role, alone and in an object" % len(SPECS),
    "thorough": "the same, and all pairs of changes of two inventories validated alone",
}


def base(name):
    spec = dict(SPECS[name])
    tree = writer.write_object([STATES[j] for j in spec.pop("states")], **spec)
    return tree, json.loads(tree["inventory.json"])


def role_of(path):
    """Role of the value and of the key at a path in an inventory."""
    n = len(path)
    top = path[0]
    if top in ("manifest",):
        return {1: (None, "key"), 2: (None, "digest"), 3: ("cpath", None)}[min(n, 3)]
    if top == "fixity":
        return {1: (None, "key"), 2: (None, "alg"), 3: (None, "digest"), 4: ("cpath", None)}[min(n, 4)]
    if top == "versions":
        if n == 1:
            return None, "key"
        if n == 2:
            return None, "version"
        if n == 3:
            return (path[2] if path[2] in ROLES else None), "key"
        if path[2] == "state":
            return {4: (None, "digest"), 5: ("lpath", None)}[min(n, 5)]
        return (path[3] if path[3] in ROLES else None), "key"
    return (top if top in ROLES else None), "key"


def nodes(value, path=()):
    """All paths in value."""
    if path:
        yield list(path)
    if isinstance(value, dict):
        for k in value:
            yield from nodes(value[k], path + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from nodes(v, path + (i,))


def other_digest(d, kind, inv):
    if kind == "same-upper":
        return d.upper()
    if kind == "same-mixed":
        return "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(d))
    return {"short": d[:-1], "long": d + "0", "nothex": "g" + d[1:], "other": ("0" if d[0] != "0" else "1") + d[1:], "newline": d[:-1] + "\n",
            "space": " " + d, "": ""}[kind]


def changes(inv):
    """All changes [kind, path, argument]."""
    out = []
    for path in nodes(inv):
        value = inv
        for k in path:
            value = value[k]
        vrole, krole = role_of(path)
        out.append(["delete", path, None])
        for v in GENERIC + ROLES.get(vrole, []):
            out.append(["set", path, v])
        if isinstance(value, str):
            for f in ("upper", "nl", "sp", "cut", "nul"):
                out.append(["str", path, f])
        if krole is not None:
            for k in ROLES[krole]:
                out.append(["key", path, k])
                out.append(["copykey", path, k])
            out.append(["key", path, "x"])
            out.append(["key", path, "/"])
        if isinstance(value, dict):
            child = role_of(path + ["x"])[1]
            for k in ROLES.get(child, []):
                out += [["put", path + [k], v] for v in (None, "x", [], {}, ["x"])]
        if isinstance(value, list):
            out.append(["append", path, None])
            for v in ROLES.get(role_of(path + [0])[0], []):
                out.append(["append", path, v])
        # Same value as at other places of the same kind
        for q in nodes(inv):
            if q != path and len(q) == len(path) and q[0] == path[0] and q < path:
                out.append(["swap", path, q])
    for v in GENERIC:
        out.append(["root", [], v])
    out.append(["none", [], None])
    return out


def at(value, path):
    for k in path:
        value = value[k]
    return value


def apply(inv, change):
    kind, path, arg = change
    if kind == "none":
        return inv
    if kind == "root":
        return arg
    inv = copy.deepcopy(inv)
    try:
        parent = at(inv, path[:-1])
        k = path[-1]
        if kind == "delete":
            del parent[k]
        elif kind == "set":
            parent[k] = copy.deepcopy(arg)
        elif kind == "put":
            if k in parent:
                return None
            parent[k] = arg
        elif kind == "str":
            s = parent[k]
            parent[k] = {"upper": s.upper(), "nl": s + "\n", "sp": " " + s, "cut": s[:-1], "nul": s + "\0"}[arg]
        elif kind in ("key", "copykey"):
            if role_of(path)[1] == "digest" and arg in ROLES["digest"]:
                arg = other_digest(k, arg, inv)
            if arg in parent:
                return None
            items = list(parent.items())
            parent.clear()
            for kk, v in items:
                if kk == k:
                    if kind == "copykey":
                        parent[kk] = v
                    parent[arg] = copy.deepcopy(v)
                else:
                    parent[kk] = v
        elif kind == "append":
            v = parent[k]
            v.append(copy.deepcopy(v[0]) if arg is None and v else arg)
        elif kind == "swap":
            other = at(inv, arg[:-1])
            parent[k], other[arg[-1]] = copy.deepcopy(other[arg[-1]]), copy.deepcopy(parent[k])
    except (KeyError, IndexError, TypeError, AttributeError):
        return None
    return inv


def cases(tier):
    out = [["single", n, p, 12] for n in SPECS for p in range(12)]
    if tier == "thorough":
        for n in ("one", "two"):
            out += [["pair", n, i] for i in range(len(changes(base(n)[1])))]
    return out




def alone(inv, key, out):
    from ocfl.inventory_validator import InventoryValidator
    problems = oracle.inventory_problems(inv)
    iv = InventoryValidator()
    verdict = iv.validate(copy.deepcopy(inv))
    out.step()
    out.check(verdict == (not problems), key, lambda: "inventory with %s is reported %s %s, independent validator finds %s" % (
        key, "valid" if verdict else "invalid", sorted(iv.log.codes), problems[:3]))
    return problems


def run(case, world, out):
    mode, name = case[:2]
    tree, inv = base(name)
    every = changes(inv)
    if mode == "pair":
        first = apply(inv, every[case[2]])
        if first is None:
            out.done("not possible")
            return
        for ch in every[case[2] + 1:]:
            if ch[0] == "root":
                continue
            second = apply(first, ch)
            if second is None:
                continue
            problems = alone(second, "%s:%s:%s" % (name, every[case[2]], ch), out)
            out.done("pair %s" % ("invalid" if problems else "valid"))
        out.state((name, case[2]))
        return
    head = inv["head"]
    for ch in every[case[2]::case[3]]:
        changed = apply(inv, ch)
        if changed is None:
            continue
        key = "%s:%s" % (name, ch)
        problems = alone(changed, key, out)
        out.done("%s %s" % (ch[0], "invalid" if problems else "valid"))
        out.state(jdump(changed))
        # In an object
        data = jdump(changed)
        alg = changed.get("digestAlgorithm") if isinstance(changed, dict) else None
        alg = alg if alg in ("sha512", "sha256", "md5", "sha1", "blake2b-512") else "sha512"
        t = {p: d for p, d in tree.items() if not p.split("/")[-1].startswith("inventory.json")}
        for pre in ("", head + "/"):
            t[pre + "inventory.json"] = data
            t[pre + "inventory.json." + alg] = writer.sidecar_line(data, alg, "two")
        be = Memory()
        be.put("obj", t)
        passed, codes = validate(be, "obj")
        want = oracle.object_problems(t)
        out.step()
        out.done("object %s" % ("valid" if passed else "invalid"))
        out.check(passed == (not want), key + ":object", lambda: "object with inventory %s is reported %s %s, independent validator finds %s" % (
            ch, "valid" if passed else "invalid", codes, want[:3]))
        ok, v = make_object({}).validate_inventory(be.url("obj") + "/inventory.json")
        out.check(ok == (not problems), key + ":file", lambda: "inventory file with %s is reported %s" % (ch, "valid" if ok else "invalid"))
    out.sample = {"inventory": name, "changes": len(every)}
