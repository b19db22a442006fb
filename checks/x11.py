"""X11: each rule that is broken is reported under its code in the specification, saying where and what."""
import copy
import itertools
import json
import re

from mc import oracle, writer
from mc.lib import A, B, STATES, Memory, jdump, make_object

from . import v05

PROPERTY = "X11"
LEVEL = "model_checking"
RULE = ("An execution is the validation of one object (or inventory or storage root) that breaks one rule (or two) in one place, of which the codes, messages, counts and what is kept of them "
        "under each setting are compared with those of a table of rules; a state is a distinct (object, rules broken, place)")
ASSUMPTIONS = ["The wording of messages is not part of the property, only that they name the code, the link to the rule in the specification, the place and the values at fault"]
BASES = {
    "plain": dict(), "old": dict(spec="1.0"), "sha256": dict(alg="sha256", cd="data"), "pad": dict(pad=3, fixity=["md5", "blake2b-256"]), "upper": dict(case="upper", meta="name"),
    "bare": dict(meta="none", store="dup"), "content": dict(cd="content", spec="1.0"),
}
CODES = ({"E%03d" % n for n in range(1, 113)} - {"E016", "E065", "E068", "E091"}) | {"W%03d" % n for n in range(1, 17)}
OTHER = {"W901"}     # Not in the specification, and said to be so in the documentation


def first(inv):
    return sorted(inv["versions"], key=lambda v: int(v[1:]))[0]


def drop(*path):
    def f(inv):
        x = inv
        for k in path[:-1]:
            x = x[first(inv) if k == "*" else k]
        if path[-1] not in x:
            return False
        del x[path[-1]]
        return None
    return f


def put(value, *path):
    def f(inv):
        x = inv
        for k in path[:-1]:
            x = x[first(inv) if k == "*" else k] if k != "user" else x.setdefault("user", {"name": "N"})
        x[first(inv) if path[-1] == "*" else path[-1]] = value(inv) if callable(value) else value
    return f


def manifest(change):
    """Change in the first digest of the manifest (and the state too if it is one of the digest)."""
    def f(inv):
        d = sorted(inv["manifest"])[0]
        return change(inv, d)
    return f


def set_paths(value):
    def f(inv, d):
        inv["manifest"][d] = value(inv["manifest"][d]) if callable(value) else value
    return manifest(f)


def state_of(change):
    def f(inv):
        state = inv["versions"][first(inv)]["state"]
        return change(inv, state, sorted(state)[0])
    return f


def set_logical(value):
    def f(inv, state, d):
        state[d] = value(state[d]) if callable(value) else value
    return state_of(f)


def move_state(new):
    def f(inv, state, d):
        state[new(d)] = state.pop(d)
    return state_of(f)


def other_case(inv, d):
    e = d.upper() if d != d.upper() else d.lower()
    paths = inv["manifest"][d]
    inv["manifest"][e] = [paths[0].rpartition("/")[0] + "/other-case"]


def flip(d):
    return ("1" if d[0] == "0" else "0") + d[1:]


def renumber(new):
    def f(inv):
        old = sorted(inv["versions"])
        names = new(old)
        inv["versions"] = dict(zip(names, [inv["versions"][v] for v in old]))
    return f


def md5(inv):
    return oracle.digest("md5", b"zz")


def some(inv):
    return sorted(p for paths in inv["manifest"].values() for p in paths)[0]


def cdir(inv):
    return some(inv).rpartition("/")[0] + "/"


# Rules for one inventory: name -> (change, codes of which one has to be reported, what the message has to name)
INVENTORY = {
    "no-id": (drop("id"), ["E036"], []), "empty-id": (put("", "id"), ["E037"], []), "number-id": (put(5, "id"), ["E037"], []),
    "no-type": (drop("type"), ["E036"], []), "odd-type": (put("odd", "type"), ["E038"], ["odd"]), "number-type": (put(1, "type"), ["E038"], []),
    "future-type": (put("https://ocfl.io/7.1/spec/#inventory", "type"), ["E038"], ["7.1"]),
    "no-alg": (drop("digestAlgorithm"), ["E036"], []), "md5-alg": (put("md5", "digestAlgorithm"), ["E025"], ["md5"]), "list-alg": (put([], "digestAlgorithm"), ["E025"], []),
    "no-head": (drop("head"), ["E036"], []), "bad-head": (put("v77", "head"), ["E040"], ["v77"]), "number-head": (put(2, "head"), ["E040"], []),
    "no-manifest": (drop("manifest"), ["E041"], ["manifest"]), "no-versions": (drop("versions"), ["E041"], ["versions"]),
    "list-manifest": (put([], "manifest"), ["E041"], []), "list-versions": (put([], "versions"), ["E044"], []), "empty-versions": (put({}, "versions"), ["E008"], []),
    "cd-slash": (put("a/b", "contentDirectory"), ["E017"], []), "cd-dot": (put(".", "contentDirectory"), ["E018"], []), "cd-dots": (put("..", "contentDirectory"), ["E018"], []),
    "from-v2": (renumber(lambda vs: ["v%d" % (i + 2) for i in range(len(vs))]), ["E009"], []), "gap": (renumber(lambda vs: vs[:-1] + ["v9"] if len(vs) > 1 else ["v9"]), ["E009", "E010"], []),
    "mixed-pad": (renumber(lambda vs: vs[:-1] + ["v00%d" % len(vs) if vs[0] == "v1" else "v%d" % len(vs)] if len(vs) > 1 else ["v-1"]), ["E009", "E010", "E011", "E012"], []),
    "no-created": (drop("versions", "*", "created"), ["E048"], ["{v}"]), "no-state": (drop("versions", "*", "state"), ["E048"], ["{v}"]),
    "list-version": (put([], "versions", "*"), ["E048"], ["{v}"]),
    "bad-created": (put("yesterday", "versions", "*", "created"), ["E049"], ["{v}", "yesterday"]), "day-created": (put("2020-01-01", "versions", "*", "created"), ["E049"], ["{v}"]),
    "number-created": (put(2020, "versions", "*", "created"), ["E049"], ["{v}"]), "zone-created": (put("2020-01-01T00:00:00", "versions", "*", "created"), ["E049"], ["{v}"]),
    "number-message": (put(1, "versions", "*", "message"), ["E094"], ["{v}"]),
    "list-user": (put([], "versions", "*", "user"), ["E054"], ["{v}"]), "no-name": (put({"address": "mailto:x"}, "versions", "*", "user"), ["E054"], ["{v}"]),
    "number-name": (put({"name": 1, "address": "mailto:x"}, "versions", "*", "user"), ["E054"], ["{v}"]),
    "number-address": (put({"name": "N", "address": 1}, "versions", "*", "user"), ["E054"], ["{v}"]),
    "list-state": (put([], "versions", "*", "state"), ["E050"], ["{v}"]), "string-logical": (set_logical("x"), ["E050", "E051"], ["{v}"]), "number-logical": (set_logical([1]), ["E050", "E051"], ["{v}"]),
    "unknown-state": (move_state(flip), ["E050"], ["{v}"]), "short-state": (move_state(lambda d: d[:-1]), ["E050"], ["{v}"]),
    "slash-first": (set_logical(["/zz"]), ["E053"], ["{v}", "/zz"]), "slash-last": (set_logical(["zz/"]), ["E053"], ["{v}", "zz/"]), "dot": (set_logical(["zz/./y"]), ["E052"], ["{v}", "zz/./y"]),
    "dots": (set_logical(["../zz"]), ["E052"], ["{v}", "../zz"]), "empty-element": (set_logical(["zz//y"]), ["E052"], ["{v}", "zz//y"]),
    "logical-twice": (set_logical(["zz", "zz"]), ["E095"], ["{v}", "zz"]), "logical-conflict": (set_logical(["zz", "zz/y"]), ["E095"], ["{v}", "zz"]),
    "logical-deep": (set_logical(["zz", "zz/y/w/t"]), ["E095"], ["{v}", "zz"]),
    "string-paths": (set_paths("x"), ["E092"], ["{d}"]), "number-path": (set_paths([7]), ["E042", "E092"], ["7"]), "object-paths": (set_paths({}), ["E092"], ["{d}"]),
    "path-first": (set_paths(lambda p: ["/" + p[0]]), ["E100"], ["/v"]), "path-last": (set_paths(lambda p: [p[0] + "/"]), ["E100"], []), "path-outside": (set_paths(["zz"]), ["E042"], ["zz"]),
    "path-version": (set_paths(lambda p: ["v88" + p[0][p[0].index("/"):]]), ["E042"], ["v88"]), "path-cd": (set_paths(lambda p: [p[0].replace("/", "/zz/", 1)]), ["E042"], ["zz/"]),
    "path-dot": (set_paths(lambda p: [p[0].rpartition("/")[0] + "/./zz"]), ["E099"], ["./zz"]), "path-dots": (set_paths(lambda p: [p[0].rpartition("/")[0] + "/zz/../y"]), ["E099"], ["zz/../y"]),
    "path-empty": (set_paths(lambda p: [p[0].rpartition("/")[0] + "/zz//y"]), ["E099"], ["zz//y"]), "path-twice": (set_paths(lambda p: p + p), ["E101"], []),
    "path-conflict": (set_paths(lambda p: p + [p[0] + "/zz"]), ["E101"], []), "path-deep": (set_paths(lambda p: p + [p[0] + "/zz/y/t"]), ["E101"], []),
    "long-digest": (manifest(lambda inv, d: inv["manifest"].update({d + "0": inv["manifest"].pop(d)})), ["E025"], ["{d}0"]), "digest-case": (manifest(other_case), ["E096"], []),
    "unused": (manifest(lambda inv, d: inv["manifest"].update({flip(d): [cdir(inv) + "zz"]})), ["E107"], []),
    "missing-digest": (manifest(lambda inv, d: inv["manifest"].pop(d) and None), ["E050"], []),
    "list-fixity": (put([], "fixity"), ["E111", "E056", "E057"], []), "odd-fixity": (put({"oddalg": {}}, "fixity"), ["E056"], ["oddalg"]), "list-md5": (put({"md5": []}, "fixity"), ["E057"], ["md5"]),
    "short-md5": (put(lambda inv: {"md5": {"abc": [some(inv)]}}, "fixity"), ["E057"], ["md5", "abc"]),
    "string-md5": (put(lambda inv: {"md5": {md5(inv): some(inv)}}, "fixity"), ["E057"], ["md5", oracle.digest("md5", b"zz")]),
    "path-md5": (put(lambda inv: {"md5": {md5(inv): ["v1/content/zz"]}}, "fixity"), ["E057"], ["md5", "v1/content/zz"]),
    "case-md5": (put(lambda inv: {"md5": {md5(inv): [some(inv)], md5(inv).upper(): [some(inv)]}}, "fixity"), ["E097"], ["md5"]),
    "list": (lambda inv: [], ["E033"], []),
}
# Warnings: the object stays valid
WARNINGS = {
    "no-message": (drop("versions", "*", "message"), ["W007"], ["{v}"]), "no-user": (drop("versions", "*", "user"), ["W007"], ["{v}"]),
    "no-address": (put({"name": "N"}, "versions", "*", "user"), ["W008"], ["{v}"]), "address": (put({"name": "N", "address": "home"}, "versions", "*", "user"), ["W009"], ["{v}"]),
}
NOT_JSON = {"cut": b'{"id": ', "empty": b"", "utf8": b"\xff\xfe\x00"}


def md5_wrong(inv):
    inv["fixity"] = {"md5": {md5(inv): [some(inv)]}}


def later(inv):
    if "/1.1/" in inv["type"]:
        return False
    inv["type"] = inv["type"].replace("/1.0/", "/1.1/")
    return None


def remove(p):
    return lambda t, ctx: t.pop(p.format(**ctx))


def add(p, data=b"x"):
    def f(t, ctx):
        t[p.format(**ctx)] = data
    return f


def alter(p, data):
    def f(t, ctx):
        q = p.format(**ctx)
        t[q] = data(t[q], ctx) if callable(data) else data
    return f


def everything(prefix):
    def f(t, ctx):
        for p in [p for p in t if p.startswith(prefix.format(**ctx))]:
            del t[p]
    return f


# Rules for the files of an object: {v} first and {w} last version, {c} a content file, {f} object declaration, {a} digest algorithm
FILES = {
    "no-declaration": (remove("{f}"), ["E003"], []), "two-declarations": (lambda t, ctx: t.update({"0=ocfl_object_1.0": b"ocfl_object_1.0\n", "0=ocfl_object_1.1": b"ocfl_object_1.1\n"}), ["E003"], []),
    "odd-declaration": (lambda t, ctx: t.update({"0=ocfl_object_7.0": t.pop(ctx["f"])}), ["E003", "E004", "E006"], []), "other-declaration": (add("0=zz"), ["E006", "E001"], ["zz"]),
    "declaration-text": (alter("{f}", b"zz\n"), ["E007"], ["{f}"]), "declaration-empty": (alter("{f}", b""), ["E007"], ["{f}"]), "declaration-end": (alter("{f}", lambda d, ctx: d.rstrip()[:-1]), ["E007"], ["{f}"]),
    "file": (add("zz"), ["E001"], ["zz"]), "dir": (add("zz/y"), ["E001"], ["zz"]), "version-dir": (add("v77/content/zz"), ["E046"], ["v77"]), "version-missing": (everything("{w}"), ["E046"], ["{w}"]),
    "version-file": (add("{v}/zz"), ["E015"], ["{v}", "zz"]), "second-sidecar": (add("{v}/inventory.json.md5"), ["E015"], ["{v}", "inventory.json.md5"]),
    "content-extra": (add("{v}/{cd}/zz"), ["E023"], ["{v}/{cd}/zz"]), "content-missing": (remove("{c}"), ["E092"], ["{c}"]), "content-changed": (alter("{c}", b"zz"), ["E092"], ["{c}", "{a}"]),
    "content-dir": (add("{v}/{cd}/zz", None), ["E024"], ["{v}", "zz"]), "content-dirs": (add("{v}/{cd}/zz/y/w", None), ["E024"], ["{v}", "zz/y/w"]),
    "no-inventory": (remove("inventory.json"), ["E063"], []), "no-sidecar": (remove("inventory.json.{a}"), ["E058"], ["root", "inventory.json.{a}"]),
    "v1-no-sidecar": (remove("{v}/inventory.json.{a}"), ["E058"], ["{v}", "inventory.json.{a}"]), "sidecar-digest": (alter("inventory.json.{a}", lambda d, ctx: flip(d.decode()).encode()), ["E060"], ["inventory.json.{a}"]),
    "v1-sidecar-digest": (alter("{v}/inventory.json.{a}", lambda d, ctx: flip(d.decode()).encode()), ["E060"], ["{v}/inventory.json.{a}"]),
    "sidecar-empty": (alter("inventory.json.{a}", b""), ["E061"], []), "sidecar-name": (alter("inventory.json.{a}", lambda d, ctx: d.replace(b"inventory", b"zz")), ["E061"], []),
    "sidecar-form": (alter("inventory.json.{a}", lambda d, ctx: d.split()[0]), ["E061"], []), "sidecar-short": (alter("inventory.json.{a}", lambda d, ctx: d[3:]), ["E060", "E061"], []),
    "last-differs": (alter("{w}/inventory.json", lambda d, ctx: d + b" "), ["E064"], ["{w}/inventory.json"]), "extension-file": (add("extensions/zz"), ["E067"], ["zz"]),
}
FILE_WARNINGS = {
    "extension": (add("extensions/zz/y"), ["W013"], ["zz"]), "version-dir": (add("{v}/zz/y"), ["W002"], ["{v}", "zz"]),
    "version-dir2": (add("{v}/zz{cd}/y"), ["W002"], ["{v}", "zz{cd}"]), "version-dir3": (add("{v}/{cd}.zz/y"), ["W002"], ["{v}", "{cd}.zz"]), "empty-content": (None, ["W003"], []), "id-uri": (None, ["W005"], ["not a uri"]),
    "no-v1-inventory": (lambda t, ctx: [t.pop("{v}/inventory.json".format(**ctx)), t.pop("{v}/inventory.json.{a}".format(**ctx))], ["W010"], ["{v}"]),
}
# Rules for what the inventory of an earlier version says about that of the later: applied to that of the first version only
PRIOR = {
    "id": (put("info:other", "id"), ["E037"], ["info:other", "{v}"]), "logical": (set_logical(lambda p: p + ["zz"]), ["E066"], ["{v}", "zz"]), "message": (put("zz", "versions", "*", "message"), ["W011"], ["{v}", "message"]),
    "created": (put("1999-01-01T00:00:00Z", "versions", "*", "created"), ["W011"], ["{v}", "created"]), "user": (put({"name": "zz", "address": "mailto:z"}, "versions", "*", "user"), ["W011"], ["{v}", "user"]),
    "fixity": (md5_wrong, ["E093"], ["{v}", "md5"]), "no-cd": (drop("contentDirectory"), ["E019"], []), "later": (later, ["E103"], ["{v}", "1.1", "1.0"]),
}
ROOT = {
    "none": ({}, ["E069"], []), "two": ({"0=ocfl_1.0": b"ocfl_1.0\n", "0=ocfl_1.1": b"ocfl_1.1\n"}, ["E069"], []), "many": ({"0=x%d" % i: b"" for i in range(12)}, ["E069"], []),
    "odd": ({"0=ocfl_7.0": b"ocfl_7.0\n"}, ["E069"], ["0=ocfl_7.0"]), "text": ({"0=ocfl_1.1": b"zz\n"}, ["E069"], ["0=ocfl_1.1"]), "file": ({"0=ocfl_1.1": b"ocfl_1.1\n", "x/zz": b"x"}, ["E072"], ["x"]),
    "dir": ({"0=ocfl_1.1": b"ocfl_1.1\n", "x/zz": None}, ["E073"], ["x/zz"]), "twice": ({"0=ocfl_1.1": b"ocfl_1.1\n", "x/0=ocfl_object_1.0": b"", "x/0=ocfl_object_1.1": b""}, ["E003"], ["x"]),
    "future": ({"0=ocfl_1.1": b"ocfl_1.1\n", "x/0=ocfl_object_7.3": b""}, ["E004"], ["x", "7.3"]), "unknown": ({"0=ocfl_1.1": b"ocfl_1.1\n", "x/0=zz": b""}, ["E004"], ["x", "0=zz"]),
    "extension-file": ({"0=ocfl_1.1": b"ocfl_1.1\n", "extensions/zz": b""}, ["E086", "E112", "E067"], ["zz"]), "extension": ({"0=ocfl_1.1": b"ocfl_1.1\n", "extensions/zz/config.json": b"{}"}, ["W901"], ["zz"]),
    "layout-json": ({"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b"{"}, ["E070"], []), "layout-list": ({"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b"[]"}, ["E070"], []),
    "layout-keys": ({"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b'{"extension": "zz"}'}, ["E070"], []),
    "layout-unknown": ({"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b'{"extension": "zz", "description": "y"}'}, ["E071"], ["zz"]),
    "layout-params": ({"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b'{"extension": "0003-hash-and-id-n-tuple-storage-layout", "description": "y"}',
                       "extensions/0003-hash-and-id-n-tuple-storage-layout/config.json": b'{"extensionName": "0003-hash-and-id-n-tuple-storage-layout", "digestAlgorithm": "zz"}'}, ["E070", "E071"], ["zz"]),
    "version": ({"0=ocfl_1.0": b"ocfl_1.0\n"}, ["E069"], ["1.0", "1.1"]),
}
COUNT = len(INVENTORY) + len(WARNINGS) + len(FILES) + len(FILE_WARNINGS) + len(PRIOR) + len(NOT_JSON)
BOUNDS = {
    "quick": "%d rules, each broken in root or first inventory (or files) of each of %d objects (and inventories on their own); all pairs of rules for one object; %d rules of storage roots; "
             "all settings of warnings and errors; wrong digests of a file in each set of versions; validation logger with all of 48 tables of descriptions" % (COUNT, len(BASES), len(ROOT)),
    "thorough": "all pairs of rules for all objects",
}


def cases(tier):
    out = [["one", b] for b in BASES]
    names = sorted(INVENTORY) + sorted(WARNINGS)
    for b in (["plain"] if tier == "quick" else BASES):
        out += [["pairs", b, i] for i in range(len(names))]
    return out + [["files2", b, part] for b in (["plain"] if tier == "quick" else BASES) for part in range(7)] + [["root"], ["logger"]] + [["wrong", w, kind] for w in range(len(v05.WRONG)) for kind in ("manifest", "fixity")]


def apply(tree, changes, where):
    """Tree with changes in one inventory: where is root (also the copy in the last version) or v1."""
    inv = json.loads(tree["inventory.json"])
    versions = sorted(inv["versions"], key=lambda v: int(v[1:]))
    prefixes = ["", versions[-1] + "/"] if where == "root" else [versions[0] + "/"]
    inv = json.loads(tree[prefixes[0] + "inventory.json"])
    alg = inv["digestAlgorithm"]
    for c in changes:
        try:
            r = c(inv)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError):
            return None, None    # Two changes that exclude each other
        if r is False:
            return None, None
        if r is not None:
            inv = r
    data = jdump(inv)
    t = dict(tree)
    real = inv.get("digestAlgorithm", "sha512") if isinstance(inv, dict) else "sha512"
    for p in prefixes:
        t[p + "inventory.json"] = data
        t.pop(p + "inventory.json." + alg)
        a = real if real in ("sha512", "sha256", "md5") else alg
        t[p + "inventory.json." + a] = writer.sidecar_line(data, a, "two")
    return t, inv


def base(name):
    return writer.write_object([STATES[2], STATES[1], STATES[5]], **BASES[name])


def base_of(code):
    return code[:4]


def well(log, version, key, out):
    """Messages of a log are well formed."""
    errors = warnings = 0
    for m in log.messages:
        c = re.match(r"\[([EW]\d{3}[a-z]?)\] (\S.*)", m, re.DOTALL)
        if not out.check(c is not None, key, lambda: "message does not start with its code: %r" % m):
            continue
        code = c[1]
        errors, warnings = errors + (code[0] == "E"), warnings + (code[0] == "W")
        out.check("???" not in m and "%s" not in m and "Unknown error" not in m, key, lambda: "message has values missing: %r" % m)
        out.check(base_of(code) in CODES or code in OTHER, key, lambda: "code %s is not one of the specification" % code)
        if code not in OTHER:
            link = re.search(r"https://ocfl\.io/([\d.]+)/spec/#([EW]\d{3})", m)
            out.check(link is not None and link[2] == base_of(code), key, lambda: "message has not the link for its code: %r" % m)
            links = re.findall(r"https://ocfl\.io/([\d.]+)/spec/#[EW]\d{3}", m)
            out.check(version is None or set(links) <= set(version), key, lambda: "message has the link to another version of the specification: %r" % m)
        out.check(code in log.codes, key, lambda: "code %s of a message is not among the codes" % code)
    return errors, warnings


def expect(log, codes, tokens, where, key, out):
    got = sorted(log.codes)
    out.check(any(base_of(c) in codes or c in codes for c in got), key, lambda: "none of %s reported, but %s" % (codes, got))
    for token in ([where] if where else []) + tokens:
        found = [m for m in log.messages if any(m.startswith("[" + c) for c in codes)]
        out.check(any(re.search(r"(?<![\w.])" + re.escape(token), m) or (len(token) > 4 and token in m) for m in found), key, lambda: "message does not name %s: %s" % (token, found))


def validate(tree, out, key):
    """Validate, with all settings of what is logged; gives the log with everything."""
    from ocfl.validator import Validator
    be = Memory()
    be.put("obj", tree)
    logs = {}
    for w, e in itertools.product((True, False), repeat=2):
        v = Validator(log_warnings=w, log_errors=e)
        passed = v.validate_object(be.url("obj"))
        logs[w, e] = (passed, v.log)
        out.step()
    return check_logs(logs, out, key)


def check_logs(logs, out, key):
    passed, full = logs[True, True]
    for (w, e), (p, log) in logs.items():
        want = sorted(m for m in full.messages if (m[1] == "E" and e) or (m[1] == "W" and w))
        out.check(p == passed and sorted(log.codes) == sorted(full.codes) and (log.num_errors, log.num_warnings) == (full.num_errors, full.num_warnings), key,
                  lambda: "result differs by what is logged: %s" % [w, e])
        out.check(sorted(log.messages) == want, key, lambda: "with log_warnings=%s, log_errors=%s messages are %s and not %s" % (w, e, log.messages, want))
        for prefix in ("", "[x] "):
            out.check(log.status_str(prefix=prefix) == "\n".join(prefix + m for m in want), key, "status string is not the messages in order")
        out.check(str(log) == log.status_str(), key, "str() of log differs from its status")
    out.check(passed == (full.num_errors == 0), key, lambda: "verdict is %s with %d errors" % (passed, full.num_errors))
    return passed, full


def run(case, world, out):
    {"one": run_one, "pairs": run_pairs, "files2": run_files2, "wrong": run_wrong, "root": run_root, "logger": run_logger}[case[0]](case, world, out)


def context(tree, name):
    inv = json.loads(tree["inventory.json"])
    versions = sorted(inv["versions"], key=lambda v: int(v[1:]))
    c = sorted(p for paths in inv["manifest"].values() for p in paths)[0]
    return {"v": versions[0], "w": versions[-1], "c": c, "cd": BASES[name].get("cd", "content"), "f": "0=ocfl_object_" + BASES[name].get("spec", "1.1"), "a": inv["digestAlgorithm"],
            "d": sorted(inv["manifest"])[0]}


def run_one(case, world, out):
    name = case[1]
    tree = base(name)
    ctx = context(tree, name)
    version = BASES[name].get("spec", "1.1")
    passed, log = validate(tree, out, "clean:" + name)
    out.check(passed and log.num_errors == 0, "clean:" + name, lambda: "valid object has %s" % log.messages)
    well(log, [version], "clean:" + name, out)
    plain = set(log.codes)
    for table, rules in (("inventory", INVENTORY), ("warning", WARNINGS), ("prior", PRIOR), ("json", NOT_JSON)):
        for rule in sorted(rules):
            for where in (("root", "v1") if table != "prior" else ("v1",)):
                key = "%s:%s:%s:%s" % (name, table, rule, where)
                place = "root" if where == "root" else ctx["v"]
                if table == "json":
                    codes, tokens = ["E033"], []
                    t = dict(tree)
                    for p in (["inventory.json", ctx["w"] + "/inventory.json"] if where == "root" else [ctx["v"] + "/inventory.json"]):
                        t[p] = rules[rule]
                        t[p + "." + ctx["a"]] = writer.sidecar_line(rules[rule], ctx["a"], "two")
                    inv = None
                else:
                    change, codes, tokens = rules[rule]
                    t, inv = apply(tree, [change], where)
                    if t is None:
                        continue
                sub = dict(ctx)
                if isinstance(inv, dict) and isinstance(inv.get("manifest"), dict):
                    sub["d"] = sorted(json.loads(tree[("" if where == "root" else ctx["v"] + "/") + "inventory.json"])["manifest"])[0]
                passed, log = validate(t, out, key)
                out.state(key)
                ok = table == "warning" or codes == ["W011"]
                out.done("%s %s" % (table, "valid" if passed else "invalid"))
                out.check(passed == ok, key, lambda: "object is %s: %s" % ("valid" if passed else "invalid", log.messages))
                well(log, [version, "1.1"] if rule.endswith("-type") or rule == "later" or table == "json" or rule == "list" else [version], key, out)
                expect(log, codes, [x.format(**sub) for x in tokens], place if table != "prior" else None, key, out)
                if ok:
                    extra = {base_of(c) for c in log.codes} - {base_of(c) for c in plain} - set(codes) - {"W011"}
                    out.check(not extra, key, lambda: "warns of %s too" % sorted(extra))
                # On its own
                if where == "root":
                    alone(t["inventory.json"], codes, [x.format(**sub) for x in tokens], ok, key, out)
    for table, rules in (("files", FILES), ("files-warning", FILE_WARNINGS)):
        for rule in sorted(rules):
            change, codes, tokens = rules[rule]
            key = "%s:%s:%s" % (name, table, rule)
            if rule == "id-uri":
                t = writer.write_object([STATES[2], STATES[1], STATES[5]], identifier="not a uri", **BASES[name])
            elif change is None:
                t = writer.write_object([STATES[2], STATES[2]], **BASES[name])
                t[ctx["v"][:-1] + "2/" + ctx["cd"]] = None
                if any(p.startswith(ctx["v"][:-1] + "2/" + ctx["cd"] + "/") for p in t):
                    continue
            else:
                t = dict(tree)
                change(t, ctx)
            passed, log = validate(t, out, key)
            out.state(key)
            out.done("%s %s" % (table, "valid" if passed else "invalid"))
            out.check(passed == (table == "files-warning"), key, lambda: "object is %s" % ("valid" if passed else "invalid"))
            well(log, [version, "1.1"] if "declaration" in rule else [version], key, out)
            expect(log, codes, [x.format(**ctx) for x in tokens], None, key, out)
            if passed:
                extra = {base_of(c) for c in log.codes} - {base_of(c) for c in plain} - set(codes)
                out.check(not extra, key, lambda: "warns of %s too" % sorted(extra))
            else:
                extra = {base_of(c) for c in log.codes} - {base_of(c) for c in plain} - set(codes)
                out.check(len(extra) <= 4, key, lambda: "reports %s too" % sorted(extra))


def alone(data, codes, tokens, ok, key, out):
    be = Memory()
    be.put("inv", {"inventory.json": data})
    logs = {}
    for w, e in itertools.product((True, False), repeat=2):
        passed, v = make_object({}).validate_inventory(be.url("inv/inventory.json"), log_warnings=w, log_errors=e)
        logs[w, e] = (passed, v.log)
        out.step()
    passed, log = check_logs(logs, out, key + ":alone")
    out.check(passed == ok, key + ":alone", lambda: "inventory is %s" % ("valid" if passed else "invalid"))
    for m in log.messages:
        out.check("%s" not in m and "Unknown error" not in m, key + ":alone", lambda: "message has values missing: %r" % m)
    expect(log, codes, tokens, None, key + ":alone", out)
    # Validated as an inventory of a given version of the specification: its type has to be of that version
    try:
        kind = json.loads(data).get("type")
    except (ValueError, AttributeError):
        return
    for version in ("1.0", "1.1"):
        forced, v = make_object({}).validate_inventory(be.url("inv/inventory.json"), force_spec_version=version)
        out.step()
        if not isinstance(kind, str):
            out.check(not forced, key + ":forced", lambda: "without a type is valid as version %s" % version)
        elif kind == "https://ocfl.io/%s/spec/#inventory" % version:
            out.check((forced, sorted(v.log.codes)) == (passed, sorted(log.codes)), key + ":forced",
                      lambda: "as version %s: %s, else %s" % (version, v.log.codes, log.codes))
        else:
            bad = [m for m in v.log.messages if m.startswith("[E038")]
            out.check(not forced and len(bad) == 1 and kind in bad[0] and version in bad[0], key + ":forced",
                      lambda: "of type %s as version %s: %s" % (kind, version, v.log.messages))


# A fault for which nothing after it is looked at, or which makes others meaningless
ALL = dict(INVENTORY, **WARNINGS)


def run_pairs(case, world, out):
    _, name, i = case
    names = sorted(INVENTORY) + sorted(WARNINGS)
    tree = base(name)
    version = BASES[name].get("spec", "1.1")
    for j in range(len(names)):
        if i == j:
            continue
        a, b = names[i], names[j]
        t, inv = apply(tree, [ALL[a][0], ALL[b][0]], "root")
        if t is None:
            continue
        key = "pair:%s:%s:%s" % (name, a, b)
        out.state(key)
        passed, log = validate_once(t, out)
        out.done("pair " + ("valid" if passed else "invalid"))
        both = a in WARNINGS and b in WARNINGS
        # What the second change takes away can be that which is at fault by the first
        out.check(not passed or both or a in WARNINGS or b in WARNINGS or undone(tree, a, b), key, "inventory with two faults is valid")
        errors, warnings = well(log, [version, "1.1"] if a.endswith("-type") or b.endswith("-type") or "list" in (a, b) else [version], key, out)
        out.check((errors, warnings) == (log.num_errors, log.num_warnings), key, lambda: "%s messages, but counts are %s" % ([errors, warnings], [log.num_errors, log.num_warnings]))
        # A fault in another part of the inventory is reported as well
        if apart(a, b) and not passed:
            for r in (a, b):
                if r in INVENTORY:
                    expect(log, ALL[r][1], [], None, key, out)


def undone(tree, a, b):
    """Whether the second change makes good the first."""
    both = apply(tree, [ALL[a][0], ALL[b][0]], "root")[1]
    return not isinstance(both, dict) or not oracle.inventory_problems(both)


PART = {"no-id": "id", "empty-id": "id", "number-id": "id", "no-type": "type", "odd-type": "type", "number-type": "type", "future-type": "type", "no-created": "created", "bad-created": "created",
        "day-created": "created", "number-created": "created", "zone-created": "created", "number-message": "message", "list-user": "user", "no-name": "user", "number-name": "user",
        "number-address": "user", "slash-first": "state", "slash-last": "state", "dot": "state", "dots": "state", "empty-element": "state", "logical-twice": "state", "logical-conflict": "state",
        "bad-head": "head", "no-head": "head", "odd-fixity": "fixity", "list-md5": "fixity", "short-md5": "fixity", "list-fixity": "fixity", "path-twice": "manifest", "path-first": "manifest",
        "path-dot": "manifest", "path-outside": "manifest", "path-version": "manifest"}


def apart(a, b):
    return a in PART and b in PART and PART[a] != PART[b]


def validate_once(tree, out):
    from ocfl.validator import Validator
    be = Memory()
    be.put("obj", tree)
    v = Validator(log_warnings=True, log_errors=True)
    passed = v.validate_object(be.url("obj"))
    out.step()
    return passed, v.log


EXCLUDE = {"no-inventory", "no-declaration", "two-declarations", "odd-declaration", "version-missing"}


def run_files2(case, world, out):
    """Two faults in the files of an object: both are reported."""
    name = case[1]
    tree = base(name)
    ctx = context(tree, name)
    version = BASES[name].get("spec", "1.1")
    rules = dict(FILES, **{"w-" + k: v for k, v in FILE_WARNINGS.items() if v[0]})
    for i, (a, b) in enumerate(itertools.permutations(sorted(rules), 2)):
        if i % 7 != case[2]:
            continue
        t = dict(tree)
        try:
            rules[a][0](t, ctx)
            rules[b][0](t, ctx)
        except (KeyError, IndexError, AttributeError):
            continue
        if any(d is not None and any(q.startswith(p + "/") for q in t) for p, d in t.items()):
            continue
        key = "files2:%s:%s:%s" % (name, a, b)
        out.state(key)
        passed, log = validate_once(t, out)
        out.done("files2 " + ("valid" if passed else "invalid"))
        out.check(passed == (a.startswith("w-") and b.startswith("w-")) or same_place(a, b), key, lambda: "object is %s" % ("valid" if passed else "invalid"))
        errors, warnings = well(log, [version, "1.1", "1.0"] if "declaration" in a + b else [version], key, out)
        out.check((errors, warnings) == (log.num_errors, log.num_warnings), key, lambda: "%s messages, but counts are %s" % ([errors, warnings], [log.num_errors, log.num_warnings]))
        if not {a, b} & EXCLUDE and "declaration" not in a + b and not same_place(a, b):
            for r in (a, b):
                expect(log, rules[r][1], [x.format(**ctx) for x in rules[r][2]], None, key, out)


def same_place(a, b):
    """Faults of which one can hide the other."""
    for group in ({"no-sidecar", "sidecar-digest", "sidecar-empty", "sidecar-name", "sidecar-form", "sidecar-short"}, {"v1-no-sidecar", "v1-sidecar-digest", "w-no-v1-inventory"},
                  {"content-missing", "content-changed"}, {"declaration-text", "declaration-empty", "declaration-end"}, {"content-dir", "content-dirs", "content-extra"},
                  {"dir", "file"}, {"w-version-dir", "version-file"}, {"w-extension", "extension-file"}):
        if a in group and b in group:
            return True
    return False


def run_wrong(case, world, out):
    """Every version whose inventory has a wrong digest for a file is named, and no other."""
    for key, t, places in v05.wrongs(*case[1:]):
        passed, log = validate(t, out, key)
        out.state(key)
        out.done("wrong " + ("valid" if passed else "invalid"))
        out.check(not passed, key, "object is valid")
        well(log, ["1.1"], key, out)
        found = [m for m in log.messages if m.startswith(("[E092", "[E093"))]
        path = key.split(":")[3]
        for n in ("v1", "v2", "v3", "v4", "root"):
            named = any(re.search(r"(?<![\w./])%s(?![\w/])" % n, m) for m in found)
            out.check(named == (n in places), key, lambda: "%s is %snamed in %s" % (n, "" if named else "not ", found))
        out.check(all(path in m for m in found), key, lambda: "messages do not name the file: %s" % found)


def run_root(case, world, out):
    import ocfl
    obj = base("plain")
    for rule, (tree, codes, tokens) in ROOT.items():
        for with_object, slash in itertools.product((False, True), ("", "/")):
            logs = {}
            key = "root:%s:%s%s" % (rule, with_object, slash)
            be = Memory()
            be.put("root", dict(tree, **({"y/" + p: d for p, d in obj.items()} if with_object else {})))
            for w, e in itertools.product((True, False), repeat=2):
                store = ocfl.StorageRoot(root=be.url("root") + slash, spec_version="1.1" if rule == "version" else None)
                passed = store.validate(log_warnings=w, log_errors=e)
                logs[w, e] = (passed, store.log)
                out.step()
            passed, log = check_logs(logs, out, key)
            out.state(key)
            out.done("root " + ("valid" if passed else "invalid"))
            out.check(passed == (codes[0][0] == "W"), key, lambda: "root is %s" % ("valid" if passed else "invalid"))
            well(log, None, key, out)
            expect(log, codes, tokens, None, key, out)
            if codes[0] in ("E069", "E070", "E071"):
                out.check(any(be.url("root") in m for m in log.messages), key, lambda: "message does not name the root: %s" % log.messages)


def run_logger(case, world, out):
    """Descriptions given to a logger."""
    from ocfl.validation_logger import ValidationLogger
    for lang, descs, params, args in itertools.product(
            ("en", "de", "zz"), ({"en": "text %s"}, {"en": "text %s", "de": "wort %s"}, {"fr": "mot %s", "de": "wort %s"}, {"de": "wort"}), (["p"], [], None, ["p", "q"]), ({"p": "VALUE"}, {})):
        for code, is_error in (("E001a", True), ("W001", False), ("E999", True), ("E200", True), ("W901", False)):
            for spec in ("1.0", "1.1"):
                codes = {code: {"description": descs}}
                if params is not None:
                    codes[code]["params"] = params
                key = "logger:%s:%s:%s:%s:%s" % (lang, descs, params, args, code)
                log = ValidationLogger(log_warnings=True, log_errors=True, spec_version=spec, lang=lang, validation_codes=codes)
                (log.error if is_error else log.warning)(code, **args)
                out.step()
                out.state(key + spec)
                out.done("logged")
                if not out.check(len(log.messages) == 1 and log.codes == {code: log.messages[0]}, key, "not one message"):
                    continue
                m = log.messages[0]
                word = descs.get(lang, descs.get("en", descs[sorted(descs)[0]])).split()[0]
                out.check(m.startswith("[%s] %s" % (code, word)), key, lambda: "message is %r" % m)
                if params and "p" in params and "p" in args:
                    out.check("VALUE" in m, key, lambda: "value is not in message %r" % m)
                out.check(("(see https://ocfl.io/%s/spec/#%s)" % (spec, code[:4]) in m) == (int(code[1:4]) < 200), key, lambda: "link in message %r" % m)
                out.check((log.num_errors, log.num_warnings) == ((1, 0) if is_error else (0, 1)), key, "counts are wrong")
