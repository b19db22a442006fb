"""V01: no damage to an object goes unnoticed, and the verdict agrees with the specification."""
from mc import life, mcfs, oracle, writer
from mc.lib import STATES, Memory, make_object, validate

from . import v05

PROPERTY = "V01"
LEVEL = "model_checking"
RULE = ("An execution is the validation of one object with one change (or two) in its files: each byte changed, truncated, extended, removed, "
        "replaced, swapped, renamed, or something added, with the verdict compared with that of an independent validator; a state is a distinct tree")
ASSUMPTIONS = ["Two different contents do not have the same digest", "The independent validator (mc/oracle.py) implements the OCFL 1.0 and 1.1 rules",
               "Text after the first line of a sidecar, and white space around the content of a declaration, is ignored"]
SPECS = {
    "one": dict(states=[0]),
    "two": dict(states=[2, 1]),
    "nest": dict(states=[2, 3], nest=True),
    "mix": dict(states=[2, 4, 3], alg=["sha256", "sha512", "sha512"], omit=[2], fixity=["md5"], pad=2, cd="data", extras=["logs", "extensions", "vdir"]),
    "old": dict(states=[1, 5, 2], spec=["1.0", "1.0", "1.1"], store="all", case="upper"),
    "nohead": dict(states=[2, 3, 1], spec=["1.0", "1.1", "1.1"], omit=[3]),
    "dup": dict(states=[2, 2], store="dup", alg="sha256", fixity=["sha1", "blake2b-160"], meta="none"),
}
BOUNDS = {
    "quick": "%d objects: another value for every byte of every file, and every change of a list of 20 kinds to every file and directory; %d objects: each set of recorded digests of each file wrong" % (len(SPECS), len(v05.WRONG)),
    "thorough": "the same with 5 values for every byte, and all pairs of changes other than of bytes",
}


def objects(name):
    spec = dict(SPECS[name])
    return writer.write_object([STATES[j] for j in spec.pop("states")], **spec)


def directories(tree):
    out = {p for p, d in tree.items() if d is None}
    for p in tree:
        e = p.split("/")
        out |= {"/".join(e[:n]) for n in range(1, len(e))}
    return sorted(out)


def changes(tree):
    """All changes other than of single bytes, as [kind, path, argument]."""
    files = sorted(p for p, d in tree.items() if d is not None)
    out = []
    for p in files:
        out += [[k, p] for k in ("delete", "cut", "cutfirst", "half", "empty", "append", "appendspace", "double", "todir", "upper", "bom", "crlf")]
        out += [["swap", p, q] for q in files if q > p and tree[p] != tree[q]]
        out += [["copy", p, q] for q in files if q != p and tree[p] != tree[q]]
        out += [["rename", p, p + "x"], ["rename", p, "x" + p.split("/")[-1]], ["rename", p, p.rsplit("/", 1)[0] + "/moved"]]
        out += [["into", p]]
    for d in [""] + directories(tree):
        pre = d + "/" if d else ""
        for n in ("extra", "inventory.json", "inventory.json.sha512", "inventory.json.sha256", "inventory.json.md5", "0=ocfl_object_1.0", "0=ocfl_object_1.1",
                  "0=ocfl_object_2.0", "0=other", "content", "data", "logs", "extensions", "v1", "v2", "v9", "v01", ".hidden", "sub/empty"):
            if pre + n not in tree:
                out += [["add", pre + n], ["adddir", pre + n], ["addnested", pre + n]]
        if d:
            out += [["rmtree", d], ["rename", d, d + "x"], ["tofile", d]]
    return out


def apply(tree, change):
    """Changed tree or None if the change is not possible."""
    kind, p = change[:2]
    t = dict(tree)
    if kind in ("add", "adddir", "addnested"):
        if any(q == p or q.startswith(p + "/") for q in t) or any(q in t and t[q] is not None for q in parents(p)):
            return None
        if kind == "add":
            t[p] = b"extra"
        elif kind == "adddir":
            t[p] = None
        else:
            t[p + "/sub/file"] = b"extra"
        return t
    if kind in ("rmtree", "tofile"):
        below = [q for q in t if q == p or q.startswith(p + "/")]
        if not below:
            return None
        for q in below:
            del t[q]
        up = p.rsplit("/", 1)[0] if "/" in p else None
        if up and not any(q == up or q.startswith(up + "/") for q in t):
            t[up] = None
        if kind == "tofile":
            t[p] = b"file"
        return t
    if kind == "rename":
        q = change[2]
        below = [x for x in t if x == p or x.startswith(p + "/")]
        if not below or any(x == q or x.startswith(q + "/") for x in t) or any(x in t and t[x] is not None for x in parents(q)) or q.startswith(p + "/"):
            return None
        for x in below:
            t[q + x[len(p):]] = t.pop(x)
        return t
    if t.get(p) is None:
        return None
    d = t[p]
    if kind == "delete":
        del t[p]
        up = p.rsplit("/", 1)[0] if "/" in p else None
        if up and not any(q == up or q.startswith(up + "/") for q in t):
            t[up] = None
    elif kind == "cut":
        t[p] = d[:-1]
    elif kind == "cutfirst":
        t[p] = d[1:]
    elif kind == "half":
        t[p] = d[:len(d) // 2]
    elif kind == "empty":
        t[p] = b""
    elif kind == "append":
        t[p] = d + b"!"
    elif kind == "appendspace":
        t[p] = d + b" \n"
    elif kind == "double":
        t[p] = d + d
    elif kind == "upper":
        t[p] = d.upper()
    elif kind == "bom":
        t[p] = b"\xef\xbb\xbf" + d
    elif kind == "crlf":
        t[p] = d.replace(b"\n", b"\r\n")
    elif kind == "todir":
        del t[p]
        t[p + "/file"] = d
    elif kind == "into":
        del t[p]
        t[p] = None
    elif kind == "byte":
        i, v = change[2:]
        b = (d[i] ^ 1) if v == -1 else (d[i] ^ 0x20) if v == -2 else v
        t[p] = d[:i] + bytes([b]) + d[i + 1:]
    else:
        q = change[2]
        if t.get(q) is None:
            return None
        if kind == "swap":
            t[p], t[q] = t[q], t[p]
        else:
            t[p] = t[q]
    return t


def parents(p):
    e = p.split("/")
    return ["/".join(e[:n]) for n in range(1, len(e))]


CHUNK = 2


def cases(tier):
    out = []
    for name in SPECS:
        tree = objects(name)
        for p in sorted(tree):
            if tree[p] is not None:
                out += [["bytes", name, p, v, part] for v in ((-1,) if tier == "quick" else (-1, -2, 0x5a, 0, 0xff)) for part in range(len(tree[p]) // 500 + 1)]
        kinds = len(changes(tree))
        if tier == "quick":
            out += [["single", name, part, 16] for part in range(16)]
        else:
            out += [["single", name, part, 16] for part in range(16)]
            out += [["pair", name, i] for i in range(kinds)]
    # Recorded digests that are wrong, in inventories that are right but for that
    out += [["recorded", w, kind] for w in range(len(v05.WRONG)) for kind in ("manifest", "fixity", "before", "after")]
    return out


def judge(tree, change, name, out, original):
    for p, d in tree.items():
        q = original.get(p)
        if d is not None and q is not None and p.startswith("0=") and d != q and d.split() == q.split():
            return  # white space around the content of a declaration is not significant to this library
        if d is not None and q is not None and "inventory.json." in p and d != q:
            first = d.replace(b"\r\n", b"\n").split(b"\n")[0]
            if first == q.split(b"\n")[0]:
                tree[p] = q if d.endswith(b"\n") or d == q.rstrip(b"\n") else tree[p]
                if tree[p] != q:
                    return
    be = Memory()
    be.put("obj", tree)
    if any(p.split("/")[1:2] == ["inventory.json"] and (d is None or p.count("/") > 1)
           for p, d in tree.items()):
        validate(be, "obj")
        return  # a directory in place of an optional inventory, the specification does not say
    problems = oracle.object_problems(tree)
    passed, codes = validate(be, "obj")
    out.step()
    out.state(sorted(tree.items(), key=str))
    out.done("%s %s" % (change[0], "valid" if passed else "invalid"))
    out.check(passed == (not problems), "%s:%s" % (name, change),
              lambda: "object %s with change %s is reported %s %s, independent validator finds %s" % (name, change, "valid" if passed else "invalid", codes, problems[:3]))
    out.check(passed == (not codes), "%s:%s" % (name, change), "verdict and errors disagree")


def run(case, world, out):
    mode, name = case[:2]
    if mode == "recorded":
        for key, t, _ in v05.wrongs(name, case[2]):
            judge(t, ["recorded", key], "recorded", out, {})
        return
    tree = objects(name)
    if mode == "bytes":
        p, v, part = case[2:]
        for i in range(500 * part, min(len(tree[p]), 500 * part + 500)):
            ch = ["byte", p, i, v]
            t = apply(tree, ch)
            if t != tree:
                judge(t, ch, name, out, tree)
        if not tree[p]:
            judge(dict(tree), ["none"], name, out, tree)
        return
    all_changes = changes(tree)
    if mode == "single":
        for ch in all_changes[case[2]::case[3]]:
            t = apply(tree, ch)
            if t is not None and t != tree:
                judge(t, ch, name, out, tree)
        out.sample = {"object": name, "changes": len(all_changes)}
        return
    first = all_changes[case[2]]
    t1 = apply(tree, first)
    if t1 is None:
        out.done("not possible")
        return
    for ch in all_changes[case[2] + 1:]:
        if ch[0] in ("upper", "bom", "crlf", "double", "half", "appendspace", "cutfirst"):
            continue
        t = apply(t1, ch)
        if t is not None and t != tree:
            judge(t, [first, ch], name, out, tree)
