"""X10: the tree shown of an object names everything that is in it, and marks what does not belong."""
import itertools
import re

from mc import writer
from mc.lib import A, B, STATES, Memory, backend, make_object

PROPERTY = "X10"
LEVEL = "model_checking"
RULE = ("An execution is one tree shown of one object, of which every line is compared with what is on storage; a state is a distinct (object, entries added or removed, storage)")
ASSUMPTIONS = ["How the tree is drawn is not part of the property: lines are told apart by their depth, the name that they start with and the remark that follows it",
               "Remarks on logs and extensions directories are not part of the property"]
OBJECTS = {
    "plain": (dict(), 2), "one": (dict(), 1), "pad": ({"pad": 4}, 3), "cd": ({"cd": "data"}, 2), "sha256-1.0": ({"alg": "sha256", "spec": "1.0"}, 3), "empty": ({}, 0), "twelve": ({}, 12),
    "nest": ({"nest": True, "store": "dup"}, 2), "omit": ({"omit": (1,)}, 2), "upper": ({"case": "upper", "extras": ("logs", "extensions")}, 2),
}
# Entries to add: name -> whether it is to be marked (None: either)
ROOT = {"extra": True, "x/y": True, "v0x": True, "inventory.json.md5": True, "0=ocfl_object_9.9": True, "0=ocfl_object_1.1.txt": True, "0=ocfl_object_1.0x": True, "logs/x": None, "Inventory.json": True, "a\u00e9 b": True, "vv1": True, "content/a": True}
VERSION = {"extra": True, "dir/x": True, "inventory.json.md5": True, "contents/a": True, "0=ocfl_object_1.1": True}
CONTENT = ["more", ".x", "x/.more", "a/b/c/d/e", "inventory.json", "x/y", "x/z"]
DELETE = ["inventory.json", "inventory.json.*", "0=*", "v1/inventory.json", "v1/content/*"]
BOUNDS = {
    "quick": "%d objects, each as it is and with all sets of up to 2 of %d entries added or removed, on local and in-memory storage in both orders of listing" % (
        len(OBJECTS), len(ROOT) + len(VERSION) + len(CONTENT) + len(DELETE)),
    "thorough": "all sets of up to 3 entries added or removed",
}
MARK = re.compile(r"<-+")


def cases(tier):
    k = 2 if tier == "quick" else 3
    return [["tree", o, be, k] for o in OBJECTS for be in ("local", "mcfs")]


def build(name):
    kw, n = OBJECTS[name]
    states = [[STATES[2], STATES[1], STATES[4]][i % 3] for i in range(n)] if n else [{}]
    return writer.write_object(states, **kw)


def changes():
    out = [("add", p) for p in ROOT]
    out += [("version", p) for p in VERSION] + [("content", p) for p in CONTENT] + [("delete", p) for p in DELETE]
    return out


def first_version(tree):
    return sorted(p for p in tree if re.match(r"v\d+$", p.split("/")[0]))[0].split("/")[0]


def apply(tree, cd, change):
    tree = dict(tree)
    v = first_version(tree)
    kind, p = change
    if kind == "delete":
        p = p.replace("v1", v).replace("content", cd)
        for q in list(tree):
            if q == p or p.endswith("*") and q.startswith(p[:-1]):
                del tree[q]
        if "/" in p:
            tree.setdefault(p.rpartition("/")[0], None)
    elif kind == "add":
        tree[p] = A
    elif kind == "version":
        tree[v + "/" + p] = B
    else:
        tree["%s/%s/%s" % (v, cd, p)] = B
    return tree


def parse(text):
    """Lines as (depth, text)."""
    lines = text.rstrip("\n").split("\n")
    out = []
    for line in lines[1:]:
        m = re.match(r"^( *)(\S.*)$", line.replace("\u2502", " ").replace("\u251c\u2500\u2500", "   ").replace("\u2514\u2500\u2500", "   "))
        out.append((len(m[1]) // 4 - 1, m[2]))
    return lines[0], out


def members(tree, prefix):
    return sorted({p[len(prefix):].split("/")[0] for p in tree if p.startswith(prefix)})


def run(case, world, out):
    from mc import mcfs
    _, name, bename, k = case
    base = build(name)
    cd = OBJECTS[name][0].get("cd") or "content"
    menu = changes()
    sets = [c for n in range(k + 1) for c in itertools.combinations(range(len(menu)), n)]
    for choice in sets:
        tree = base
        # Removals go first, so that what is added is there
        for i in sorted(choice, key=lambda i: menu[i][0] != "delete"):
            tree = apply(tree, cd, menu[i])
        for order in ("sorted", "reverse") if bename == "mcfs" and len(choice) < 2 else ("sorted",):
            world.fresh()
            be = backend(bename, world)
            be.put("obj", tree)
            if bename == "mcfs":
                mcfs.STORE.list_order = sorted if order == "sorted" else (lambda names: sorted(names, reverse=True))
            before = be.everything()
            key = "%s:%s:%s" % (name, [menu[i] for i in choice], bename)
            out.step()
            out.state(key + order)
            try:
                text = make_object({}).tree(objdir=be.url("obj"))
            except Exception as e:
                out.violation(key, "exception %s: %s" % (type(e).__name__, e))
                continue
            finally:
                if bename == "mcfs":
                    mcfs.STORE.list_order = None
            out.done("tree")
            out.check(be.everything() == before, key, "showing the tree has effects")
            check_text(text, tree, cd, be.url("obj"), key, out)


def check_text(text, tree, cd, url, key, out):
    first, lines = parse(text)
    out.check(url in first, key, lambda: "first line %r does not name the object" % first)
    want = []
    broken = "inventory.json" not in tree or not any(p.startswith("0=ocfl_object_1.") for p in tree)
    sidecars = sorted(p for p in tree if re.match(r"inventory\.json\.[^/]+$", p))
    for e in members(tree, ""):
        mark = None
        if e == "inventory.json" or re.match(r"v\d+$", e):
            mark = False
        elif e in ("0=ocfl_object_1.0", "0=ocfl_object_1.1"):
            mark = None if broken else False
        elif e in sidecars:
            mark = None if len(sidecars) > 1 else False
        else:
            mark = None if e in ("logs", "extensions") else True
        want.append((0, e, mark, None))
        if re.match(r"v\d+$", e):
            inner = members(tree, e + "/")
            side = [m for m in inner if m.startswith("inventory.json.")]
            for m in inner:
                files = sum(1 for p, d in tree.items() if d is not None and p.startswith("%s/%s/" % (e, m)))
                if m == cd:
                    want.append((1, m, None if broken else False, None if broken else files))
                elif m == "inventory.json":
                    want.append((1, m, False, None))
                elif m in side:
                    want.append((1, m, None if len(side) > 1 else False, None))
                else:
                    want.append((1, m, True, None))
            if len(side) > 1:
                got = [t for d, t in lines if d == 1 and any(t.split(" ")[0] == s for s in side)]
                out.check(any(MARK.search(t) for t in got), key, "more than one sidecar in a version not remarked")
    if len(sidecars) > 1:
        got = [t for d, t in lines if d == 0 and any(t.split(" ")[0] == s for s in sidecars)]
        out.check(any(MARK.search(t) for t in got), key, "more than one sidecar not remarked")
    out.check(len(lines) == len(want), key, lambda: "%d lines for %d entries: %s" % (len(lines), len(want), text))
    for (depth, t), (d, e, mark, files) in zip(lines, want):
        out.check(depth == d and (t == e or t.startswith(e + " ")), key, lambda: "line %r is not for %s" % (t, e))
        rest = t[len(e):]
        if mark is not None:
            out.check(bool(MARK.search(rest)) == mark, key, lambda: "entry %s is %smarked as not belonging: %r" % (e, "not " if mark else "", t))
        if files is not None:
            m = re.search(r"(\d+)", rest)
            out.check(m is not None and int(m[1]) == files, key, lambda: "%r, but there are %d files" % (t, files))
