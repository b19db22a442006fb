"""L05: content is stored as the forward delta, dedupe and normalization settings say."""
import hashlib
import itertools

from mc import oracle
from mc.lib import A, B, EMPTY, STATES, Memory, meta, make_object

PROPERTY = "L05"
LEVEL = "model_checking"
RULE = ("An execution is one version written (by create, update or build) with given settings whose stored files are compared with an "
        "independent account of which copies have to be stored and where; a state is a distinct object tree")
ASSUMPTIONS = ["Contents and paths outside the source states are not covered"]
SRCS = [STATES[2], STATES[1], {"a": A, "z/a": A, "b": B, "c": EMPTY, "c2": EMPTY, ".x/.b": B, "y.z/.%": b"dots"}, STATES[4], STATES[0], {}]
SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/")
CDS = [".data", "d.", "a b\u00e9%", "...", "content.", "v1"]
BOUNDS = {
    "quick": "all histories of 1..2 versions over 6 source states with all settings of forward delta, dedupe and normalization chosen "
             "independently for each version; 3 versions for forward delta and dedupe; build() with 1..3 versions; %d names of the content directory" % len(CDS),
    "thorough": "all histories of 1..3 versions with all settings chosen for each version; build() with 1..4 versions",
}


def cases(tier):
    out = []
    per = [list(x) for x in itertools.product(range(len(SRCS)), (1, 0), (1, 0), ("uri", None, "md5"))]
    per2 = [x for x in per if x[3] == "uri" and x[0] in (0, 1, 2, 4)]
    for a in per:
        out.append(["create", [a]])
    for a in per:
        for b in per:
            out.append(["create", [a, b]])
    if tier == "quick":
        for s in itertools.product(per2, repeat=3):
            out.append(["create", list(s)])
        lengths = (1, 2, 3)
    else:
        for a in per:
            for b in per:
                for c in per:
                    if c[3] != "md5":
                        out.append(["create", [a, b, c]])
        lengths = (1, 2, 3, 4)
    for n in lengths:
        for s in itertools.product(range(5), repeat=n):
            for fd, dd in itertools.product((1, 0), (1, 0)):
                out.append(["build", [[i, fd, dd, "uri"] for i in s]])
    # Other names of the content directory
    for cd in CDS:
        out += [["create", [a, b], cd] for a in per2 for b in per2[:8]] + [["build", [[0, 1, 1, "uri"], [2, 1, 1, "uri"]], cd]]
    return out


def mapped(path, norm):
    if norm is None:
        return path
    if norm == "md5":
        return hashlib.md5(path.encode()).hexdigest()[:16]
    out = "".join(c if c in SAFE else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in path)
    return "%2E" + out[1:] if out[0] == "." else out


def run(case, world, out):
    method, versions = case[:2]
    cd = case[2] if len(case) > 2 else "content"
    be = Memory()
    if method == "build":
        for n, v in enumerate(versions, 1):
            be.put("src/v%d" % n, SRCS[v[0]])
        make_object({"cd": cd, "fd": versions[0][1], "dd": versions[0][2], "norm": versions[0][3]}).build(
            srcdir=be.url("src"), versions_metadata={n: meta(n) for n in range(1, len(versions) + 1)}, objdir=be.url("obj"))
        out.step()
    trees = []
    for n, v in enumerate(versions, 1):
        if method == "create":
            be.put("src%d" % n, SRCS[v[0]])
            obj = make_object({"cd": cd, "fd": v[1], "dd": v[2], "norm": v[3]})
            if n == 1:
                obj.create(srcdir=be.url("src1"), metadata=meta(1), objdir=be.url("obj"))
            else:
                obj.add_version_with_content(objdir=be.url("obj"), srcdir=be.url("src%d" % n), metadata=meta(n))
            out.step()
        trees.append(be.get("obj"))
    tree = trees[-1]
    out.state(sorted(tree.items(), key=str))
    inv = oracle.load(tree["inventory.json"])
    listed = [p for ps in inv["manifest"].values() for p in ps]
    stored = sorted(p for p, d in tree.items() if d is not None and p.split("/")[1:2] == [cd])
    out.check(sorted(listed) == stored, "%s" % case, lambda: "manifest lists %s but %s are stored" % (sorted(listed), stored))
    have = set()
    for n, v in enumerate(versions, 1):
        src, fd, dd, norm = SRCS[v[0]], v[1], v[2], v[3]
        out.done("fd%d dd%d" % (fd, dd))
        pre = "v%d/%s/" % (n, cd)
        new = {p[len(pre):]: d for p, d in tree.items() if p.startswith(pre) and d is not None}
        for data in sorted(set(src.values()) | set(new.values())):
            paths = sorted(mapped(p, norm) for p, d in src.items() if d == data)
            got = sorted(p for p, d in new.items() if d == data)
            if not paths:
                want, ok = [], not got
            elif fd and data in have:
                want, ok = [], not got
            elif dd:
                want, ok = "one of %s" % paths, len(got) == 1 and got[0] in paths
            else:
                want, ok = paths, got == paths
            out.check(ok, "%s" % case, lambda: "version %d (forward delta %d, dedupe %d) stores %s for %r, should store %s" % (n, fd, dd, got, data, want))
        have |= set(src.values())
    out.sample = {"stored": stored}
