"""L01: every version of an object gives back exactly the files that were put in."""
import itertools
import os
import shutil

from mc import oracle
from mc.lib import (A, B, C, DEFAULTS, EMPTY, STATES, backend, diff, extract_version, files_only,
                    make_object, options, read_tree, seqs, write_history)

PROPERTY = "L01"
LEVEL = "model_checking"
RULE = ("An execution is one version (or one file) of one written history extracted and compared byte for byte with "
        "the source tree; a state is a distinct (tree of the written object); a transition is one create/build/update/extract call")
ASSUMPTIONS = ["Source files do not change while they are read", "Extraction destination is a local directory",
               "File contents outside the boundary sizes enumerated behave as the ones enumerated"]
# Paths with names that are the same at several levels, or begin or end with one another
NESTED = ["a", "b", "a/a", "a/b", "b/a", "b/b", "a/a/a", "a/b/a", "b/a/a", "b/b/a", "a.b", "a.b/a", "ab/a", "a b/b/a", "a/ab"]
# Names that some programs, or this library elsewhere, give a special meaning
SPECIAL = [".DS_Store", "Thumbs.db", "desktop.ini", ".git/config", ".gitignore", ".hidden/x", "x~", "x.tmp", "x.swp", "x.bak", "README.md", "inventory.json", "inventory.json.sha512", "manifest-sha512.txt",
           "bagit.txt", "0=ocfl_object_1.1", "0=x", "v1/content/x", "v2/x", "content/x", "extensions/x", "logs/x", "data/x", "ocfl_layout.json", "lost+found/x", "__pycache__/x.pyc", "con", "-", "--x", "~", "#x",
           "a\\b", "a;b", "*", "a?b", "[a]", "{a}", "%41", "%", "a%2Fb", "C:x", "x ", "x.", "..x", "...", "\u00e9", "e\u0301", "\ufb01", "\u200b", "x\ty"]
BOUNDS = {
    "quick": "all source trees with up to 2 of %d nested paths; %d names of special meaning; all histories of 1..2 versions over 6 source states x 96 option combinations x {build, create+update} in memory (for two "
             "versions, sha256 only with the default content directory and create+update); all histories of 3 versions for 2 option combinations; histories of 1..2 versions on the local filesystem; 12 version "
             "histories; content sizes at buffer boundaries" % (len(NESTED), len(SPECIAL)),
    "thorough": "all source trees with up to 4 of the nested paths; all histories of 1..3 versions over 6 source states x all 192 option combinations in memory; 4 versions for the default "
                "options; histories of 1..3 versions on the local filesystem for 4 option combinations; 101 version history",
}
SIZES = [0, 1, 65535, 65536, 65537, 131072, 262143, 262144, 262145, 524288, 600001]


def cases(tier):
    out = []
    full = list(options(digest=["sha512", "sha256"], norm=["uri", "md5", None], fd=[1, 0], dd=[1, 0],
                        cd=["content", "da ta"], fixity=[None, ["md5", "sha1"]],
                        spec=["1.1"] if tier == "quick" else ["1.0", "1.1"]))
    few = list(options(norm=["uri", None], fd=[1, 0], dd=[1, 0]))
    few = [few[0], few[-1], few[2], few[5]]
    n = len(STATES)
    for opts in full:
        for s in seqs(n, 1, 2 if tier == "quick" else 3):
            for method in ("build", "create"):
                if tier == "quick" and len(s) == 2 and opts["digest"] == "sha256" and (method == "build" or opts["cd"] != "content"):
                    continue
                out.append(["mcfs", opts, s, method])
    if tier == "quick":
        for opts in few[:2]:
            for s in seqs(n, 3, 3):
                out.append(["mcfs", opts, s, "create"])
    else:
        for s in seqs(n, 4, 4):
            for method in ("build", "create"):
                out.append(["mcfs", DEFAULTS, s, method])
    for opts in few[:1] if tier == "quick" else few:
        for s in seqs(n, 1, 2 if tier == "quick" else 3):
            for method in ("build", "create"):
                out.append(["local", opts, s, method])
    for method in ("build", "create"):
        for be in ("mcfs", "local"):
            out.append([be, DEFAULTS, [0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 2], method])
            for size in SIZES:
                out.append([be, DEFAULTS, size, method])
    out += [["local", DEFAULTS, [2 if tier == "quick" else 4, p], "shapes"] for p in range(len(NESTED))]
    out += [[be, dict(DEFAULTS, norm=norm), [], "special"] for be in ("mcfs", "local") for norm in ("uri", "md5", None)]
    if tier == "thorough":
        out.append(["mcfs", DEFAULTS, [i % 6 for i in range(101)], "create"])
    return out


def big(size, seed):
    return bytes((i * 7 + i // 251 + seed) % 256 for i in range(size))


def shapes(n, first):
    """Source trees with up to n of the nested paths, the first one given."""
    for k in range(n):
        for rest in itertools.combinations(NESTED[first + 1:], k):
            paths = (NESTED[first],) + rest
            if not any(p.startswith(q + "/") for p in paths for q in paths):
                yield {p: [A, B, A, C][i] for i, p in enumerate(paths)}


def run_shapes(case, world, out):
    """Creation and extraction of each tree on the local filesystem."""
    be = backend("local", world)
    for i, tree in enumerate(shapes(*case[2])):
        key = "shapes:%s" % sorted(tree)
        be.put("s%d" % i, tree)
        make_object(DEFAULTS).create(srcdir=be.url("s%d" % i), objdir=be.url("o%d" % i))
        got, _ = extract_version(be, "o%d" % i, "v1", world.path("x%d" % i))
        out.step(2)
        out.state(key)
        out.done("extract")
        out.check(got == tree, key, lambda: "extract of %s: %s" % (key, diff(tree, got)))
        for d in ("s%d", "o%d", "x%d"):
            shutil.rmtree(world.path(d % i))


def run_special(case, world, out):
    """Sources with names of special meaning, each on its own, below a directory, and all together."""
    bename, opts = case[:2]
    be = backend(bename, world)
    trees = [{name: A, "d/" + name: B} for name in SPECIAL] + [{name: b"%d" % i for i, name in enumerate(SPECIAL)}]
    for i, tree in enumerate(trees):
        key = "special:%s:%s:%s" % (bename, opts["norm"], sorted(tree)[0] if i < len(SPECIAL) else "all")
        be.put("s%d/v1" % i, tree)
        be.put("s%d/v2" % i, {"moved/" + p: d for p, d in tree.items()})
        obj = make_object(opts)
        obj.build(srcdir=be.url("s%d" % i), objdir=be.url("o%d" % i))
        obj.add_version_with_content(objdir=be.url("o%d" % i), srcdir=be.url("s%d/v1" % i))
        for v, want in (("v1", tree), ("v2", {"moved/" + p: d for p, d in tree.items()}), ("v3", tree)):
            got, _ = extract_version(be, "o%d" % i, v, world.path("x%d%s" % (i, v)))
            out.step()
            out.done("extract")
            out.check(got == want, key, lambda: "extract of %s of %s: %s" % (v, key, diff(want, got)))
        out.state(key)


def run(case, world, out):
    bename, opts, s, method = case
    if method == "special":
        return run_special(case, world, out)
    if method == "shapes":
        return run_shapes(case, world, out)
    be = backend(bename, world)
    if isinstance(s, int):
        states = [{"big": big(s, 0), "d/x": A}, {"big": big(s, 1), "e/old": big(s, 0)}]
    else:
        states = [STATES[i] for i in s]
    os.makedirs(world.path("out"))
    inv = write_history(be, opts, states, method)
    out.step(len(states) if method == "create" else 1)
    tree = be.get("obj")
    if not isinstance(s, int):
        out.state(sorted(tree.items()))
    key = "%s:%s:%s:%s" % (bename, method, s, ",".join(str(v) for v in opts.values()))
    out.check(inv.head == "v%d" % len(states), key, lambda: "head is %s after %d versions" % (inv.head, len(states)))
    versions = list(enumerate(states, 1))
    for n, want in versions + [("head", states[-1])]:
        version = n if n == "head" else "v%d" % n
        dst = world.path("out", version)
        got, m = extract_version(be, "obj", version, dst)
        out.step()
        out.done("extract")
        out.check(got == want, key, lambda: "extract of %s from %s: %s" % (version, key, diff(want, got)))
        want_version = "v%d" % (len(states) if n == "head" else n)
        out.check(m.version == want_version, key, lambda: "extract %s reports version %s" % (version, m.version))
        if n != "head":
            read = oracle.read_version(tree, version)
            out.check(read == want, key, lambda: "stored content of %s: %s" % (version, diff(want, read)))
    # Each file on its own, of the last two versions
    obj = make_object(DEFAULTS)
    for n, want in versions[-2:]:
        for i, (path, data) in enumerate(sorted(want.items())):
            dst = world.path("f%s-%d" % (n, i))
            obj.extract_file(objdir=be.url("obj"), version="v%d" % n, dstdir=dst, logical_path=path)
            out.step()
            out.done("extract_file")
            got = files_only(read_tree(dst))
            out.check(got == {path.split("/")[-1]: data}, key,
                      lambda: "extract_file %s of v%d gives %s" % (path, n, {p: d[:40] for p, d in got.items()}))
    out.sample = {"object_files": sorted(tree)[:12], "versions": len(states)}
