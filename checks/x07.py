"""X07: what is at a path is recognized by its declaration, and declarations are written and checked right."""
import itertools
import os
import re

from mc.lib import Local, Memory, backend
from mc.tree import write_tree

PROPERTY = "X07"
LEVEL = "model_checking"
RULE = ("An execution is one directory with one set of entries whose type is determined (or whose declarations are found and checked), or one declaration written, by each filesystem; "
        "a state is a distinct set of entries")
ASSUMPTIONS = ["Names of entries outside the set behave like those in it"]
NAMES = ["0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_1", "0=ocfl_object_11", "0=ocfl_bject_1.0", "0=ocfl_object_1.1x", "0=", "0=zzz", "0=aaa", "0=ocfl_2.10",
         "1=ocfl_1.0", "00=ocfl_1.0", "x0=ocfl_object_1.0", "inventory.json", "v1", "0", "0=OCFL_1.0", "0=ocfl_object_\u0661.0", "0=ocfl_1.0\n"]
CONTENTS = ["{t}\n", "{t}", "{t}\r\n", " {t}\n", "{t} \n", "", "\n", "other\n", "{t}\nmore\n", "{t}x\n", "{u}\n", "\ufeff{t}\n"]
TEXTS = ["", "ocfl_1.0", "a b", "a/b", "..", "\u00e9\u540d", "x" * 39, "x" * 40, "x" * 41, "  trim ", "a\nb", "a:b-c_d.e", "a=b", "\x00", "$%&", "x" * 38 + "\u00e9/y", "\t", "A" * 100, "  " + "x" * 50, "x" * 39 + " y", "x" * 38 + "   y", " " * 45 + "z"]
COUNT = sum(1 for k in range(4) for _ in itertools.combinations(NAMES, k))
BOUNDS = {
    "quick": "all sets of up to 3 of %d entry names (%d), each as file (and as directory for single ones), 9 to 12 declarations, 10 kinds of path; %d contents x names for checks of content; "
             "%d texts x 3 tags for writing" % (len(NAMES), COUNT, len(CONTENTS), len(TEXTS)),
    "thorough": "all sets of up to 4 entry names",
}


def cases(tier):
    k = 3 if tier == "quick" else 4
    return [["type", be, k, part] for be in ("local", "mcfs") for part in range(8)] + [["paths"], ["many"], ["content"], ["write"]]


def expected(names):
    """Type of a directory from the names in it."""
    decl = sorted(n[2:] for n in names if n.startswith("0="))
    for t in decl:
        m = re.match(r"ocfl_(object_)?\d+\.\d+\Z", t)
        if m:
            return "object" if m[1] else "root"
    return None


def classify(path):
    import ocfl
    t = ocfl.find_path_type(path)
    return t if t in ("root", "object", "file") else (None if isinstance(t, str) else repr(t))


def run(case, world, out):
    {"type": run_type, "paths": run_paths, "many": run_many, "content": run_content, "write": run_write}[case[0]](case, world, out)


def run_type(case, world, out):
    from ocfl.fsw import fsw_openfs
    from ocfl.namaste import NamasteException, find_namastes
    _, bename, k, part = case
    be = backend(bename, world)
    sets = [c for n in range(k + 1) for c in itertools.combinations(NAMES, n)]
    for i in range(part, len(sets), 8):
        names = sets[i]
        for kind in ("file", "dir") if len(names) == 1 else ("file",):
            d = "d%d%s" % (i, kind)
            be.put(d, {n: b"" if kind == "file" else None for n in names})
            key = "%s:%s:%s" % (bename, kind, list(names))
            got = classify(be.url(d))
            out.step()
            out.state((names, kind))
            out.done(str(got))
            out.check(got == expected(names), key, lambda: "directory with %s is taken as %s, not %s" % (names, got, expected(names)))
            for tag in ("0", 0, 1, "00"):
                found = find_namastes(tag, fsw=fsw_openfs(be.url(d)))
                want = sorted(n for n in names if n.startswith("%s=" % tag))
                out.check([f.filename for f in found] == want, key, lambda: "declarations found with tag %r are %s" % (tag, [f.filename for f in found]))
                if bename == "local":
                    found = find_namastes(tag, world.path(d))
                    out.check([f.filename for f in found] == want, key, lambda: "declarations found with os and tag %r are %s" % (tag, [f.filename for f in found]))
                    for limit in (1, 2):
                        try:
                            ok = len(find_namastes(tag, world.path(d), limit=limit)) <= limit
                        except NamasteException:
                            ok = len(want) > limit
                        out.check(ok, key, "limit of number of declarations is not kept")


def run_paths(case, world, out):
    write_tree(world.path("p"), {"root/0=ocfl_1.1": b"", "root/o/0=ocfl_object_1.1": b"", "root/o/inventory.json": b"{}", "plain/x": b"", "empty": None, "sp ace \u00e9/0=ocfl_1.0": b""})
    os.symlink(world.path("p/root"), world.path("p/link"))
    os.symlink(world.path("p/none"), world.path("p/broken"))
    want = {"root": "root", "root/": "root", "root/o": "object", "root/o/": "object", "root/o/inventory.json": "file", "root/0=ocfl_1.1": "file", "plain": None, "plain/x": "file", "empty": None,
            "none": None, "none/none": None, "plain/x/y": None, "sp ace \u00e9": "root", "link": "root", "link/o": "object", "broken": None, "root/../root/o": "object", "root/o/none.json": None,
            "./root": "root", "root/.": "root"}
    cwd = os.getcwd()
    os.chdir(world.path("p"))
    try:
        for p, w in want.items():
            for path in (world.path("p/" + p), p):
                got = classify(path)
                out.step()
                out.state((p, path == p))
                out.done(str(got))
                out.check(got == w, "path:%s" % p, lambda: "path %s is taken as %s" % (p, got))
    finally:
        os.chdir(cwd)


def run_many(case, world, out):
    for be in (Local(world), Memory(world)):
        for n in range(8, 14):
            for name, w in (("0=ocfl_1.1", "root"), ("0=ocfl_object_1.1", "object")):
                d = "m%d%s" % (n, w)
                be.put(d, dict({"0=x%02d" % i: b"" for i in range(n - 1)}, **{name: b""}))
                got = classify(be.url(d))
                out.step()
                out.state((be.name, n, w))
                out.done(str(got))
                out.check(got == (w if n <= 10 else None), "many:%s" % d, lambda: "directory with %d declarations is taken as %s" % (n, got))


def run_content(case, world, out):
    from ocfl.fsw import fsw_openfs
    from ocfl.namaste import Namaste
    be = Memory()
    for t in ("ocfl_1.0", "ocfl_1.1", "ocfl_object_1.0", "ocfl_object_1.1", "x"):
        for i, c in enumerate(CONTENTS):
            text = c.format(t=t, u=t.upper())
            write_tree(world.path("c"), {"0=" + t: text.encode()})
            be.put("c", {"0=" + t: text.encode()})
            # Whitespace around is stripped when making the name from the content
            want = text.strip() == t
            for how, got in (("os", Namaste(0, t).content_ok(world.path("c"))), ("fs", Namaste(0, t).content_ok(fsw=fsw_openfs(be.url("c")))),
                             ("tvalue", Namaste(0, tvalue=t).content_ok(fsw=fsw_openfs(be.url("c"))))):
                out.step()
                out.state((t, text, how))
                out.done("content %s" % got)
                out.check(got == want, "content:%s:%r:%s" % (t, text, how), lambda: "content %r of 0=%s is taken as %s" % (text, t, got))
        be.put("c", {})
        be.put("c", {"0=" + t: None, "other": b""})
        out.check(not Namaste(0, t).content_ok(fsw=fsw_openfs(be.url("c"))), "content:dir", "directory is taken as declaration")
        be.put("e", {"other": t.encode()})
        out.check(not Namaste(0, t).content_ok(fsw=fsw_openfs(be.url("e"))), "content:missing", "missing declaration is taken as right")
        be.put("g", {"0=" + t: b"\xff\xfe" + t.encode()})
        out.check(not Namaste(0, t).content_ok(fsw=fsw_openfs(be.url("g"))), "content:bytes", "declaration of bytes that are not text is taken as right")


def tvalue(text):
    """Value in the name of the file from the content, as documented: at most 40 characters, trimmed, other characters than word, dot, hyphen, underscore, colon replaced."""
    return "".join(c if c.isalnum() or c in "._-:" else "_" for c in text.strip()[:40])


def run_write(case, world, out):
    from ocfl.fsw import fsw_openfs
    from ocfl.namaste import Namaste, find_namastes
    for i, text in enumerate(TEXTS):
        for d in (0, 1, 12):
            for be in (Local(world), Memory(world)):
                be.put("w%d.%d/sub" % (i, d), {"keep": b"k"})
                n = Namaste(d, text)
                want = "%d=%s" % (d, tvalue(text))
                key = "write:%s:%d:%r" % (be.name, d, text)
                out.check(n.filename == want, key, lambda: "file name for %r is %r, not %r" % (text, n.filename, want))
                where = "w%d.%d" % (i, d)
                fs = fsw_openfs(be.url(where))
                n.write(fsw=fs)
                n.write("sub", fsw=fs)
                if be.name == "local":
                    n.write(world.path(where + "/sub"))
                out.step(2)
                out.state((be.name, i, d))
                out.done("written")
                tree = be.get(where)
                data = (text + "\n").encode()
                out.check({p: c for p, c in tree.items()} == {want: data, "sub": None, "sub/" + want: data, "sub/keep": b"k"}, key, lambda: "writing %r gives %s" % (text, sorted(tree.items())))
                found = find_namastes(d, fsw=fs)
                out.check([f.tvalue for f in found] == [tvalue(text)], key, "declaration written is not found")
                if tvalue(text):
                    out.check(found[0].content_ok(fsw=fs), key, lambda: "declaration written with %r is not taken as right" % text)
