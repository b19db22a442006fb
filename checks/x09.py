"""X09: storage is accessed the same way whatever kind it is: walking, listing, comparing, copying and opening."""
import itertools
import os
import zipfile

from mc import mcfs, writer
from mc.lib import A, B, C, STATES, Local, Memory, backend, diff, seqs
from mc.tree import read_tree, with_dirs, write_tree

PROPERTY = "X09"
LEVEL = "model_checking"
RULE = ("An execution is one operation of the filesystem wrapper (or one sequence of operations of the library) on one tree on one kind of storage, compared with a simple definition (or with "
        "the same on another kind); a state is a distinct (tree, storage, operation)")
ASSUMPTIONS = ["S3 storage is not available here; an in-memory storage that keeps no directories stands for it"]
NODES = ["a", "...", "d/", "d/d", "d/e/", "d/e/y", "%61", "a b/", "\u00e9", ".h"]
KINDS = ["local", "mcfs", "memory", "zip", "sub"]
K = 256 * 1024
SIZES = [0, 1, 2, K - 1, K, K + 1, 2 * K, 2 * K + 3]
URLS = ["{w}/t", "t", "./t", "{w}/t/", "file://{w}/t", "t/../t", "{w}/t/d", "t/d"]
BOUNDS = {
    "quick": "all trees of up to 4 of %d nodes x %d kinds of storage: walk (pruned too), files, listing, opening, copying to each kind; comparing and copying of files of all pairs of %d sizes "
             "around the buffer size with a difference at start, buffer borders or end, read in 4 patterns; all histories of up to 2 versions and root operations on each kind of storage that can be "
             "written, compared tree by tree" % (len(NODES), len(KINDS), len(SIZES)),
    "thorough": "all trees of up to 6 nodes; histories of up to 3 versions",
}


def trees(k):
    for n in range(k + 1):
        for names in itertools.combinations(NODES, n):
            t = {}
            for i, p in enumerate(names):
                if p.endswith("/"):
                    t.setdefault(p[:-1], None)
                else:
                    t[p] = b"content %d of %s" % (i, p.encode())
            yield with_dirs(t)


def cases(tier):
    k = 4 if tier == "quick" else 6
    out = [["tree", kind, k, part] for kind in KINDS for part in range(6)] + [["compare", i] for i in range(len(SIZES))] + [["copyfile", i] for i in range(len(SIZES))] + [["open"], ["missing"], ["cwd"]]
    out += [["history", n, i] for n in range(1, 3 if tier == "quick" else 4) for i in range(len(STATES))] + [["conform"]]
    return out


def make_fs(kind, world, tree):
    """A filesystem that has just this tree."""
    import fsspec
    from fsspec.implementations.dirfs import DirFileSystem
    from ocfl.fsw import fsw_opendir_as_fs, fsw_openfs
    if kind == "local":
        write_tree(world.path("t"), tree)
        return fsw_openfs(world.path("t"))
    if kind == "mcfs":
        be = Memory()
        be.put("t", tree)
        return fsw_openfs(be.url("t"))
    if kind == "memory":
        fs = fsspec.filesystem("memory")
        if fs.exists("/x09"):
            fs.rm("/x09", recursive=True)
        fs.makedirs("/x09/t")
        for p in sorted(tree):
            if tree[p] is None:
                fs.makedirs("/x09/t/" + p, exist_ok=True)
            else:
                fs.pipe_file("/x09/t/" + p, tree[p])
        return fsw_openfs("memory://x09/t")
    if kind == "zip":
        with zipfile.ZipFile(world.path("t.zip"), "w") as z:
            for p in sorted(tree):
                z.writestr(zipfile.ZipInfo(p + "/" if tree[p] is None else p), tree[p] or b"")
        return fsw_openfs("zip://" + world.path("t.zip"))
    be = Memory()
    be.put("up/some/t", tree)
    be.put("up/other", {"o": b"o"})
    return fsw_opendir_as_fs(fsw_openfs(be.url("up")), "some/t")


def run(case, world, out):
    {"tree": run_tree, "compare": run_compare, "copyfile": run_copyfile, "open": run_open, "missing": run_missing, "cwd": run_cwd, "history": run_history, "conform": run_conform}[case[0]](case, world, out)


def below(tree, d):
    return {p[len(d) + 1:]: c for p, c in tree.items() if p.startswith(d + "/")} if d else tree


def run_tree(case, world, out):
    from ocfl.fsw import FswException, fsw_copydir, fsw_listdir_names, fsw_openfile, fsw_readtext, fsw_walk, fsw_walk_files
    _, kind, k, part = case
    done = set()
    for i, tree in enumerate(trees(k)):
        ident = repr(sorted(tree.items(), key=str))
        if i % 6 != part or ident in done:
            continue
        done.add(ident)
        if kind == "zip" and not tree:
            continue
        world.fresh()
        fs = make_fs(kind, world, tree)
        key = "%s:%s" % (kind, sorted(tree))
        dirs = [p for p, c in tree.items() if c is None]
        out.state((kind, ident))
        for d in [""] + dirs:
            sub = below(tree, d)
            for start in {"": ["", "/"]}.get(d, [d, "/" + d]):
                got = {}
                for dirpath, ds, fsn in fsw_walk(fs, start):
                    out.check(dirpath not in got, key, "walk goes to %s twice" % dirpath)
                    got[dirpath] = (sorted(ds), sorted(fsn))
                want = {}
                for dd in [""] + [p for p, c in sub.items() if c is None]:
                    inside = {p: c for p, c in below(sub, dd).items() if "/" not in p}
                    want[("/" + "/".join(x for x in (d, dd) if x))] = (sorted(p for p, c in inside.items() if c is None), sorted(p for p, c in inside.items() if c is not None))
                out.step()
                out.done("walk")
                out.check(got == want, "%s:walk:%s" % (key, start), lambda: "walk from %r gives %s, not %s" % (start, got, want))
                files = fsw_walk_files(fs, start)
                out.check(sorted(files) == sorted(p for p, c in sub.items() if c is not None), "%s:files:%s" % (key, start), lambda: "files from %r are %s" % (start, files))
                names = fsw_listdir_names(fs, start)
                out.check(sorted(names) == sorted(p for p in sub if "/" not in p), "%s:list:%s" % (key, start), lambda: "names in %r are %s" % (start, names))
            # Directories taken out are not walked
            got = []
            for dirpath, ds, fsn in fsw_walk(fs, d):
                got += fsn
                ds[:] = [x for x in ds if x != "e"]
            want = [p.split("/")[-1] for p, c in sub.items() if c is not None and "e" not in p.split("/")[:-1]]
            out.check(sorted(got) == sorted(want), "%s:prune:%s" % (key, d), lambda: "walk without e gives %s, not %s" % (got, want))
            out.step(3)
        for p, c in tree.items():
            if c is None:
                continue
            with fsw_openfile(p, fs=fs) as fh:
                out.check(fh.read() == c, key, "content of %s is wrong" % p)
            out.check(fsw_readtext(p, fs=fs) == c.decode(), key, "text of %s is wrong" % p)
            out.step(2)
        # Copies to each kind of storage have all files and no more
        if len(tree) > 4:
            continue
        for dst in ("local", "mcfs"):
            for d in [""] + dirs:
                for target in ("n", "n/m"):
                    if dst == "mcfs" and kind in ("mcfs", "sub"):
                        continue  # one store is kept in a process
                    if dst == "local":
                        be = Local(world)
                    else:
                        be = Memory()
                    be.put("dst", {"keep": b"k"})
                    from ocfl.fsw import fsw_openfs
                    dfs = fsw_openfs(be.url("dst"))
                    fsw_copydir(fs, d, dfs, target)
                    got = be.get("dst")
                    want = {target + "/" + p: c for p, c in below(tree, d).items() if c is not None}
                    want["keep"] = b"k"
                    files = {p: c for p, c in got.items() if c is not None}
                    out.step()
                    out.done("copied")
                    out.check(files == want, "%s:copy:%s:%s" % (key, d, target), lambda: "copy of %r has %s, not %s" % (d, sorted(files), sorted(want)))
                    allowed = {x for p in list(want) + [target + "/."] for x in parents(p)}
                    out.check({p for p, c in got.items() if c is None} <= allowed, "%s:copy:%s" % (key, d), "copy has other directories than those of its files")
                    for bad in (target, "keep"):
                        before = be.get("dst")
                        try:
                            fsw_copydir(fs, d, dfs, bad)
                            out.violation("%s:copy over" % key, "copy on what is there was done")
                        except FswException:
                            pass
                        out.check(be.get("dst") == before, "%s:copy over" % key, "copy that is refused has effects")
                    if dst == "local":
                        import shutil
                        shutil.rmtree(world.path("dst"))
        for bad in ["none", "none/none"] + [p for p, c in tree.items() if c is not None][:1]:
            be = Local(world)
            be.put("dst", {})
            from ocfl.fsw import fsw_openfs
            try:
                fsw_copydir(fs, bad, fsw_openfs(be.url("dst")), "n")
                out.violation("%s:copy none" % key, "copy of %s was done" % bad)
            except FswException:
                out.done("copy refused")
            out.check(not be.get("dst"), "%s:copy none" % key, "copy that is refused has effects")


def parents(p):
    parts = p.split("/")
    return {"/".join(parts[:n]) for n in range(1, len(parts))}


class ShortFs:
    """Filesystem with short reads on top of the in-memory one."""

    def __init__(self, fs, pattern):
        self.fs, self.pattern = fs, pattern

    def __getattr__(self, name):
        return getattr(self.fs, name)

    def open(self, path, mode="rb", **kwargs):
        fh = self.fs.open(path, mode, **kwargs)
        if self.pattern and "r" in mode:
            read = fh.read
            fh.read = lambda n=-1: read(n if n is None or n < 0 else max(1, min(n, self.pattern)))
        return fh


def data(n, at=None):
    b = bytearray((bytes(range(256)) * (n // 256 + 1))[:n])
    if at is not None:
        b[at] ^= 1
    return bytes(b)


def run_compare(case, world, out):
    from ocfl.fsw import fsw_files_identical, fsw_openfs
    n = SIZES[case[1]]
    loc, mem = Local(world), Memory()
    points = sorted({p for p in (0, 1, n // 2, K - 1, K, K + 1, 2 * K - 1, 2 * K, n - 2, n - 1) if 0 <= p < n})
    for be in (loc, mem):
        be.put("c/x", {"f": data(n), "same": data(n)})
        fs = fsw_openfs(be.url("c"))
        for p in points:
            be.put("c/y", {"g%d" % p: data(n, p)})
        for m in SIZES:
            be.put("c/z", {"s%d" % m: data(m)})
        for pattern in (None,) if be is loc else (None, K // 2, K):
            f = ShortFs(fs, pattern)
            for a, b, want in ([("x/f", "x/same", True), ("x/f", "x/f", True)] + [("x/f", "y/g%d" % p, False) for p in points] + [("y/g%d" % p, "x/f", False) for p in points] +
                               [("x/f", "z/s%d" % m, m == n) for m in SIZES]):
                got = fsw_files_identical(f, a, b)
                out.step()
                out.state((be.name, pattern, n, a, b))
                out.done("compared %s" % got)
                out.check(got == want, "compare:%s:%s:%d:%s:%s" % (be.name, pattern, n, a, b), lambda: "files of %d bytes %s and %s are compared as %s" % (n, a, b, got))
        for a, b in (("x/f", "x/none"), ("x/none", "x/f"), ("x/none", "x/none")):
            try:
                got = fsw_files_identical(fs, a, b)
                out.violation("compare:none", "comparison of a missing file is %s" % got)
            except FileNotFoundError:
                out.done("compare refused")


def run_copyfile(case, world, out):
    from ocfl.fsw import fsw_copyfile, fsw_openfs
    n = SIZES[case[1]]
    loc, mem = Local(world), Memory()
    for src in (loc, mem):
        src.put("s", {"f": data(n)})
    for dst in (loc, mem):
        dst.put("d", {"old": b"longer than what is copied " * 3, "keep": b"k"})
    for src in (loc, mem):
        for dst in (loc, mem):
            for pattern in (None, 1 if n < 10 else K // 3, K - 1):
                for name in ("new", "old"):
                    fsw_copyfile(ShortFs(fsw_openfs(src.url("s")), pattern), "f", fsw_openfs(dst.url("d")), name)
                    got = dst.get("d")
                    out.step()
                    out.state((src.name, dst.name, n, pattern, name))
                    out.done("copied")
                    out.check(got[name] == data(n) and got["keep"] == b"k", "copyfile:%s:%s:%s:%s" % (src.name, dst.name, n, pattern), lambda: "copy of %d bytes has %d" % (n, len(got[name])))
                dst.put("d", {"old": b"longer than what is copied " * 3})


def run_open(case, world, out):
    from ocfl.fsw import FswException, fsw_openfs
    for fmt in URLS:
        for name in ("n", "n m", "\u00e9", "d"):
            world.fresh()
            write_tree(world.path("t"), {"a": A, "d/x": B})
            cwd = os.getcwd()
            os.chdir(world.dir)
            try:
                url = fmt.format(w=world.dir)
                fs = fsw_openfs(url)
                want = ["x"] if url.endswith("/d") else ["a", "d"]
                out.check(sorted(os.path.basename(p) for p in fs.ls("", detail=False)) == want, "open:%s" % fmt, "filesystem of %s is wrong" % url)
                out.check(fsw_openfs(fs) is fs, "open:%s" % fmt, "a filesystem is not taken as it is")
                for slash in ("", "/"):
                    before = read_tree(world.dir)
                    new = url.rstrip("/") + "/" + name + slash
                    rel = os.path.normpath(os.path.join(world.dir, (url.split("://")[-1]), name))
                    there = os.path.exists(rel)
                    for exists_ok in (False, True):
                        try:
                            nfs = fsw_openfs(new, create=True, exists_ok=exists_ok)
                            done = True
                        except FswException:
                            done = False
                        out.step()
                        out.state((fmt, name, slash, exists_ok))
                        out.done("opened" if done else "refused")
                        out.check(done == (exists_ok or not there), "create:%s:%s" % (fmt, name), lambda: "creation of %s with exists_ok %s was %s" % (new, exists_ok, done))
                        if done:
                            nfs.pipe_file("probe", C)
                            out.check(os.path.isfile(os.path.join(rel, "probe")), "create:%s:%s" % (fmt, name), "filesystem created is not at %s" % new)
                            os.unlink(os.path.join(rel, "probe"))
                            there = True
                    after = read_tree(world.dir)
                    out.check({p: c for p, c in after.items() if p in before} == before, "create:%s:%s" % (fmt, name), "something was changed")
                for bad in ("none", "a", "none/n", "a/n"):
                    base = url.rstrip("/") + "/"
                    before = read_tree(world.dir)
                    try:
                        fsw_openfs(base + bad, create=bad.endswith("/n"))
                        out.violation("open:%s:%s" % (fmt, bad), "%s was opened" % (base + bad))
                    except (OSError, FswException):
                        out.done("refused")
                    out.step()
                    out.check(read_tree(world.dir) == before, "open:%s:%s" % (fmt, bad), "open that was refused has effects")
            finally:
                os.chdir(cwd)


def run_missing(case, world, out):
    from ocfl.fsw import fsw_listdir_names, fsw_openfile, fsw_readtext, fsw_walk_files
    for kind in KINDS:
        world.fresh()
        fs = make_fs(kind, world, {"a": A, "d": None, "d/x": B})
        for name, f in (("open", lambda: fsw_openfile("none", fs=fs).read()), ("text", lambda: fsw_readtext("d/none", fs=fs)), ("walk", lambda: fsw_walk_files(fs, "none")),
                        ("list", lambda: fsw_listdir_names(fs, "none"))):
            out.step()
            out.state((kind, name))
            try:
                got = f()
                out.violation("missing:%s:%s" % (kind, name), "%s of what isn't there gives %s" % (name, got))
            except (OSError, KeyError):
                out.done("refused")


def run_cwd(case, world, out):
    """Paths given without a filesystem are those in the working directory there is at the time."""
    import hashlib

    from ocfl.digest import file_digest
    from ocfl.fsw import fsw_openfile, fsw_readtext
    trees = {"p": {"a": A, "b": A, "d/a": B}, "p/d2": {"a": C, "b": A}, "q": {"b": B}}
    for d, t in trees.items():
        world.path(d)
        write_tree(world.path(d), t)
    cwd = os.getcwd()
    try:
        for walk in itertools.product(sorted(trees), repeat=3):
            for d in walk:
                os.chdir(world.path(d))
                for name in ("a", "b", "d/a", "d2/a", os.path.join(world.path("p"), "a")):
                    where = os.path.normpath(os.path.join(world.path(d), name))
                    want = None
                    if os.path.isfile(where):
                        with open(where, "rb") as fh:
                            want = fh.read()
                    for what, f, w in (("read", lambda: fsw_openfile(name).read(), want), ("text", lambda: fsw_readtext(name), want and want.decode()),
                                       ("digest", lambda: file_digest(name, "md5"), want and hashlib.md5(want).hexdigest())):
                        try:
                            got = f()
                        except OSError:
                            got = None
                        out.step()
                        out.done("read" if got is not None else "refused")
                        out.state((d, name, what))
                        out.check(got == w, "cwd:%s:%s:%s" % (list(walk), name, what), lambda: "%s of %s in %s is %r, not %r" % (what, name, d, got, w))
    finally:
        os.chdir(cwd)


def writable(name, world):
    """Kinds of storage that can be written, as (base URL, function giving the tree)."""
    import fsspec
    if name == "memory":
        fs = fsspec.filesystem("memory")
        if fs.exists("/x09w"):
            fs.rm("/x09w", recursive=True)
        fs.makedirs("/x09w")

        def get():
            return {p[len("/x09w/"):]: fs.cat_file(p) for p in fs.find("/x09w")}
        return "memory://x09w", get
    be = backend(name, world)
    be.put("w", {})
    return be.url("w"), lambda: {p: d for p, d in be.get("w").items() if d is not None}


def run_history(case, world, out):
    """The same operations on each kind of storage give the same files and the same answers."""
    import ocfl
    from mc.lib import make_object, meta
    _, n, first = case
    for s in seqs(len(STATES), n, n):
        if s[0] != first:
            continue
        results = {}
        for name in ("local", "mcfs", "memory"):
            world.fresh()
            base, get = writable(name, world)
            for i, st in enumerate(s):
                write_tree(world.path("src/%d" % i), STATES[st])
            make_object({}).create(srcdir=world.path("src/0"), metadata=meta(1), objdir=base + "/o")
            for i in range(1, n):
                make_object({}).add_version_with_content(objdir=base + "/o", srcdir=world.path("src/%d" % i), metadata=meta(i + 1))
            store = ocfl.StorageRoot(root=base + "/r", layout_name="0003")
            store.initialize()
            added = store.add(base + "/o")
            passed, v = make_object({}).validate(base + "/o")
            root = ocfl.StorageRoot(root=base + "/r")
            answers = [passed, sorted(v.log.codes), added, root.validate(), sorted(ocfl.StorageRoot(root=base + "/r").list_objects()), root.num_objects, ocfl.Object(path=base + "/o").id_from_inventory(),
                       ocfl.find_path_type(base + "/o"), ocfl.find_path_type(base + "/r")]
            for i in range(n):
                make_object({}).extract(objdir=base + "/o", version="v%d" % (i + 1), dstdir=world.path("out%d" % i))
                answers.append({p: d for p, d in read_tree(world.path("out%d" % i)).items() if d is not None})
            tree = get()
            results[name] = (tree, answers)
            out.step(n + 6)
            out.state((name, s))
            out.done("history")
            out.check(answers[9:] == [STATES[i] for i in s], "history:%s:%s" % (name, s), "what is extracted is wrong")
        for name, (tree, answers) in results.items():
            out.check(tree == results["mcfs"][0], "history:%s:%s" % (name, s), lambda: "files on %s differ from those in memory: %s" % (name, diff(results["mcfs"][0], tree)))
            out.check(answers == results["mcfs"][1], "history:%s:%s" % (name, s), lambda: "answers on %s differ: %s and %s" % (name, answers[:9], results["mcfs"][1][:9]))


CALLS = [("mkdir", "m"), ("mkdir", "d"), ("mkdir", "none/m"), ("makedir", "a"), ("makedirs", "m/n"), ("makedirs", "d"), ("makedirs_ok", "d"), ("makedirs_ok", "a/n"), ("write", "n"), ("write", "a"),
         ("write", "d"), ("write", "none/n"), ("write", "a/n"), ("read", "a"), ("read", "d"), ("read", "none"), ("read", "a/n"), ("exists", "a"), ("exists", "d"), ("exists", "none"), ("exists", "a/n"),
         ("isdir", "a"), ("isdir", "d"), ("isdir", "none"), ("isfile", "a"), ("isfile", "d"), ("isfile", "none"), ("ls", ""), ("ls", "d"), ("ls", "none"), ("info", "a"), ("info", "d"), ("info", "none"),
         ("rm", "a"), ("rm", "d"), ("rm_r", "d"), ("rm", "none"), ("rmdir", "d"), ("rmdir", "a"), ("rmdir", "d/e"), ("mv", "a", "n"), ("mv", "d", "n"), ("mv", "none", "n"), ("mv", "a", "d/x"),
         ("write_text", "t"), ("read_text", "a"), ("cp", "a", "n"), ("append", "a"), ("touch", "n")]


def call(fs, op):
    name, p = op[0], op[1]
    if name == "mkdir":
        return fs.mkdir(p, create_parents=False)
    if name == "makedir":
        return fs.makedir(p)
    if name == "makedirs":
        return fs.makedirs(p)
    if name == "makedirs_ok":
        return fs.makedirs(p, exist_ok=True)
    if name in ("write", "append"):
        with fs.open(p, "wb" if name == "write" else "ab") as fh:
            fh.write(b"written")
        return None
    if name == "read":
        with fs.open(p, "rb") as fh:
            return fh.read()
    if name == "write_text":
        fs.write_text(p, "text\u00e9\n")
        return None
    if name == "read_text":
        return fs.read_text(p)
    if name == "ls":
        return sorted(fs.ls(p, detail=False)), sorted((i["name"], i["type"], i["size"] if i["type"] == "file" else None) for i in fs.ls(p, detail=True))
    if name == "info":
        i = fs.info(p)
        return i["name"], i["type"], i["size"] if i["type"] == "file" else None
    if name == "rm":
        return fs.rm(p)
    if name == "rm_r":
        return fs.rm(p, recursive=True)
    if name == "mv":
        fs.mv(p, op[2], recursive=p == "d")
        return None
    if name == "cp":
        return fs.cp_file(p, op[2])
    return getattr(fs, name)(p)


def run_conform(case, world, out):
    """The in-memory filesystem of this machinery acts as the local one: all sequences of two calls."""
    from ocfl.fsw import fsw_openfs
    tree = {"a": A, "d": None, "d/x": B, "d/e": None}
    for first in [None] + CALLS:
        for second in CALLS:
            results = []
            for name in ("local", "mcfs"):
                world.fresh()
                be = backend(name, world)
                be.put("t", tree)
                fs = fsw_openfs(be.url("t"))
                got = []
                for op in (first, second):
                    if op is None:
                        continue
                    try:
                        got.append(call(fs, op))
                    except (OSError, ValueError):
                        got.append("error")
                    out.step()
                results.append((got, be.get("t")))
            out.state((first, second))
            out.done("conforms")
            out.check(results[0] == results[1], "conform:%s:%s" % (first, second), lambda: "after %s, %s local storage gives %s, in-memory %s" % (first, second, results[0], results[1]))
