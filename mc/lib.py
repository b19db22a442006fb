"""Building blocks shared by the checks: backends, source states, histories."""
import hashlib
import itertools
import json
import os

from . import mcfs
from .tree import diff, files_only, read_tree, under, with_dirs, write_tree

A = b"a\n"
B = b"bb\n"
C = b"content C"
EMPTY = b""

CREATED = "2020-01-0%dT01:02:03Z"

# Source states: small trees chosen so that any two of them together exercise unchanged,
# changed, moved, duplicated, removed, nested, empty and oddly named files
STATES = [
    {"a": A},
    {"a": B, "d/b": A},
    {"a": A, "b": A, "d/d/c": A},
    {"a/b": B, "empty": EMPTY, "d/empty2": EMPTY},
    {" sp%20\u00e9.txt": A, ".hid": C, "%2Ehid": EMPTY, "d/.../x y": B, "v1": C, "v1/": None},
    {},
]
STATES[4].pop("v1/")


class Local:
    """Objects and sources in the scratch directory of this case."""

    name = "local"

    def __init__(self, world):
        self.world = world

    def url(self, rel):
        return self.world.path(rel)

    def put(self, rel, tree):
        write_tree(self.world.path(rel), tree)

    def get(self, rel):
        return read_tree(self.world.path(rel))

    def exists(self, rel):
        return os.path.exists(self.world.path(rel))

    def everything(self):
        return read_tree(self.world.dir)


class Memory:
    """Objects and sources in the in-memory filesystem mcfs."""

    name = "mcfs"

    def __init__(self, world=None):
        mcfs.STORE.reset()

    def url(self, rel):
        return "mcfs://" + rel

    def put(self, rel, tree):
        nodes = mcfs.STORE.nodes
        if rel not in nodes:
            mcfs.STORE.load({rel: None})
        mcfs.STORE.load({rel + "/" + p: d for p, d in tree.items()})

    def get(self, rel):
        return mcfs.STORE.tree(rel)

    def exists(self, rel):
        return rel in mcfs.STORE.nodes

    def everything(self):
        return mcfs.STORE.tree()


def backend(name, world):
    return {"local": Local, "mcfs": Memory}[name](world)


def meta(n, **kwargs):
    """VersionMetadata for version n with all fields set."""
    import ocfl
    d = {"created": "2020-%02d-%02dT01:02:03Z" % (1 + n // 28 % 12, 1 + n % 28), "message": "version %d" % n,
         "name": "Name %d" % n, "address": "mailto:n%d@example.org" % n}
    d.update(kwargs)
    return ocfl.VersionMetadata(**d)


OPTION_NAMES = ("digest", "norm", "fd", "dd", "spec", "cd", "fixity")


def options(**kwargs):
    """All combinations of object options, each given as a list of values."""
    dims = {"digest": ["sha512"], "norm": ["uri"], "fd": [1], "dd": [1], "spec": ["1.1"],
            "cd": ["content"], "fixity": [None]}
    dims.update(kwargs)
    for values in itertools.product(*(dims[k] for k in OPTION_NAMES)):
        yield dict(zip(OPTION_NAMES, values))


DEFAULTS = next(options())


def make_object(opts, identifier="info:obj/1", **kwargs):
    import ocfl
    return ocfl.Object(identifier=identifier,
                       digest_algorithm=opts.get("digest", "sha512"),
                       content_path_normalization=opts.get("norm", "uri"),
                       forward_delta=bool(opts.get("fd", 1)), dedupe=bool(opts.get("dd", 1)),
                       spec_version=opts.get("spec", "1.1"),
                       content_directory=opts.get("cd", "content"),
                       fixity=list(opts["fixity"]) if opts.get("fixity") is not None else None,
                       **kwargs)


def write_history(be, opts, states, method, rel="obj", on_version=None, src="src"):
    """Write an object with one version per source state, by build() or create() and updates.

    on_version(n) is called after version n has been written (for build, once at the end).
    opts may also be a list with the options to use for each version.
    """
    def o(n):
        return opts[n - 1] if isinstance(opts, list) else opts
    if method == "build":
        for n, tree in enumerate(states, 1):
            be.put("%s/v%d" % (src, n), tree)
        obj = make_object(o(1))
        inv = obj.build(srcdir=be.url(src), versions_metadata={n: meta(n) for n in range(1, len(states) + 1)},
                        objdir=be.url(rel))
        if on_version:
            on_version(len(states))
        return inv
    inv = None
    for n, tree in enumerate(states, 1):
        be.put("%s%d" % (src, n), tree)
        obj = make_object(o(n))
        if n == 1:
            inv = obj.create(srcdir=be.url("%s%d" % (src, n)), metadata=meta(n), objdir=be.url(rel))
        else:
            inv = obj.add_version_with_content(objdir=be.url(rel), srcdir=be.url("%s%d" % (src, n)), metadata=meta(n))
        if on_version:
            on_version(n)
    return inv


def hexdigest(algorithm, data):
    if algorithm.startswith("blake2b-"):
        return hashlib.blake2b(data, digest_size=int(algorithm[8:]) // 8).hexdigest()
    return hashlib.new(algorithm, data).hexdigest()


def jdump(value):
    return json.dumps(value, indent=2, sort_keys=True).encode("utf-8")


def extract_version(be, rel, version, dst, obj=None):
    """Extract version to local directory dst, return (files, metadata)."""
    import ocfl
    obj = obj or ocfl.Object()
    m = obj.extract(objdir=be.url(rel), version=version, dstdir=dst)
    return files_only(read_tree(dst)), m


def validate(be, rel, **kwargs):
    """(passed, sorted error codes) given by the code under test."""
    import ocfl
    passed, validator = ocfl.Object(**kwargs).validate(objdir=be.url(rel))
    return passed, sorted(c for c in validator.log.codes if c.startswith("E"))


def seqs(n, lo, hi):
    """All sequences over range(n) of length lo..hi, shortest first."""
    for length in range(lo, hi + 1):
        for s in itertools.product(range(n), repeat=length):
            yield list(s)


__all__ = [n for n in dir() if not n.startswith("_")]
