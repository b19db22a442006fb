"""C03: an input/output error at any point is reported, and is never taken for success or for a valid object."""
import errno
import os

from mc import life, mcfs, oracle, writer
from mc.lib import A, B, STATES, Memory, diff, files_only, make_object, read_tree, under, validate

from . import c01, l10

PROPERTY = "C03"
LEVEL = "fault_enumeration"
RULE = ("An execution is one operation with an error injected at one primitive filesystem operation (that one only, or that and all later "
        "ones), or with reads that return less than asked for; it ends with an error or with the result that it has without the fault")
ASSUMPTIONS = ["Errors are reported by the filesystem as exceptions", "A write that fails has written nothing (torn writes are covered in C01 and C02)"]
ERRORS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES}
WRITERS = ([[i, o] for i in c01.INITS[:4] for o in c01.OPS] +
           [[None, ["create", s, 0, x]] for s in (2, 4, 5) for x in ({}, {"norm": None, "dd": 0, "fixity": ["md5"]})] +
           [[None, ["build", s, [0] * len(s), x]] for s in ([2, 1], [4, 5, 2]) for x in ({}, {"fd": 0, "dd": 0, "fixity": ["sha1"]})])
READERS = ["validate", "validate-nodigests", "extract", "extract-first", "extract_file", "inventory", "id", "root-list", "root-validate", "validate_inventory"]
BOUNDS = {
    "quick": "%d writing operations x an EIO at every point, once or from then on; %d reading operations x %d objects, good and bad x EIO and EACCES at every "
             "point, once; reads of at most 1, 7 and 100 bytes" % (len(WRITERS), len(READERS), 13),
    "thorough": "EIO, ENOSPC and EACCES at every point, once or from then on, and all pairs of single EIO for reading; all objects",
}
QUICK_OBJECTS = ["good", "extra-file", "extra-content", "content-missing", "content-changed", "changed-inventory", "bad-sidecar", "no-sidecar",
                 "extra-version", "no-declaration", "v1-inventory-changed", "fixity-wrong", "hidden-extra"]


def objects():
    out = dict(l10.objects())
    good = writer.write_object([STATES[2], STATES[1]], fixity=["md5"])
    content = [p for p in sorted(good) if "/content/" in p]
    out["content-changed"] = dict(good, **{content[0]: good[content[0]] + b"!"})
    out["v1-inventory-changed"] = dict(good, **{"v1/inventory.json": good["v1/inventory.json"] + b"\n"})
    inv = good["inventory.json"].replace(oracle.digest("md5", good[content[0]]).encode(), b"0" * 32)
    out["fixity-wrong"] = dict(good, **{"inventory.json": inv, "v2/inventory.json": inv, "inventory.json.sha512": writer.sidecar_line(inv, "sha512", "two"),
                                        "v2/inventory.json.sha512": writer.sidecar_line(inv, "sha512", "two")})
    out["hidden-extra"] = dict(writer.write_object([{}, STATES[1]]), **{"v1/content/extra": b"x"})
    out["empty-dir"] = dict(good, **{"v2/content/empty": None})
    out["version-file"] = dict(good, **{"v1/file": b""})
    out["extensions-file"] = dict(good, **{"extensions/file": b""})
    return out


def cases(tier):
    names = QUICK_OBJECTS if tier == "quick" else sorted(objects())
    errs = ["EIO"] if tier == "quick" else sorted(ERRORS)
    out = [["write", w, e, s] for w in WRITERS for e in errs for s in (0, 1)]
    out += [["read", r, o, e, s] for r in READERS for o in names for e in (["EIO", "EACCES"] if tier == "quick" else sorted(ERRORS))
            for s in ((0,) if tier == "quick" else (0, 1))]
    out += [["chunk", w, c] for w in WRITERS for c in (1, 7, 100)]
    out += [["rchunk", r, o, c] for r in READERS for o in names for c in (1, 7, 100)]
    if tier == "thorough":
        out += [["pair", r, o] for r in READERS for o in QUICK_OBJECTS]
    return out


class Fault:
    """Hook that raises an error at the points given."""

    def __init__(self, at=(), code=errno.EIO, sticky=False):
        self.at, self.code, self.sticky, self.n, self.hits, self.where = set(at), code, sticky, 0, 0, None

    def __call__(self, kind, path):
        n = self.n
        self.n += 1
        if n in self.at or (self.sticky and self.at and n > min(self.at)):
            self.hits += 1
            self.where = self.where or "%s %s" % (kind, path)
            raise OSError(self.code, os.strerror(self.code), path)


def attempt(f, fault):
    """(True, result) or (False, exception) of f under fault."""
    mcfs.STORE.hook = fault
    try:
        return True, f()
    except Exception as e:
        if not fault.hits or isinstance(e, (AssertionError, NameError, KeyError, IndexError, AttributeError, RecursionError, UnboundLocalError)):
            raise
        return False, e
    finally:
        mcfs.STORE.hook = None


def run_write(case, world, out):
    init, op = case[1]
    if init is None:
        be = Memory()
        life.put_sources(be)
        for n, j in enumerate(op[1] if op[0] == "build" else [], 1):
            be.put("bsrc/v%d" % n, STATES[j])
        model = life.Model()
    else:
        be, model = c01.setup(init)
    base = be.everything()
    before = under(base, "obj")

    def do():
        # Sources of a build are in place already
        if op[0] == "build":
            opts = dict(op[-1])
            return make_object(opts).build(srcdir=be.url("bsrc"), objdir=be.url("obj"), versions_metadata={
                n: life.vmeta(life.METAS[m]) for n, m in enumerate(op[2], 1)})
        return life.do_real(be, op, model)
    count = Fault()
    attempt(do, count)
    final = be.get("obj")
    if case[0] == "chunk":
        mcfs.STORE.reset(base)
        mcfs.STORE.chunk = case[2]
        attempt(do, Fault())
        mcfs.STORE.chunk = None
        out.step(count.n)
        out.done("chunk")
        out.state((sorted(be.get("obj").items(), key=str)))
        out.check(be.get("obj") == final, "%s" % case, lambda: "result with reads of %d bytes differs: %s" % (case[2], diff(final, be.get("obj"))))
        return
    inv1 = oracle.load(before["inventory.json"]) if before else None
    olds = oracle.version_sequence(list(inv1["versions"])) if before else []
    new = oracle.load(final["inventory.json"])["head"]
    for k in range(count.n):
        mcfs.STORE.reset(base)
        fault = Fault([k], ERRORS[case[2]], bool(case[3]))
        ok, result = attempt(do, fault)
        whole = be.everything()
        tree = {p[4:]: d for p, d in whole.items() if p.startswith("obj/")}
        key = "%s:%d" % (case, k)
        out.step()
        out.state(sorted(tree.items(), key=str))
        at = "%s at %d (%s)" % (case[2], k, fault.where)
        if ok:
            out.done("done in spite of fault")
            out.check(tree == final, key, lambda: "operation succeeded but with the wrong result after %s: %s" % (at, diff(final, tree)))
        else:
            out.done("error")
        for p, d in base.items():
            if not p.startswith("obj/"):
                out.check(whole.get(p, 0) == d, key, lambda: "%s outside the object was changed after %s" % (p, at))
            elif not p.startswith("obj/inventory.json"):
                out.check(whole.get(p, 0) == d, key, lambda: "%s was changed or lost after %s" % (p, at))
        mcfs.STORE.reset(whole)
        passed, codes = validate(be, "obj")
        out.check(not passed or tree == final or (before and tree == before) or c01.same(tree, final), key,
                  lambda: "object partly written is reported valid after %s: %s" % (at, diff(final, tree)))
        root = tree.get("inventory.json")
        if before and root == before["inventory.json"]:
            rest = {p: d for p, d in tree.items() if p != new and not p.startswith(new + "/")}
            out.check(rest == before, key, lambda: "object can't be restored after %s: %s" % (at, diff(before, rest)))
            for v, want in zip(olds, model.versions):
                make_object({}, lax_digests=True).extract(objdir=be.url("obj"), version=v, dstdir=world.path("x"))
                out.check(files_only(read_tree(world.path("x"))) == want, key, lambda: "extract of %s after %s" % (v, at))
                world.fresh()
        elif root is not None:
            rest = {p: d for p, d in tree.items() if not p.startswith("inventory.json")}
            want = {p: d for p, d in final.items() if not p.startswith("inventory.json")}
            out.check(rest == want, key, lambda: "root inventory was written before what it refers to is complete, after %s: %s" % (at, diff(want, rest)))
    out.sample = {"operation": case[1], "points": count.n}


def reader(kind, be, world):
    """Function that does the reading operation and returns a value that can be compared."""
    import ocfl
    o = make_object({})

    def extract(version):
        world.fresh()
        m = o.extract(objdir=be.url("root/obj"), version=version, dstdir=world.path("x"))
        return sorted(files_only(read_tree(world.path("x"))).items()), str(m.as_dict())

    def extract_file():
        world.fresh()
        o.extract_file(objdir=be.url("root/obj"), version="v1", logical_path="d/d/c", dstdir=world.path("x"))
        return sorted(files_only(read_tree(world.path("x"))).items())

    def inventory():
        o.open_obj_fs(be.url("root/obj"))
        return repr(o.parse_inventory().data)

    def ident():
        o.open_obj_fs(be.url("root/obj"))
        return o.id_from_inventory()
    return {
        "validate": lambda: o.validate(objdir=be.url("root/obj"))[0],
        "validate-nodigests": lambda: o.validate(objdir=be.url("root/obj"), check_digests=False)[0],
        "extract": lambda: extract("head"), "extract-first": lambda: extract("v1"), "extract_file": extract_file,
        "inventory": inventory, "id": ident,
        "root-list": lambda: sorted(ocfl.StorageRoot(root=be.url("root")).list_objects()),
        "root-validate": lambda: ocfl.StorageRoot(root=be.url("root")).validate(),
        "validate_inventory": lambda: o.validate_inventory(be.url("root/obj") + "/inventory.json")[0],
    }[kind]


def run_read(case, world, out):
    kind, name = case[1], case[2]
    be = Memory()
    be.put("root/obj", objects()[name])
    be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n", "extensions/other": None, "sub/obj2": None})
    be.put("root/sub/obj2", writer.write_object([STATES[0]], identifier="info:obj/2"))
    base = be.everything()
    f = reader(kind, be, world)

    def normal(fault=None):
        mcfs.STORE.hook = fault
        try:
            return True, f()
        except Exception as e:
            return False, type(e).__name__
        finally:
            mcfs.STORE.hook = None
    count = Fault()
    want = normal(count)
    if case[0] == "rchunk":
        mcfs.STORE.chunk = case[3]
        got = normal()
        mcfs.STORE.chunk = None
        out.step(count.n)
        out.done("chunk")
        out.state((kind, name, got))
        out.check(got == want, "%s" % case, lambda: "%s of %s with reads of %d bytes gives %s and not %s" % (kind, name, case[3], got, want))
        return
    if case[0] == "pair":
        points = [[j, k] for j in range(count.n) for k in range(j + 1, count.n)]
        code, sticky = errno.EIO, False
    else:
        points = [[k] for k in range(count.n)]
        code, sticky = ERRORS[case[3]], bool(case[4])
    for at in points:
        fault = Fault(at, code, sticky)
        ok, result = attempt(f, fault)
        key = "%s:%s" % (case, at)
        out.step()
        where = "fault at %s (%s)" % (at, fault.where)
        out.done("%s %s" % (kind, "same" if ok and (True, result) == want else result if result in (False, "UNKNOWN-ID") else "error"))
        out.state((kind, name, at, ok, str(result)[:50]))
        if ok:
            # Success has to be that without the fault, though a verdict of invalid, or not knowing the identifier, may be due to the fault
            fine = (True, result) == want or result is False or result == "UNKNOWN-ID"
            if kind == "root-list":
                # An identifier that can't be read is given as unknown, but no object is left out
                fine = fine or (want[0] and [p for p, _ in result] == [p for p, _ in want[1]] and
                                all(i in (j, "UNKNOWN-ID") for (_, i), (_, j) in zip(result, want[1])))
            out.check(fine, key, lambda: "%s of %s gives %s and not %s with %s" % (kind, name, str(result)[:300], str(want)[:300], where))
    out.check(be.everything() == base, "%s:changed" % case, "reading changed something")
    out.sample = {"operation": kind, "object": name, "points": count.n}


def run(case, world, out):
    if case[0] in ("write", "chunk"):
        run_write(case, world, out)
    else:
        run_read(case, world, out)
