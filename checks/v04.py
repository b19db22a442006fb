"""V04: the verdict on an object does not depend on how it is reached, on options of reporting, or on what was validated before."""
import argparse
import contextlib
import importlib.machinery
import importlib.util
import io
import os
import zipfile

from mc import core, oracle, writer
from mc.lib import STATES, Local, Memory, make_object

from . import c03, l10, v06

PROPERTY = "V04"
LEVEL = "model_checking"
RULE = ("An execution is the validation of one object by one route (filesystem, form of path, options of reporting, validator used before for other objects, storage root, "
        "command line); verdict and error codes have to be those of the plain validation; a state is a distinct (object, route)")
ASSUMPTIONS = ["Directories are listed in zip files, as they are in filesystems"]
DIGEST_CODES = {"E060", "E061", "E092a", "E093a", "E026a"}


def objects():
    out = {k: t for k, t in c03.objects().items() if k != "empty"}
    for i, (k, t) in enumerate(v06.some()):
        out["good-" + k] = t
    # Files of a version that are right only next to an inventory that isn't there, or with what another object has
    three = writer.write_object([STATES[2], STATES[1], STATES[3]], alg=["sha256", "sha512", "sha512"])
    for v in ("v1", "v2", "v3"):
        out["sidecar-only-" + v] = {p: d for p, d in three.items() if p != v + "/inventory.json"}
    out["other-sidecar-v1"] = dict(three, **{"v1/inventory.json.sha512": three["v2/inventory.json.sha512"]})
    out["other-sidecar-v2"] = dict(three, **{"v2/inventory.json.sha256": three["v1/inventory.json.sha256"]})
    out["data-dir"] = dict(three, **{"v1/data/file": b"x"})
    out["v4"] = dict(three, **{"v4/content/file": b"x"})
    out["pad-v01"] = dict(three, **{"v01/content/file": b"x"})
    return out


NAMES = sorted(objects())
BOUNDS = {
    "quick": "%d objects, good and with defects, x 8 filesystems or forms of path x 4 options of reporting x all ordered pairs of objects validated in sequence by one "
             "validator; command line in the same process for all objects, and in its own process for every tenth" % len(NAMES),
    "thorough": "the same, with the command line in its own process for all objects, and all ordered triples with three objects in the middle",
}


def cases(tier):
    out = [["routes", n, tier] for n in NAMES] + [["sequence", n, tier] for n in NAMES]
    out += [["process", n] for i, n in enumerate(NAMES) if tier == "thorough" or i % 10 == 0]
    return out


def result(passed, log):
    return bool(passed), tuple(sorted(c for c in log.codes if c.startswith("E"))), tuple(sorted(c for c in log.codes if c.startswith("W")))


def zip_tree(path, tree):
    dirs = {"/".join(p.split("/")[:n]) for p in tree for n in range(1, len(p.split("/")))} | {p for p, d in tree.items() if d is None}
    with zipfile.ZipFile(path, "w") as z:
        for d in sorted(dirs):
            z.writestr(zipfile.ZipInfo(d + "/"), b"")
        for p in sorted(tree):
            if tree[p] is not None:
                z.writestr(zipfile.ZipInfo(p), tree[p])


def script(name):
    path = os.path.join(core.REPO, name)
    loader = importlib.machinery.SourceFileLoader(name.replace("-", "_").replace(".py", ""), path)
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader(loader.name, loader))
    loader.exec_module(mod)
    return mod


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()) as fh:
        r = f()
    return r, fh.getvalue()


def run(case, world, out):
    {"routes": run_routes, "sequence": run_sequence, "process": run_process}[case[0]](case, world, out)


def run_routes(case, world, out):
    import fsspec
    import ocfl
    from fsspec.implementations.dirfs import DirFileSystem
    from ocfl.fsw import fsw_openfs
    name = case[1]
    tree = objects()[name]
    mem, loc = Memory(), Local(world)
    for be in (mem, loc):
        be.put("obj", tree)
        be.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
        be.put("root/some/o", tree)
    zip_tree(world.path("o.zip"), tree)
    base = result(*(lambda r: (r[0], r[1].log))(make_object({}).validate(mem.url("obj"))))
    problems = oracle.object_problems(tree)
    out.check(base[0] == (not problems), name, lambda: "object %s is reported %s, independent validator finds %s" % (name, base, problems[:3]))
    cwd = os.getcwd()
    os.chdir(world.dir)
    fs = fsspec.filesystem("memory")
    if fs.exists("/verif"):
        fs.rm("/verif", recursive=True)
    fs.makedirs("/verif/obj")
    for p in sorted(tree):
        if tree[p] is None:
            fs.makedirs("/verif/obj/" + p, exist_ok=True)
        else:
            fs.makedirs("/verif/obj/" + p.rsplit("/", 1)[0] if "/" in p else "/verif/obj", exist_ok=True)
            fs.pipe_file("/verif/obj/" + p, tree[p])
    try:
        where = {"mcfs": mem.url("obj"), "local": loc.url("obj"), "local/": loc.url("obj") + "/", "relative": "obj", "zip": "zip://" + world.path("o.zip"),
                 "fs": fsw_openfs(mem.url("obj")), "dirfs": DirFileSystem("obj", fsw_openfs(mem.url(""))), "memory": "memory://verif/obj", "file": "file://" + loc.url("obj")}
        for route, objdir in where.items():
            for w in (True, False):
                for e in (True, False):
                    for lax in (False, True):
                        key = "%s:%s:%s%s%s" % (name, route, w, e, lax)
                        passed, v = make_object({}, lax_digests=lax).validate(objdir, log_warnings=w, log_errors=e)
                        got = result(passed, v.log)
                        out.step()
                        out.state((name, route, w, e, lax))
                        out.done("%s %s" % (route, "valid" if passed else "invalid"))
                        if not lax or not ({c[:4] for c in base[1]} & {"E025", "E036", "E094", "E096", "E029", "E060"} or name == "md5"):
                            out.check((got[:2] == base[:2]) if lax else (got == base), key, lambda: "object %s by route %s is reported %s, plain validation %s" % (name, key, got, base))
                        n = len(got[1] if e else ()) + len(got[2] if w else ())
                        out.check((len(v.log.messages) > 0) == (n > 0), key, lambda: "%d codes to report but messages %s" % (n, v.log.messages[:3]))
                        for c in (got[1] if e else ()) + (got[2] if w else ()):
                            out.check(any(("[%s]" % c) in m for m in v.log.messages), key, "no message for " + c)
                        out.check(v.log.num_errors >= len(got[1]) and (v.log.num_errors == 0) == passed, key, "number of errors does not agree with verdict")
            # Without digests everything else is found
            passed, v = make_object({}).validate(objdir, check_digests=False)
            got = result(passed, v.log)
            out.step()
            out.check(set(got[1]) == {c for c in base[1] if c not in DIGEST_CODES} or "E061" in base[1] and set(got[1]) == set(base[1]) - DIGEST_CODES, name + ":nodigests",
                      lambda: "object %s without checking digests is reported %s, with %s" % (name, got, base))
            if not isinstance(objdir, str):
                obj = make_object({}, obj_fs=objdir)
                passed, v = obj.validate()
                out.check(result(passed, v.log) == base, name + ":obj_fs", "object validated from its own filesystem differs")
        # In a storage root
        for be in (mem, loc):
            for kw in ({}, {"log_warnings": True}, {"log_errors": False}, {"max_errors": 0}, {"max_errors": 1}, {"lang": "xx"}):
                store = ocfl.StorageRoot(root=be.url("root"))
                passed = store.validate(**kw)
                out.step()
                out.check(passed == base[0], "%s:root:%s" % (name, kw), lambda: "storage root with just object %s is reported %s %s, object %s" % (name, passed, store.errors, base))
                found = not any(c.startswith(("E003", "E004")) for c in base[1])
                if found:
                    out.check((store.num_objects, store.good_objects) == (1, int(base[0])), "%s:root:%s" % (name, kw), "numbers of objects are wrong")
        # Command line programs
        prog = script("ocfl-validate.py")
        for opts in ({}, {"quiet": True}, {"very_quiet": True}, {"no_check_digests": True}):
            args = argparse.Namespace(**dict({"path": ["obj"], "quiet": False, "very_quiet": False, "lax_digests": False, "no_check_digests": False}, **opts))
            want = base[0] if "no_check_digests" not in opts else not [c for c in base[1] if c not in DIGEST_CODES]
            for paths in (["obj"], ["root"], ["obj", "obj"]):
                args.path = [loc.url(p) for p in paths]
                ok, text = quiet(lambda: prog.do_validation(args))
                out.step()
                out.check(ok == want, "%s:cli:%s:%s" % (name, opts, paths), lambda: "ocfl-validate %s %s of object %s is %s, validation %s" % (opts, paths, name, ok, base))
                if paths[0] == "obj" and not any(c.startswith("E003") for c in base[1]) and "0=ocfl_object_1.1" in tree:
                    out.check(text.count("is VALID") == (len(paths) if want else 0) and text.count("is INVALID") == (0 if want else len(paths)), "%s:cli:%s" % (name, opts),
                              lambda: "ocfl-validate %s of object %s says %r" % (opts, name, text[-200:]))
    finally:
        os.chdir(cwd)
    out.sample = {"object": name, "plain": base}


def run_sequence(case, world, out):
    from ocfl.validator import Validator
    all_objects = objects()
    be = Memory()
    plain = {}
    for n in NAMES:
        be.put(n, all_objects[n])
        passed, v = make_object({}).validate(be.url(n))
        plain[n] = (passed, v.id, v.spec_version, v.digest_algorithm, v.content_directory)
    first = case[1]
    middles = [None] if case[2] == "quick" else [None, "good", "not-json", "no-declaration"]
    for second in NAMES:
        for mid in middles:
            v = Validator()
            seq = [first] + ([mid] if mid else []) + [second]
            obj = make_object({})
            errors = 0
            for n in seq:
                passed = v.validate_object(be.url(n))
                new, errors = v.log.num_errors - errors, v.log.num_errors
                last = (v.id, v.spec_version, v.digest_algorithm, v.content_directory)
                p2, v2 = obj.validate(be.url(n))
                out.step(2)
                key = "%s:%s" % (seq, n)
                # Errors add up in the log of a validator that is used again
                out.check((new == 0) == plain[n][0], key, lambda: "object %s validated after %s has %d new errors, alone it is %s" % (n, seq, new, plain[n]))
                out.check(p2 == plain[n][0], key, "Object.validate depends on what was validated before")
                out.check(passed == (new == 0), key, lambda: "verdict on %s validated after %s is %s with %d errors" % (n, seq, passed, new))
                if plain[n][0]:
                    out.check(last == plain[n][1:], key, lambda: "properties of validator %s differ from %s" % (last, plain[n][1:]))
            out.done("sequence")
            out.state(tuple(seq))


def run_process(case, world, out):
    import subprocess
    import sys
    name = case[1]
    tree = objects()[name]
    loc = Local(world)
    loc.put("obj", tree)
    loc.put("root", {"0=ocfl_1.1": b"ocfl_1.1\n"})
    loc.put("root/some/o", tree)
    valid = make_object({}).validate(loc.url("obj"))[0]
    for prog, args in (("ocfl-validate.py", [loc.url("obj")]), ("ocfl-validate.py", ["-q", loc.url("root")]), ("ocfl-validate.py", ["-Q", loc.url("obj"), loc.url("root")]),
                       ("ocfl-object.py", ["validate", "--objdir", loc.url("obj")]),
                       ("ocfl-root.py", ["validate", "--root", loc.url("root"), "--validate-objects", "--check-digests"])):
        r = subprocess.run([sys.executable, os.path.join(core.REPO, prog)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=world.dir, timeout=120)
        out.step()
        out.done("%s %d" % (prog, r.returncode))
        out.check(r.returncode == (0 if valid else 1), "%s:%s:%s" % (name, prog, args[0]), lambda: "%s %s of object %s has exit status %d: %s" % (
            prog, args[0], name, r.returncode, r.stdout[-300:]))
    out.state(name)
