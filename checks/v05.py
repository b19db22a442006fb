"""V05: inventories of earlier versions have to follow the rules, and to agree with the later ones."""
import itertools
import json

from mc import oracle, writer
from mc.lib import STATES, Memory, jdump, validate

from . import v02

PROPERTY = "V05"
LEVEL = "model_checking"
RULE = ("An execution is the validation of an object in which the inventory of an earlier version (with a right sidecar) has one change at the level of JSON "
        "values, or was replaced with the inventory of the same version of another object; a state is a distinct pair of earlier and root inventory")
ASSUMPTIONS = v02.ASSUMPTIONS
SPECS = {
    "two": dict(states=[2, 1], fixity=["md5"]),
    "three": dict(states=[0, 2, 1]),
    "alg": dict(states=[1, 2, 4], alg=["sha256", "sha256", "sha512"], cd="data", pad=2, store="dup"),
    "old": dict(states=[0, 1, 2], spec=["1.0", "1.0", "1.1"], omit=[2], case=["upper", "lower", "mixed"]),
    "nohead": dict(states=[0, 2, 1], omit=[3], spec=["1.0", "1.1", "1.1"]),
    "empty": dict(states=[5, 0], meta="none", alg=["sha256", "sha512"]),
}
VARIANTS = [dict(), dict(alg="sha256"), dict(spec="1.0"), dict(cd="data"), dict(cd="content"), dict(identifier="info:other"), dict(meta="none"), dict(meta="name"),
            dict(case="upper"), dict(case="mixed"), dict(store="dup"), dict(store="all"), dict(fixity=["md5"]), dict(fixity=["sha256"]), dict(pad=2), dict(indent=1)]
# Algorithms of each version (and of fixity) of objects in which digests are wrong
WRONG = [["sha256", "sha256", "sha512"], ["sha512", "sha512", "sha512"], ["sha256", "sha512", "sha512"], ["sha512", "sha256", "sha512"], ["sha256", "sha256", "sha256", "sha512"]]
BOUNDS = {
    "quick": "%d objects x every change of the inventory of the first version from the alphabet of V02; all pairs of %d kinds of object x 4 histories, with and without a copy of the root inventory in the last version; %d objects x every content file "
             "x every set of versions whose manifest or fixity block gives it a wrong digest (the same or not; also beside the right one), with unknown fixity algorithms and lax digests too; all 16 sequences of specification "
             "versions of 4 versions x every set of absent inventories" % (len(SPECS), len(VARIANTS), len(WRONG)),
    "thorough": "every change of the inventory of every earlier version; all pairs of kinds of object x 27 histories",
}


def cases(tier):
    out = []
    for n in SPECS:
        for v in range(1, len(SPECS[n]["states"])) if tier == "thorough" else [1]:
            if v not in SPECS[n].get("omit", []):
                out += [["change", n, v, p, 16] for p in range(16)]
    hist = [[0, 1, 2], [2, 1, 0], [2, 2, 5], [5, 4, 4]] if tier == "quick" else [[a, b, c] for a in (0, 2, 5) for b in (1, 2, 5) for c in (0, 3, 5)]
    out += [["replace", h, i] for h in hist for i in range(len(VARIANTS))]
    out += [["wrong", w, kind] for w in range(len(WRONG)) for kind in ("manifest", "fixity", "lax", "before", "after")]
    out += [["specs", list(s)] for s in itertools.product(["1.0", "1.1"], repeat=4)]
    return out


def flip(d, k):
    return d[:k] + ("1" if d[k] == "0" else "0") + d[k + 1:]


def replaced(inv, kind, path, k):
    """Change the digest given for one file, everywhere where the inventory has it."""
    if kind in ("before", "after"):  # another digest in the fixity block, beside the right one
        for alg, block in inv["fixity"].items():
            new = {flip(d, k): [path] for d in block if path in block[d]}
            inv["fixity"][alg] = dict(new, **block) if kind == "before" else dict(block, **new)
        return any(path in ps for block in inv["fixity"].values() for ps in block.values())
    if kind == "fixity":
        done = False
        for block in inv["fixity"].values():
            for d in list(block):
                if path in block[d]:
                    block.setdefault(flip(d, k), []).append(path)
                    block[d].remove(path)
                    done = True
                    if not block[d]:
                        del block[d]
        return done
    for d in list(inv["manifest"]):
        if inv["manifest"][d] == [path]:
            for block in [inv["manifest"]] + [v["state"] for v in inv["versions"].values()]:
                if d in block:
                    block[flip(d, k)] = block.pop(d)
            return True
    return False


def with_unknown(tree, algs):
    """Tree with fixity data by unknown algorithms before, between and after that by known ones, in every inventory."""
    t = dict(tree)
    for v, alg in [("", algs[-1])] + [("v%d/" % n, a) for n, a in enumerate(algs, 1)]:
        inv = json.loads(t[v + "inventory.json"])
        fixity = {}
        for n, (a, block) in enumerate(inv["fixity"].items()):
            fixity["a-unknown%d" % n] = {"x": [p for ps in block.values() for p in ps]}
            fixity[a] = block
        inv["fixity"] = dict(fixity, unknown={})
        t[v + "inventory.json"] = jdump(inv)
        t[v + "inventory.json." + alg] = writer.sidecar_line(t[v + "inventory.json"], alg, "two")
    return t


def wrongs(w, kind, **kwargs):
    """(key, tree, version directories at fault) for every file and every set of versions that have a wrong digest for it."""
    algs = WRONG[w]
    states = [{"a": b"one", "b": b"two"}, {"a": b"one", "c": b"three"}, {"a": b"one", "b": b"two"}, {"d": b"four"}][:len(algs)]
    good = writer.write_object(states, alg=algs, fixity=["md5", "sha1"] if kind != "manifest" else (), **kwargs)
    paths = sorted(p for p, d in good.items() if "/content/" in p)
    for path in paths:
        for n in range(1, len(algs) + 1):
            for which in itertools.combinations(range(1, len(algs) + 1), n):
                for same in (True, False) if n > 1 else (True,):
                    t = dict(good)
                    ok = True
                    for i, v in enumerate(which):
                        for d in ["v%d/" % v] + ([""] if v == len(algs) else []):
                            inv = json.loads(t[d + "inventory.json"])
                            ok = ok and replaced(inv, kind, path, 0 if same else i)
                            t[d + "inventory.json"] = jdump(inv)
                            t[d + "inventory.json." + algs[v - 1]] = writer.sidecar_line(t[d + "inventory.json"], algs[v - 1], "two")
                    if ok:
                        yield "wrong:%s:%s:%s:%s:%s" % (w, kind, path, list(which), same), t, ["root" if v == len(algs) else "v%d" % v for v in which]


def judge(be_tree, key, out, problems=None, **kwargs):
    be = Memory()
    be.put("obj", be_tree)
    passed, codes = validate(be, "obj", **kwargs)
    problems = oracle.object_problems(be_tree) if problems is None else problems
    out.step()
    out.done("%s" % ("valid" if passed else "invalid"))
    out.check(passed == (not problems), key, lambda: "%s: object is reported %s %s, independent validator finds %s" % (
        key, "valid" if passed else "invalid", codes, problems[:3]))


def run(case, world, out):
    if case[0] == "wrong":
        lax = case[2] == "lax"
        for key, t, _ in wrongs(case[1], "fixity" if lax else case[2]):
            out.state(sorted(t.items(), key=str))
            if lax:
                # Unknown algorithms are accepted with lax digests only, and can't be checked, others are
                u = with_unknown(t, WRONG[case[1]])
                judge(u, key + ":unknown", out, problems=["unknown algorithm"])
                judge(u, key + ":lax", out, problems=oracle.object_problems(t), lax_digests=True)
            else:
                judge(t, key, out)
        return
    if case[0] == "specs":
        for k in range(5):
            for omit in itertools.combinations([1, 2, 3, 4], k):
                t = writer.write_object([STATES[j] for j in (0, 1, 5, 2)], spec=case[1], omit=omit)
                out.state(sorted(t.items(), key=str))
                judge(t, "specs:%s:%s" % (case[1], list(omit)), out)
        return
    if case[0] == "change":
        _, name, v, part, parts = case
        spec = dict(SPECS[name])
        tree = writer.write_object([STATES[j] for j in spec.pop("states")], **spec)
        vdir = "v%0*d" % (spec.get("pad", 0), v) if spec.get("pad") else "v%d" % v
        inv = json.loads(tree[vdir + "/inventory.json"])
        alg0 = inv["digestAlgorithm"]
        for ch in v02.changes(inv)[part::parts]:
            changed = v02.apply(inv, ch)
            if changed is None:
                continue
            data = jdump(changed)
            alg = changed.get("digestAlgorithm") if isinstance(changed, dict) else None
            alg = alg if alg in ("sha512", "sha256", "md5", "sha1", "blake2b-512") else "sha512"
            t = dict(tree)
            del t["%s/inventory.json.%s" % (vdir, alg0)]
            t[vdir + "/inventory.json"] = data
            t["%s/inventory.json.%s" % (vdir, alg)] = writer.sidecar_line(data, alg, "two")
            out.state(data)
            judge(t, "%s:v%d:%s" % (name, v, ch), out)
        return
    _, hist, i = case
    a = writer.write_object([STATES[j] for j in hist], **VARIANTS[i])
    for k in range(len(VARIANTS)):
        for other in ([STATES[j] for j in hist], [STATES[j] for j in [1] + hist[1:]], [STATES[j] for j in hist[:2]], [dict(STATES[j], zz=b"zz") for j in hist]):
            b = writer.write_object(other, **VARIANTS[k])
            for dirs in (["1"], ["2"], ["1", "2"], ["1", "-"], ["2", "-"], ["1", "2", "-"]):
                t = dict(a)
                for n in dirs:
                    if n == "-":  # no copy of the root inventory in the directory of the last version
                        head = json.loads(a["inventory.json"])["head"]
                        t = {p: d for p, d in t.items() if not p.startswith(head + "/inventory.json")}
                        continue
                    va = next((p.split("/")[0] for p in a if p.split("/")[0].lstrip("v0") == n and p.startswith("v")), None)
                    vb = next((p.split("/")[0] for p in b if p.split("/")[0].lstrip("v0") == n and p.startswith("v")), None)
                    for p in [p for p in t if p.startswith(va + "/inventory.json")]:
                        del t[p]
                    for p in b:
                        if p.startswith(vb + "/inventory.json"):
                            t[va + p[len(vb):]] = b[p]
                out.state(sorted(t.items(), key=str))
                judge(t, "%s:%s:%s:%s" % (hist, VARIANTS[i], VARIANTS[k], dirs), out)
