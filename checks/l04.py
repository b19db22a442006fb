"""L04: editing a new version acts like editing a map from logical path to content."""
import copy

from mc import life, mcfs, oracle
from mc.lib import A, B, C, Memory, make_object, validate

PROPERTY = "L04"
LEVEL = "model_checking"
RULE = ("Breadth first search over sequences of add/delete/rename on a real NewVersion, deduplicated on its whole content; every "
        "operation is compared with a dict model (result or refusal), and every distinct state is written out and read back")
ASSUMPTIONS = ["Edits outside the alphabet of paths and sources are not covered"]
SRC = {"x": A, "y": C, "sub/z": b"new", "a b%": B}
START = [{"a": A, "d/b": B, "d/a": A}, {}]
PATHS = ["a", "n", "d/b", "d", "a/n"]
BAD = ["", "/n", "n/", "../n", "d/./q", "d//q", ".."]


def ops(tier):
    out = []
    for s in ("x", "y", "sub/z"):
        for p in PATHS:
            out.append(["add", s, p])
    out.append(["add", "a b%", "q/r"])
    out += [["add", "x", p] for p in BAD]
    # Content path given: good, occupied, nested in a file, outside of version or content directory
    out += [["add", "y", "n", c] for c in ("HEAD/content/given", "HEAD/content/x", "HEAD/content/given/below", "HEAD/other/y", "v1/content/y",
                                            "HEAD/content/../y", "HEAD/content/", "HEADx/content/y", "content/y", "HEAD/contentx", "HEAD/contentx/y", "HEAD/content")]
    out += [["add", "sub/z", "m", "HEAD/content/given"]]
    out += [["del", p] for p in PATHS + ["d/a", "", "nothing"]]
    for p in ("a", "d/b", "n", "d/a"):
        for q in ("a", "n", "d/b", "d", "a/n", "../n", ""):
            out.append(["ren", p, q])
    return out


BOUNDS = {
    "quick": "all sequences of up to 2 of %d edits from {first version, carried forward, empty} with forward delta and dedupe both on or both "
             "off; up to 3 of a reduced alphabet from 2 states with all settings of forward delta and dedupe" % len(ops("quick")),
    "thorough": "all sequences of up to 3 of %d edits from the same starts (4 for a reduced alphabet)" % len(ops("thorough")),
}
SMALL = [["add", "x", "n"], ["add", "x", "a"], ["add", "y", "n"], ["add", "y", "d/b"], ["del", "a"], ["del", "n"], ["del", "d/b"],
         ["del", "d/a"], ["ren", "a", "n"], ["ren", "n", "a"], ["ren", "d/b", "a"], ["ren", "d/a", "d"], ["add", "sub/z", "m"], ["del", "m"]]


def cases(tier):
    out = []
    for kind in ("first", "carry", "empty"):
        for start in ((0,) if kind != "carry" else (0, 1)):
            for fd in (1, 0):
                for dd in (1, 0):
                    opts = {"fd": fd, "dd": dd, "fixity": ["md5", "sha1"] if dd or not fd else None, "norm": "uri" if fd else None}
                    alphabet = ops(tier)
                    for n in range(len(alphabet)):
                        if tier == "thorough" or (fd == dd and start == 0):
                            out.append([kind, start, opts, "full", n, 2 if tier == "quick" else 3])
                    for n in range(len(SMALL)):
                        out.append([kind, start, opts, "small", n, 3 if tier == "quick" else 5])
    return out


def start(be, kind, st, opts):
    """A new NewVersion and the model of its state."""
    import ocfl
    mcfs.STORE.reset()
    be.put("src", SRC)
    if kind == "first":
        nv = ocfl.NewVersion.first_version(srcdir=be.url("src"), identifier="info:obj/1", dedupe=bool(opts["dd"]),
                                           fixity=opts["fixity"], content_path_normalization=opts["norm"], metadata=life.vmeta(life.METAS[0]))
        return None, nv, {}
    be.put("s1", START[st])
    obj = make_object(opts)
    obj.create(srcdir=be.url("s1"), metadata=life.vmeta(life.METAS[0]), objdir=be.url("obj"))
    nv = obj.start_new_version(objdir=be.url("obj"), srcdir=be.url("src"), carry_content_forward=(kind == "carry"),
                               metadata=life.vmeta(life.METAS[1]))
    return obj, nv, (dict(START[st]) if kind == "carry" else {})


def model_apply(state, op, nv):
    """New model state; raises Refused."""
    if op[0] == "add":
        if life.bad_path(op[2], sorted(state)):
            raise life.Refused()
        if len(op) == 4:
            c = op[3].replace("HEAD", nv.inventory.head)
            pre = nv.inventory.head + "/content/"
            if not c.startswith(pre) or life.bad_path(c, nv.inventory.content_paths):
                raise life.Refused()
        out = dict(state)
        out[op[2]] = SRC[op[1]]
        return out
    if op[0] == "del":
        if op[1] not in state:
            raise life.Refused()
        return {p: d for p, d in state.items() if p != op[1]}
    if op[1] not in state or op[2] in state or life.bad_path(op[2], [p for p in state if p != op[1]]):
        raise life.Refused()
    out = {p: d for p, d in state.items() if p != op[1]}
    out[op[2]] = state[op[1]]
    return out


def real_apply(nv, op):
    if op[0] == "add":
        if len(op) == 4:
            nv.add(op[1], op[2], content_path=op[3].replace("HEAD", nv.inventory.head))
        else:
            nv.add(op[1], op[2])
    elif op[0] == "del":
        nv.delete(op[1])
    else:
        nv.rename(op[1], op[2])


def snapshot(nv):
    return copy.deepcopy(nv.inventory.data), sorted(nv.files_to_copy.items())


def run(case, world, out):
    import ocfl
    kind, st, opts, alphabet, first, depth = case
    alphabet = ops("") if alphabet == "full" else SMALL
    be = Memory()
    seen = set()
    frontier = [[]]
    while frontier:
        history = frontier.pop(0)
        for op in (alphabet if history else [alphabet[first]]):
            obj, nv, state = start(be, kind, st, opts)
            before = be.everything()
            base = dict(START[st]) if kind != "first" else None
            for h in history:
                state = model_apply(state, h, nv)
                real_apply(nv, h)
            key = "%s:%s:%s" % (kind, sorted(opts.items(), key=str), history + [op])
            snap = snapshot(nv)
            try:
                want = model_apply(state, op, nv)
            except life.Refused:
                want = None
            out.step()
            try:
                real_apply(nv, op)
                if want is None:
                    out.violation(key, "%s was not refused after %s" % (op, history))
                    continue
            except ocfl.NewVersionException if hasattr(ocfl, "NewVersionException") else Exception as e:
                if type(e).__name__ != "NewVersionException":
                    raise
                if want is not None:
                    out.violation(key, "%s was refused after %s (%s)" % (op, history, e))
                    continue
            if want is None:
                out.done("refused")
                out.check(snapshot(nv) == snap, key, lambda: "refused %s changed the new version after %s" % (op, history))
                continue
            out.done(op[0])
            ver = nv.inventory.current_version
            got = {p: d for d, ps in ver.state.items() for p in ps}
            alg = nv.inventory.digest_algorithm
            digests = {p: oracle.digest(alg, d) for p, d in want.items()}
            out.check(got == digests and sum(len(ps) for ps in ver.state.values()) == len(want), key,
                      lambda: "state is %s, should be %s, after %s" % (sorted(got), sorted(want), history + [op]))
            # Difference with the previous version, which must be exact and without repeats
            prev = {p: oracle.digest(alg, d) for p, d in (base or {}).items()}
            diff = sorted(nv.diff_with_previous())
            expect = sorted([("A", d, p) for p, d in digests.items() if prev.get(p) != d]
                            + [("D", d, p) for p, d in prev.items() if digests.get(p) != d])
            out.check(diff == expect, key, lambda: "diff_with_previous is %s, should be %s" % (diff, expect))
            out.check(be.everything() == before, key, "editing wrote something")
            # Every content path, and no other, has fixity data of each type in use
            paths = sorted(p for ps in nv.inventory.data["manifest"].values() for p in ps)
            for falg, block in nv.inventory.data.get("fixity", {}).items():
                out.check(sorted(p for ps in block.values() for p in ps) == paths, key, lambda: "%s fixity is for %s, should be for %s, after %s" % (falg, block, paths, history + [op]))
            out.check(set(nv.inventory.data.get("fixity", {})) == set(opts["fixity"] or []), key, lambda: "fixity types are wrong after %s" % (history + [op]))
            canon = repr(snapshot(nv))
            out.state((kind, st, sorted(opts.items(), key=str), canon))
            if canon in seen:
                continue
            seen.add(canon)
            if len(history) + 1 < depth:
                frontier.append(history + [op])
            # Write it, and read back
            if obj is not None:
                obj.write_new_version(nv)
                out.step()
                tree = be.get("obj")
                read = oracle.read_version(tree, "v2")
                out.check(read == want, key, lambda: "written version has %s, should be %s" % (sorted(read.items()), sorted(want.items())))
                old = oracle.read_version(tree, "v1")
                out.check(old == base, key, lambda: "v1 now has %s" % sorted(old.items()))
                problems = oracle.object_problems(tree)
                passed, codes = validate(be, "obj")
                out.check(not problems and passed, key, lambda: "object written is not valid: %s %s" % (problems, codes))
    out.sample = {"distinct_states": len(seen)}
