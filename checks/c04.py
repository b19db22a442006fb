"""C04: two writers cannot both write the same version, nor damage what the other wrote."""
from mc import mcfs, oracle, sched, writer
from mc.lib import A, B, STATES, Memory, make_object, meta, under

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = ("An execution is one complete interleaving of two writers on one object, at most the bounded number of preemptions, with scheduling "
        "points at every filesystem operation on anything but the existing version directories; a state is a distinct final object")
ASSUMPTIONS = ["Creation of a directory fails if it exists, and is atomic, as on a POSIX filesystem",
               "Writers interleave at filesystem operations (single operations are atomic)"]
KINDS = [["update", {}], ["edit", {}], ["meta", {}], ["update", {"digest": "sha256"}], ["update", {"fd": 0, "dd": 0}]]
SRCS = [{"one": b"writer 1\n", "a": A, "d/x": b"1"}, {"two": b"writer 2\n", "a": b"other", "d/x": b"2"}]
BOUNDS = {
    "quick": "two writers of the kinds %s, all pairs, started from the same version: all interleavings with up to 2 preemptions of writing; "
             "whole updates: all interleavings with 1 preemption" % [k[0] for k in KINDS],
    "thorough": "the same with up to 3 preemptions of writing, and 2 preemptions of whole updates",
}


def cases(tier):
    out = []
    for i in range(len(KINDS)):
        for j in range(i, len(KINDS)):
            for part in range(4):
                out.append(["write", i, j, 2 if tier == "quick" else 3, part, 4])
    for i in range(len(KINDS)):
        for j in range(i, len(KINDS)):
            for part in range(2 if tier == "quick" else 16):
                out.append(["whole", i, j, 1 if tier == "quick" else 2, part, 2 if tier == "quick" else 16])
    return out


def actor(be, n, kind, opts):
    """(prepare, write) of writer n."""
    obj = make_object(opts)
    m = meta(n + 5)

    def prepare():
        if kind == "meta":
            nv = obj.start_new_version(objdir=be.url("obj"), metadata=m)
        else:
            nv = obj.start_new_version(objdir=be.url("obj"), srcdir=be.url("src%d" % n), digest_algorithm=opts.get("digest"),
                                       metadata=m, carry_content_forward=(kind == "edit"))
            if kind == "edit":
                nv.delete("a")
                nv.add("one" if n == 0 else "two", "edited/%d" % n)
            else:
                nv.add_from_srcdir()
        return nv

    def whole():
        return obj.write_new_version(prepare())
    return obj, prepare, whole


def wanted(base, n, kind):
    if kind == "meta":
        return base
    if kind == "edit":
        out = {p: d for p, d in base.items() if p != "a"}
        out["edited/%d" % n] = SRCS[n]["one" if n == 0 else "two"]
        return out
    return SRCS[n]


TREE = writer.write_object([STATES[2], {"a": B, "keep": b"k"}])


def run(case, world, out):
    mode, i, j, bound, part, parts = case
    kinds = [KINDS[i], KINDS[j]]
    be = Memory()

    def make():
        mcfs.STORE.reset()
        be.put("obj", TREE)
        for n in (0, 1):
            be.put("src%d" % n, SRCS[n])
        acts = [actor(be, n, *kinds[n]) for n in (0, 1)]
        if mode == "whole":
            return [a[2] for a in acts]
        nvs = [a[1]() for a in acts]
        return [lambda n=n: acts[n][0].write_new_version(nvs[n]) for n in (0, 1)]

    def relevant(kind, path):
        return path.startswith("obj") and not path.startswith(("obj/v1/", "obj/v2/"))
    old = [STATES[2], {"a": B, "keep": b"k"}]

    def on_execution(x, schedule):
        key = "%s:%s" % (case[:3], schedule)
        out.step(x.steps)
        tree = be.get("obj")
        out.state((mode, sorted(tree.items(), key=str)))
        status = [r[0] for r in x.results]
        out.done("%s %s" % (mode, "+".join(status)))
        out.check(not x.failure, key, lambda: "execution failed: %s" % x.failure)
        for n, (s, e) in enumerate(x.results):
            if s == "error":
                out.check(isinstance(e, (OSError, ValueError)) or type(e).__module__.startswith("ocfl"), key,
                          lambda: "writer %d ended with %s: %s" % (n, type(e).__name__, e))
        # Earlier versions are as they were
        for p, d in TREE.items():
            if not p.startswith("inventory.json"):
                out.check(tree.get(p) == d, key, lambda: "%s of the object was changed by schedule %s" % (p, schedule))
        ok = [n for n in (0, 1) if status[n] == "ok"]
        heads = [x.results[n][1].head for n in ok]
        out.check(len(set(heads)) == len(heads), key, lambda: "both writers report that they wrote %s with schedule %s" % (heads, schedule))
        if mode == "write":
            out.check(len(ok) == 1, key, lambda: "writers ended with %s" % status)
        # A writer that succeeded has its version, complete
        for n in ok:
            v = x.results[n][1].head
            inv = oracle.load(tree.get(v + "/inventory.json", b"{}"))
            state = None
            if inv and v in inv.get("versions", {}):
                state = {}
                for d, ps in inv["versions"][v]["state"].items():
                    for p in ps:
                        state[p] = tree.get(inv["manifest"].get(d, ["?"])[0])
            base = old[1] if v == "v3" or not ok else wanted(old[1], 1 - n, kinds[1 - n][0])
            want = wanted(base, n, kinds[n][0])
            out.check(state == want, key, lambda: "version %s of the writer that succeeded is %s with schedule %s" % (v, state, schedule))
        if mode == "write" and len(ok) == 1:
            problems = oracle.object_problems(tree)
            out.check(not problems, key, lambda: "object is not valid after schedule %s: %s" % (schedule, problems[:3]))
            out.check(sorted(p for p in tree if p.startswith("v3/")) == sorted(p for p in make_alone(make, ok[0]) if p.startswith("v3/")), key,
                      lambda: "the writer that failed left files in v3 with schedule %s" % (schedule,))
            out.check(tree == make_alone(make, ok[0]), key, lambda: "object is not what the successful writer alone writes, schedule %s" % (schedule,))

    alone = {}

    def make_alone(make, n):
        if n not in alone:
            saved = be.everything()
            make()[n]()
            alone[n] = be.get("obj")
            mcfs.STORE.reset(saved)
        return alone[n]
    count = sched.explore(make, relevant, bound, on_execution, part=part, parts=parts)
    out.sample = {"writers": kinds, "mode": mode, "schedules": count}
