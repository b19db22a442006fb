"""C05: reading an object while it is being updated gives what was written, or an error."""
from mc import life, mcfs, oracle
from mc.lib import Memory, files_only, make_object, read_tree

from . import c01

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = ("An execution is one reading operation during which another process does one update: the writer's primitive effects (each write in two "
        "parts) are applied at the reader's operations on files that the writer touches, at most the bounded number of times; a state is a "
        "distinct (reading operation, progress of the writer, outcome)")
ASSUMPTIONS = ["Reader and writer interleave at primitive filesystem operations and half writes",
               "Operations of the reader on files that the writer never touches commute with the writer"]
INITS = c01.INITS[1:]
OPS = [c01.OPS[i] for i in (0, 2, 3, 5, 6, 7, 8, 9)]
READS = ["extract-old", "extract-first", "extract-head", "extract_file", "extract_file-head", "inventory", "id", "list"]
QUICK = [OPS[i] for i in (0, 2, 5, 6)]
BOUNDS = {
    "quick": "%d objects x %d updates x %d reading operations: all interleavings where the writer advances before the start and at most once "
             "during the reading" % (len(INITS), len(QUICK), len(READS)),
    "thorough": "the same with " + str(len(OPS)) + " updates, where the writer advances at most twice during the reading",
}


def cases(tier):
    return [[i, o, r, 1 if tier == "quick" else 2] for i in INITS for o in (QUICK if tier == "quick" else OPS) for r in READS]


def apply(entries):
    for e in entries:
        mcfs.apply(mcfs.STORE.nodes, e)


def run(case, world, out):
    init, op, read, bound = case
    import ocfl
    be, model = c01.setup(init)
    base = {("root/" + p if p.startswith("obj") else p): d for p, d in be.everything().items()}
    before = be.get("obj")
    model2 = life.do_model(op, model)
    mcfs.STORE.log, mcfs.STORE.logging = [], True
    life.do_real(be, op, model)
    mcfs.STORE.logging = False
    log = []
    for e in mcfs.STORE.log:
        e = (e[0], "root/" + e[1]) + (("root/" + e[2],) if e[0] == "rename" else tuple(e[2:]))
        if e[0] == "write":
            h = len(e[4]) // 2
            log += [("write", e[1], None, e[3], e[4][:h])] if h else []
            log += [("write", e[1], None, e[3] + h, e[4][h:])]
        else:
            log.append(e)
    touched = {e[1] for e in log} | {e[2] for e in log if e[0] == "rename"}
    final = be.get("obj")
    inv1, inv2 = oracle.load(before["inventory.json"]), oracle.load(final["inventory.json"])
    names = oracle.version_sequence(list(inv2["versions"]))
    old, new = inv1["head"], inv2["head"]
    base["root/0=ocfl_1.1"] = b"ocfl_1.1\n"
    base = {p: d for p, d in base.items() if p == "root" or p.startswith("root/")}

    def do():
        """(result, possible results)"""
        o = make_object({}, lax_digests=True)
        url = be.url("root/obj")
        if read.startswith("extract-"):
            v = {"extract-old": old, "extract-first": names[0], "extract-head": "head"}[read]
            m = o.extract(objdir=url, version=v, dstdir=world.path("x"))
            got = (m.version, files_only(read_tree(world.path("x"))))
            vs = [old, new] if v == "head" else [v]
            return got, [(x, model2.versions[names.index(x)]) for x in vs]
        if read.startswith("extract_file"):
            v = "head" if read.endswith("head") else names[0]
            p = sorted(model2.versions[0 if v != "head" else len(names) - 2])[:1] or ["none"]
            m = o.extract_file(objdir=url, version=v, dstdir=world.path("x"), logical_path=p[0])
            got = (m.version, files_only(read_tree(world.path("x"))))
            vs = [old, new] if v == "head" else [v]
            want = [(x, model2.versions[names.index(x)].get(p[0])) for x in vs]
            return got, [(x, {p[0].split("/")[-1]: d}) for x, d in want if d is not None]
        if read == "inventory":
            o.open_obj_fs(url)
            inv = o.parse_inventory()
            return inv.head, [old, new]
        if read == "id":
            o.open_obj_fs(url)
            return o.id_from_inventory(), [inv1["id"], "UNKNOWN-ID"]
        got = list(ocfl.StorageRoot(root=be.url("root")).list_objects())
        return got, [[("obj", inv1["id"])], [("obj", "UNKNOWN-ID")]]

    def execute(j0, moves):
        """Run with the writer at j0 and the moves [(point, writer progress)], return number of points."""
        world.fresh()
        mcfs.STORE.reset(base)
        apply(log[:j0])
        state = {"n": 0, "j": j0}
        plan = dict(moves)

        def hook(kind, path):
            if path not in touched:
                return
            n = state["n"]
            state["n"] += 1
            if n in plan:
                apply(log[state["j"]:plan[n]])
                state["j"] = plan[n]
        mcfs.STORE.hook = hook
        try:
            got, allowed = do()
            label = "read"
        except (AssertionError, NameError, KeyError, IndexError, AttributeError, RecursionError):
            raise
        except Exception as e:
            got, allowed, label = type(e).__name__, None, "error"
        finally:
            mcfs.STORE.hook = None
        out.step(state["n"] + 1)
        out.done("%s %s" % (read, label))
        out.state((case[:3], j0, state["j"], repr(got)))
        if allowed is not None:
            out.check(got in allowed, "%s:%s:%s" % (case[:3], j0, moves),
                      lambda: "%s gives %s and not one of %s, with the writer at %d of %d and moves %s" % (read, got, allowed, j0, len(log), moves))
        elif j0 in (0, len(log)) and not moves:
            ok = read.startswith("extract_file")    # path may not be there
            out.check(ok, "%s:%s:alone" % (case[:3], j0), "%s fails without a concurrent writer: %s" % (read, got))
        if state["j"] != (moves[-1][1] if moves else j0):
            return None
        return state["n"]
    total = 0
    for j0 in range(len(log) + 1):
        stack = [[]]
        while stack:
            moves = stack.pop()
            points = execute(j0, moves)
            total += 1
            if points is None or len(moves) >= bound:
                continue
            k0 = moves[-1][0] + 1 if moves else 0
            j = moves[-1][1] if moves else j0
            for k in range(k0, points):
                for j2 in range(j + 1, len(log) + 1):
                    stack.append(moves + [(k, j2)])
    out.sample = {"init": init, "update": op, "read": read, "effects": len(log), "schedules": total}
