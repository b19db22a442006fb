"""V06: a valid object is reported valid, whatever optional features it has."""
import itertools

from mc import oracle, writer
from mc.lib import STATES, Memory, validate

PROPERTY = "V06"
LEVEL = "model_checking"
RULE = "An execution is the validation and the reading of one valid object written independently with one combination of features; a state is a distinct object"
ASSUMPTIONS = ["Features outside those listed are not covered", "Objects with version numbers of more than 5 digits are validated but not read (a documented limit of the library)"]
DIMENSIONS = {
    "pad": [0, 2, 4, 5, 6, 10],
    "alg": ["sha512", "sha256", ["sha256", "sha512", "sha512"]],
    "cd": [None, "data", "content", ".hidden dir"],
    "spec": ["1.1", "1.0", ["1.0", "1.1", "1.1"]],
    "case": ["lower", "upper", ["upper", "mixed", "lower"]],
    "omit": [[], [1], [1, 2], [2], [3]],
    "extras": [[], ["logs", "extensions"], ["unregistered", "emptylogs"], ["vdir"]],
    "sidecar": ["two", "one", "tab", "nonewline", "upper"],
    "fixity": [[], ["md5"], ["sha1", "blake2b-160", "sha256"], ["sha512", "blake2b-512", "blake2b-256", "blake2b-384"]],
    "meta": ["full", "none", "name"],
    "store": ["delta", "all", "dup"],
    "identifier": ["info:obj/1", "\u00e9 /\\.."],
    "indent": [None, 1],
    "nest": [False, True],
}
STATE_LISTS = [[0], [2, 1, 4], [5, 3, 5], [4, 4, 2]]
KEYS = list(DIMENSIONS)


def combos(k):
    """All assignments that differ from the defaults in at most k dimensions."""
    for n in range(k + 1):
        for dims in itertools.combinations(KEYS, n):
            for values in itertools.product(*(range(1, len(DIMENSIONS[d])) for d in dims)):
                yield {d: DIMENSIONS[d][v] for d, v in zip(dims, values)}


COUNTS = {k: sum(1 for _ in combos(k)) for k in (2, 3)}
BOUNDS = {
    "quick": "%d histories x all combinations that differ in up to 2 of %d features from the simplest object (%d)" % (len(STATE_LISTS), len(KEYS), COUNTS[2]),
    "thorough": "the same with up to 3 features (%d)" % COUNTS[3],
}


def possible(opts, n):
    if any(v > n for v in opts.get("omit", [])):
        return False
    return True


def some():
    """A few objects for other checks."""
    for i, opts in enumerate(combos(1)):
        states = STATE_LISTS[1]
        if possible(opts, len(states)):
            yield "%d" % i, writer.write_object([STATES[s] for s in states], **opts)


def cases(tier):
    k = 2 if tier == "quick" else 3
    return [[k, s, p, 24] for s in range(len(STATE_LISTS)) for p in range(24)]


def run(case, world, out):
    import ocfl
    k, s, part, parts = case
    states = [STATES[i] for i in STATE_LISTS[s]]
    be = Memory()
    for opts in itertools.islice(combos(k), part, None, parts):
        if not possible(opts, len(states)):
            continue
        tree = writer.write_object(states, **opts)
        key = "%s:%s" % (STATE_LISTS[s], opts)
        problems = oracle.object_problems(tree)
        if problems:
            # The independent writer and validator have to agree, or else the combination is not a valid object
            out.violation(key, "independent validator finds %s" % problems[:3])
            continue
        be = Memory()
        be.put("obj", tree)
        passed, codes = validate(be, "obj")
        out.step()
        out.state(key)
        out.done("valid" if passed else "invalid")
        out.check(passed, key, lambda: "valid object with %s is reported invalid %s" % (opts, codes))
        ok, v = ocfl.Object().validate_inventory(be.url("obj") + "/inventory.json")
        out.check(ok, key, lambda: "valid inventory of object with %s is reported invalid %s" % (opts, sorted(v.log.codes)))
        if opts.get("pad", 0) > 5:
            continue  # this library does not read version numbers of more than 5 digits
        obj = ocfl.Object()
        obj.open_obj_fs(be.url("obj"))
        inv = obj.parse_inventory()
        out.step(2)
        # Reading gives the logical state, and nothing else
        want_id = opts.get("identifier", "info:obj/1")
        out.check(inv.id == want_id and obj.id_from_inventory() == want_id, key, "identifier is %r" % inv.id)
        out.check(len(inv.version_directories) == len(states) and inv.head == sorted(inv.version_directories)[-1], key, "versions are %s" % inv.version_directories)
        for n, state in enumerate(states):
            ver = inv.version(inv.version_directories[n]) if hasattr(inv, "version") else None
            got = {}
            for p in ver.logical_paths:
                cpath = ver.content_path_for_logical_path(p)
                got[p] = tree[cpath]
            out.check(got == state, key, lambda: "version %d is %s" % (n + 1, sorted(got)))
    out.sample = {"states": STATE_LISTS[s], "features": len(KEYS)}
