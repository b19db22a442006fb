"""L07: version numbers go up by one, keep the zero padding of the object, and never overflow it."""
import itertools

from mc import life, oracle, writer
from mc.lib import A, B, Memory, make_object, meta, read_tree

PROPERTY = "L07"
LEVEL = "model_checking"
RULE = ("Executions are (a) an object with the given number of versions and padding updated once or more, (b) a set of source directory "
        "names built, (c) a version directory name parsed or followed by the next, against independent definitions")
ASSUMPTIONS = ["More than 100 versions of a stored object behave as the function on names does, which is enumerated to 99999"]
NAMES = ["v1", "v2", "v3", "v01", "v02", "v003", "v4", "x", "v0", "1"]
FILES = ["v1", "v2", "v3", "0", "v1.txt", "w"]
ALPHABET = "v019a -\n\u0661."
BOUNDS = {
    "quick": "objects with padding 0..5 and 1..12 or 98..101 versions; build() from all %d subsets of %d directory names, with no file or any of %d beside them; next of every "
             "name up to v99999 unpadded, and v01..v9999 for each width up to 5; all strings up to length 4 over %d characters" %
             (2 ** len(NAMES), len(NAMES), len(FILES), len(ALPHABET)),
    "thorough": "the same with every number of versions from 1 to 101, two updates, all strings up to length 6, and widths up to 6",
}


def cases(tier):
    out = []
    counts = list(range(1, 13)) + [98, 99, 100, 101] if tier == "quick" else range(1, 102)
    for pad in (0, 2, 3, 4, 5):
        for n in counts:
            if pad and n >= 10 ** (pad - 1):
                continue
            out.append(["update", pad, n, 1 if tier == "quick" else 2])
    for mask in range(2 ** len(NAMES)):
        out.append(["build", mask])
    # The same with other files beside the directories, which are no versions
    out += [["build", mask, name] for mask in range(2 ** len(NAMES)) for name in FILES]
    for lo in range(0, 100000, 5000):
        out.append(["next", 0, lo, lo + 5000])
    for width in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for lo in range(0, 10 ** (width - 1), 5000):
            out.append(["next", width, lo, min(lo + 5000, 10 ** (width - 1))])
    for c in ALPHABET:
        out.append(["strings", c, 4 if tier == "quick" else 6])
    out.append(["padding"])
    return out


def valid_name(s):
    """Version number if s is a version directory name, else None."""
    if len(s) < 2 or s[0] != "v" or any(c not in "0123456789" for c in s[1:]) or int(s[1:]) == 0:
        return None
    return int(s[1:])


def next_name(s):
    n = valid_name(s)
    if n is None:
        return None
    if s[1] != "0":
        return "v%d" % (n + 1)
    new = "v0" + str(n + 1).rjust(len(s) - 2, "0")
    return new if len(new) == len(s) else None


def run(case, world, out):
    from ocfl import object_utils, Inventory
    from ocfl.object_utils import ObjectException
    key = "%s" % case
    if case[0] == "update":
        _, pad, n, more = case
        be = Memory()
        states = [{"a": A} if i % 2 else {"a": B, "b": A} for i in range(n)]
        be.put("obj", writer.write_object(states, pad=pad, omit=range(1, n - 1)))
        be.put("src", {"new": b"new"})
        last = "v%0*d" % (pad, n) if pad else "v%d" % n
        for i in range(more):
            before = be.get("obj")
            want = next_name(last)
            out.step()
            try:
                inv = make_object({}).add_version_with_content(objdir=be.url("obj"), srcdir=be.url("src"), metadata=meta(1))
            except Exception as e:
                if want is not None or not type(e).__module__.startswith("ocfl"):
                    raise
                out.done("overflow refused")
                out.check(be.get("obj") == before, key, "refused update changed the object")
                break
            tree = be.get("obj")
            new = {p.split("/")[0] for p in set(tree) - set(before)}
            out.check(want is not None and inv.head == want and new == {want}, key,
                      lambda: "version after %s is %s (new in object: %s), should be %s" % (last, inv.head, sorted(new), want))
            out.check(not oracle.object_problems(tree), key, lambda: "%s" % oracle.object_problems(tree))
            out.check(inv.version_directories == oracle.version_sequence(list(inv.versions_block)), key, "version_directories not in order")
            out.check(inv.version_numbers == list(range(1, n + i + 2)), key, "version_numbers not in order")
            out.done("next")
            out.state((pad, n, i))
            last = inv.head
        if want is None:
            out.sample = "overflow"
        # A version named head is the one with the highest number, also past v9 and v99
        m = make_object({}).extract(objdir=be.url("obj"), version="head", dstdir=world.path("out"))
        out.check(m.version == last, key, lambda: "head is %s, extracted %s" % (last, m.version))
        return
    if case[0] == "build":
        names = [x for i, x in enumerate(NAMES) if case[1] >> i & 1]
        be = Memory()
        be.put("src", {})
        for i, x in enumerate(names):
            be.put("src/" + x, {"file": x.encode(), "same": A})
        if len(case) > 2:
            if case[2] in names:
                return  # it cannot be both
            be.put("src", {case[2]: b"no version"})
        numbers = {}
        for x in names:
            if valid_name(x) is not None:
                numbers.setdefault(valid_name(x), []).append(x)
        ok = sorted(numbers) == list(range(1, len(numbers) + 1)) and numbers and all(len(x) == 1 for x in numbers.values())
        out.step()
        try:
            make_object({}).build(srcdir=be.url("src"), objdir=be.url("obj"))
        except Exception as e:
            if ok or not type(e).__module__.startswith("ocfl"):
                raise
            out.done("build refused")
            left = {p: d for p, d in be.get("obj").items() if d is not None}
            out.check(not left, key, lambda: "refused build left %s" % sorted(left))
            return
        out.done("built")
        tree = be.get("obj")
        out.state((sorted(numbers.items())))
        out.check(ok, key, lambda: "built from %s, a bad sequence" % names)
        for n in numbers:
            got = oracle.read_version(tree, "v%d" % n)
            out.check(got == {"file": numbers[n][0].encode(), "same": A}, key, lambda: "v%d has %s, built from %s" % (n, got, numbers[n]))
        return
    if case[0] == "next":
        _, width, lo, hi = case
        for n in range(max(lo, 1), hi):
            s = "v%0*d" % (width, n) if width else "v%d" % n
            try:
                got = object_utils.next_version_directory(s)
            except ObjectException:
                got = None
            out.check(got == next_name(s), "next:" + s, lambda: "next of %s is %s, should be %s" % (s, got, next_name(s)))
            if width <= 5 and n <= 99999 and len(s) <= 6:
                out.check(object_utils.parse_version_directory(s) == n, "parse:" + s, lambda: "%s is parsed wrongly" % s)
        out.step(hi - lo)
        out.done("next name", hi - lo)
        return
    if case[0] == "strings":
        for length in range(0, case[2]):
            for t in itertools.product(ALPHABET, repeat=length):
                s = case[1] + "".join(t)
                want = valid_name(s)
                for s, want in ((s, want),) + ((("", None),) if length == 0 else ()):
                    try:
                        got = object_utils.parse_version_directory(s)
                    except ObjectException:
                        got = None
                    out.check(got == want, "parse:%r" % s, lambda: "%r is parsed as %s, should be %s" % (s, got, want))
                    out.step()
                    out.done("name" if want else "not a name")
        return
    # First names with padding through the Inventory class
    for width in [None] + list(range(-1, 8)):
        try:
            inv = Inventory()
            inv.add_version(zero_padded_width=width)
            got = inv.head
        except ObjectException:
            got = None
        want = "v1" if width is None else "v" + "1".rjust(width, "0") if 2 <= width <= 5 else None
        out.check(got == want, "padding:%s" % width, lambda: "first version with width %s is %s" % (width, got))
        if got:
            for n in range(2, 30):
                want = next_name(want)
                if want is None:
                    try:
                        inv.add_version()
                        out.violation("padding:%s" % width, "overflow to %s" % inv.head)
                    except ObjectException:
                        pass
                    break
                inv.add_version()
                out.check(inv.head == want, "padding:%s" % width, lambda: "version %d with width %s is %s" % (n, width, inv.head))
                out.step()
        out.done("first version")
