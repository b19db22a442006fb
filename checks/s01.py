"""S01: storage layouts map identifiers to paths within the root, one to one, as described."""
import itertools
import string

from mc import oracle

PROPERTY = "S01"
LEVEL = "model_checking"
RULE = ("An execution is the mapping of one identifier by one layout with one configuration, compared with an independent definition of the layout; a state is a distinct "
        "(configuration, path)")
ASSUMPTIONS = ["Identifiers over the alphabet stand for all identifiers", "Digests of different identifiers differ within the parts used",
               "Two identifiers may give nested paths with the tuple tree layout, which has no encapsulation of objects that prevents it (see S03)"]
ALPHABET = ["a", "B", "0", ".", "/", "\\", ":", "%", "+", " ", "-", "_", "~", "\u00e9", "=", "\n", "\x00", "^", ",", "*", "|", "\U0001f600", "%2F", ".."]
SPECIAL = ["", ".", "..", "...", "/", "//", "a/..", "../a", "/etc", "~", "info:ark/67890/abc", "http://example.org/~x?y=1&z#f", "a" * 99, "a" * 100, "a" * 101, "a" * 255, "a" * 300,
           "\u00e9" * 33, "\u00e9" * 34, "." * 100, "." * 101, "%" * 34, "extensions", "0=ocfl_1.1", "ocfl_layout.json", "..hor/rib:le-$id", "con", "a\tb", "\u202e", "e\u0301", "\u00e9"]
SPECIAL += ["a" * 98 + x + "b" for x in ("%", "/", "\u00e9", ".", "-", "_")] + ["a" * 97 + x + "bc" for x in ("/", "\u00e9", "\U0001f600")]
HASHED = [(a, t, n) for a, w in (("md5", 32), ("sha1", 40), ("sha256", 64), ("sha512", 128)) for t in range(1, 33) for n in range(1, 33) if t * n <= w] + [
    (a, 0, 0) for a in ("md5", "sha1", "sha256", "sha512")]
BOUNDS = {
    "quick": "all identifiers of up to 3 of %d characters and %d special identifiers x 5 layouts with default configuration and x tuple sizes 2-6; special identifiers x all %d "
             "configurations of the hashed layout; all changes of 1 character of UUIDs" % (len(ALPHABET), len(SPECIAL), len(HASHED)),
    "thorough": "the same with identifiers of up to 4 characters",
}


def cases(tier):
    n = 3 if tier == "quick" else 4
    out = [["ids", layout, n, p] for layout in ("flat", "quoted", "hashed", "tuple2", "tuple3", "tuple6", "tuple4", "tuple5") for p in range(8)]
    out += [["configs", p, 16] for p in range(16)] + [["uuid", tier]]
    return out


def quote(identifier):
    keep = string.ascii_letters + string.digits + "_.-~"
    return "".join(c if c in keep else "+" if c == " " else "".join("%%%02X" % b for b in c.encode()) for c in identifier)


def flat(identifier):
    if identifier in ("", ".", "..") or "/" in identifier:
        return None
    return identifier


def quoted(identifier):
    if identifier in ("", ".", ".."):
        return None
    return quote(identifier)


def hashed(identifier, alg="sha256", size=3, number=3):
    """Extension 0003."""
    if identifier == "":
        return None
    d = oracle.digest(alg, identifier.encode("utf-8"))
    keep = string.ascii_letters + string.digits + "-_"
    enc = "".join(c if c in keep else "".join("%%%02x" % b for b in c.encode()) for c in identifier)
    if len(enc) > 100:
        enc = enc[:100] + "-" + d
    return "/".join([d[i * size:(i + 1) * size] for i in range(number)] + [enc])


PAIRTREE_QUOTE = set(b'"*+,<=>?\\^|')


def pairtree(identifier):
    """Pairtree identifier cleaning (two steps)."""
    out = ""
    for b in identifier.encode("utf-8"):
        if b < 0x21 or b > 0x7e or b in PAIRTREE_QUOTE:
            out += "^%02x" % b
        else:
            out += {"/": "=", ":": "+", ".": ","}.get(chr(b), chr(b))
    return out


def tupled(size):
    def f(identifier):
        if identifier == "":
            return None
        e = pairtree(identifier)
        parts = [e[i:i + size] for i in range(0, len(e), size)]
        return "/".join(parts + [e])
    return f


def identifiers(n):
    seen = set()
    for k in range(n + 1):
        for s in itertools.product(ALPHABET, repeat=k):
            i = "".join(s)
            if i not in seen:
                seen.add(i)
                yield i
    for i in SPECIAL:
        if i not in seen:
            seen.add(i)
            yield i


def real(layout, identifier):
    """Path or None if refused."""
    from ocfl.layout import LayoutException
    try:
        return layout.identifier_to_path(identifier)
    except LayoutException:
        return None


def contained(path):
    e = path.split("/")
    return path != "" and all(x not in ("", ".", "..") for x in e)


def run(case, world, out):
    from ocfl.layout_registry import get_layout
    if case[0] == "ids":
        _, name, n, part = case
        if name.startswith("tuple"):
            size = int(name[5:])
            layout, want = get_layout("nnnn-tuple-tree-layout"), tupled(size)
            layout.check_and_set_layout_params({"extensionName": "nnnn-tuple-tree-layout", "tupleSize": size})
        else:
            layout = get_layout({"flat": "0002-flat-direct-storage-layout", "quoted": "nnnn-flat-quoted-storage-layout", "hashed": "0003-hash-and-id-n-tuple-storage-layout"}[name])
            want = {"flat": flat, "quoted": quoted, "hashed": hashed}[name]
        paths = {}
        for k, i in enumerate(identifiers(n)):
            p = want(i)
            if p is not None:
                # One to one: over all identifiers in every case, by the definition, of which each part checks its share against the code
                out.check(p not in paths, "%s:%r" % (name, i), lambda: "the same path %r for %r and %r" % (p, i, paths[p]))
                paths[p] = i
            if k % 8 != part:
                continue
            judge(layout, name, i, p, out)
            if name == "quoted" and p is not None:
                out.check(layout.decode(p) == i, "decode:%r" % i, lambda: "%r is decoded as %r" % (i, layout.decode(p)))
        out.sample = {"layout": name, "paths": len(paths)}
    elif case[0] == "configs":
        _, part, parts = case
        for alg, size, number in HASHED[part::parts]:
            layout = get_layout("0003")
            layout.check_and_set_layout_params({"extensionName": layout.NAME, "digestAlgorithm": alg, "tupleSize": size, "numberOfTuples": number})
            for i in SPECIAL:
                judge(layout, "hashed:%s:%d:%d" % (alg, size, number), i, hashed(i, alg, size, number), out)
    else:
        run_uuid(out)


def judge(layout, name, identifier, want, out):
    got = real(layout, identifier)
    key = "%s:%r" % (name, identifier)
    out.step()
    out.done("%s %s" % (name.split(":")[0], "path" if got else "refused"))
    out.check(got == want, key, lambda: "%s maps %r to %r, its definition gives %r" % (name, identifier, got, want))
    out.check(real(layout, identifier) == got, key, "not the same the second time")
    if got is not None:
        out.check(contained(got), key, lambda: "path %r for %r leads elsewhere" % (got, identifier))
        out.state((name, got))


def run_uuid(out):
    from ocfl.layout_registry import get_layout
    good = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"
    for prefix in ("urn:uuid:", "x", "info:/.*"):
        layout = get_layout("nnnn-uuid-quadtree")
        layout.check_and_set_layout_params({"extensionName": "nnnn-uuid-quadtree", "prefix": prefix})
        ids = {prefix + good, good, prefix, "", prefix + prefix + good, prefix.upper() + good, good + prefix, prefix + good.replace("-", ""), prefix + good[:-1], prefix + good + "0",
               prefix + "{%s}" % good, "\n" + prefix + good}
        for n in range(len(prefix + good) + 1):
            s = prefix + good
            for c in "0aAfgF-/. \n\u0661:":
                ids.add(s[:n] + c + s[n + 1:])
                ids.add(s[:n] + c + s[n:])
        paths = {}
        for i in sorted(ids):
            rest = i[len(prefix):] if i.startswith(prefix) else None
            want = None
            if rest is not None and len(rest) == 36 and all((c == "-") if k in (8, 13, 18, 23) else (c in "0123456789abcdef") for k, c in enumerate(rest)):
                h = rest.replace("-", "")
                want = "/".join(h[k:k + 4] for k in range(0, 32, 4))
            judge(layout, "uuid:" + prefix, i, want, out)
            if want:
                out.check(want not in paths, "uuid:%r" % i, "same path twice")
                paths[want] = i
