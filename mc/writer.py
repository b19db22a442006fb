"""Writes valid OCFL objects without using the code under test, with optional features."""
import json

from .oracle import digest

META = {
    "full": lambda n: {"created": "2019-%02d-%02dT02:03:04Z" % (1 + n // 28 % 12, 1 + n % 28), "message": "msg %d" % n,
                       "name": "Person %d" % n, "address": "mailto:p%d@example.org" % n},
    "none": lambda n: {"created": "2019-%02d-%02dT02:03:04Z" % (1 + n // 28 % 12, 1 + n % 28)},
    "name": lambda n: {"created": "2019-%02d-%02dT02:03:04.5-05:00" % (1 + n // 28 % 12, 1 + n % 28), "message": "", "name": "P"},
}


def metadata(n, style="full"):
    return META[style](n)


def case_of(d, style):
    if style == "upper":
        return d.upper()
    if style == "mixed":
        return "".join(c.upper() if i % 2 else c for i, c in enumerate(d))
    return d


def per_version(value, n):
    """Option value for version n (a list gives a value for each version)."""
    return value[n - 1] if isinstance(value, list) else value


def write_object(states, *, pad=0, alg="sha512", cd=None, spec="1.1", case="lower", omit=(), extras=(),
                 sidecar="two", fixity=(), meta="full", store="delta", identifier="info:obj/1", indent=None, nest=False):
    """Tree of an object with the given logical states.

    pad      zero padded width of version numbers, 0 for none
    alg      digest algorithm, or list with one for each version
    cd       content directory name, None to not set contentDirectory
    spec     specification version, or list with one for each version
    case     of hex digits in digests: lower, upper, mixed, or list with one for each version
    omit     version numbers without an inventory in the version directory
    extras   "logs", "extensions", "unregistered", "vdir" (directory in version directory), "emptylogs"
    sidecar  "two" (spaces), "one", "tab", "nonewline", "upper"
    fixity   fixity algorithms in every version inventory
    meta     metadata style
    nest     content in directories like the logical paths, and one more
    store    "delta" (store content once), "all" (store again in every version), "dup" (store every path)
    """
    tree = {}
    width = pad
    content = {}         # content path -> bytes
    for n in range(1, len(states) + 1):
        vdir = "v%0*d" % (width, n) if width else "v%d" % n
        tree[vdir] = None
        state = states[n - 1]
        cdir = "%s/%s/" % (vdir, cd or "content")
        have = {d for p, d in content.items()}
        for i, p in enumerate(sorted(state)):
            data = state[p]
            if store == "dup" or data not in have or (store == "all" and data not in
                                                      {d for q, d in content.items() if q.startswith(cdir)}):
                cpath = cdir + ("sub/%s/f" % p if nest else "f%d.%s" % (i, p.replace("/", "_")))
                content[cpath] = data
                tree[cpath] = data
                have.add(data)
        inv = inventory(states[:n], content, width, per_version(alg, n), cd, per_version(spec, n),
                        per_version(case, n), fixity, meta, identifier)
        data = json.dumps(inv, indent=indent).encode("utf-8")
        a = per_version(alg, n)
        if n not in omit:
            tree[vdir + "/inventory.json"] = data
            tree[vdir + "/inventory.json." + a] = sidecar_line(data, a, sidecar)
        if "vdir" in extras:
            tree[vdir + "/other/file"] = b"x"
    tree["inventory.json"] = data
    tree["inventory.json." + a] = sidecar_line(data, a, sidecar)
    tree["0=ocfl_object_" + per_version(spec, len(states))] = b"ocfl_object_" + per_version(spec, len(states)).encode() + b"\n"
    if "logs" in extras:
        tree["logs/a.log"] = b"log"
        tree["logs/sub/b.log"] = b"log"
    if "emptylogs" in extras:
        tree["logs"] = None
    if "extensions" in extras:
        tree["extensions/0005-mutable-head/file"] = b"x"
    if "unregistered" in extras:
        tree["extensions/my-extension/sub/file"] = b"x"
    return tree


def sidecar_line(data, alg, style):
    d = digest(alg, data)
    return {"two": d + "  inventory.json\n", "one": d + " inventory.json\n", "tab": d + "\tinventory.json\n",
            "nonewline": d + " inventory.json", "upper": d.upper() + " inventory.json\n"}[style].encode()


def inventory(states, content, width, alg, cd, spec, case, fixity, meta, identifier):
    manifest = {}
    for p in sorted(content):
        manifest.setdefault(case_of(digest(alg, content[p]), case), []).append(p)
    used = set()
    versions = {}
    for n, state in enumerate(states, 1):
        block = {}
        for p in sorted(state):
            d = case_of(digest(alg, state[p]), case)
            block.setdefault(d, []).append(p)
            used.add(d)
        m = metadata(n, meta)
        v = {"created": m["created"], "state": block}
        if "message" in m:
            v["message"] = m["message"]
        if "name" in m:
            v["user"] = {"name": m["name"]}
            if "address" in m:
                v["user"]["address"] = m["address"]
        versions["v%0*d" % (width, n) if width else "v%d" % n] = v
    inv = {"id": identifier, "type": "https://ocfl.io/%s/spec/#inventory" % spec, "digestAlgorithm": alg,
           "head": list(versions)[-1], "manifest": manifest, "versions": versions}
    if cd is not None:
        inv["contentDirectory"] = cd
    if fixity:
        inv["fixity"] = {}
        for falg in fixity:
            block = {}
            for p in sorted(content):
                block.setdefault(digest(falg, content[p]), []).append(p)
            inv["fixity"][falg] = block
    return inv
