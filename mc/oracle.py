"""An OCFL 1.0/1.1 reader and validator that shares no code with ocfl-py.

Works on trees (see tree.py), written from the specification. All functions are
pure. Problems are returned as a list of strings, empty for a valid object.
"""
import hashlib
import json
import re

SPECS = ("1.0", "1.1")
HEX = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128,
       "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}


def digest(algorithm, data):
    if algorithm.startswith("blake2b-"):
        return hashlib.blake2b(data, digest_size=int(algorithm[8:]) // 8).hexdigest()
    return getattr(hashlib, algorithm)(data).hexdigest()


def is_hex(s, n):
    return len(s) == n and all(c in "0123456789abcdefABCDEF" for c in s)


def digest_form_ok(algorithm, s):
    if algorithm in HEX:
        return is_hex(s, HEX[algorithm])
    if algorithm == "sha512-spec-ex":
        return len(s) == 21 and s[15:18] == "..." and all(c in "0123456789abcdef" for c in s[:15] + s[18:])
    if algorithm == "sha256-spec-ex":
        return len(s) == 12 and s[6:9] == "..." and all(c in "0123456789abcdef" for c in s[:6] + s[9:])
    return None


def created_ok(s):
    """RFC3339 date-time to at least seconds and with a timezone."""
    m = re.match(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?(Z|[+-]([0-9]{2}):([0-9]{2}))\Z", s)
    if not m:
        return False
    year, month, day, hour, minute, second = (int(m.group(n)) for n in range(1, 7))
    if year < 1 or not 1 <= month <= 12 or hour > 23 or minute > 59 or second > 59:
        return False
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not 1 <= day <= days[month - 1]:
        return False
    if m.group(9) and (int(m.group(9)) > 23 or int(m.group(10)) > 59):
        return False
    return True


def path_ok(path):
    return all(e not in ("", ".", "..") for e in path.split("/"))


def conflicts(paths):
    """True if one path is used as a directory by another, or occurs twice."""
    if len(set(paths)) != len(paths):
        return True
    s = set(paths)
    for p in paths:
        e = p.split("/")
        for n in range(1, len(e)):
            if "/".join(e[:n]) in s:
                return True
    return False


def version_sequence(names):
    """Ordered version directory names if they are a proper sequence, else None."""
    nums = {}
    for v in names:
        if not re.match(r"v[0-9]+\Z", v) or int(v[1:]) == 0:
            return None
        if int(v[1:]) in nums:
            return None
        nums[int(v[1:])] = v
    if not nums or sorted(nums) != list(range(1, len(nums) + 1)):
        return None
    if any(v[1] == "0" for v in names):
        width = {len(v) for v in names}
        if len(width) != 1 or any(v[1] != "0" for v in names):
            return None
    return [nums[n] for n in sorted(nums)]


def inventory_problems(inv):
    """Problems with the inventory alone."""
    out = []
    if not isinstance(inv, dict):
        return ["not an object"]
    if not isinstance(inv.get("id"), str) or inv["id"] == "":
        out.append("id")
    t = inv.get("type")
    if not isinstance(t, str) or t not in ["https://ocfl.io/%s/spec/#inventory" % s for s in SPECS]:
        out.append("type")
    alg = inv.get("digestAlgorithm")
    if not isinstance(alg, str) or alg not in ("sha512", "sha256"):
        return out + ["digestAlgorithm"]
    cd = "content"
    if "contentDirectory" in inv:
        cd = inv["contentDirectory"]
        if not isinstance(cd, str) or "/" in cd or cd in (".", ".."):
            out.append("contentDirectory")
            cd = None
    versions = inv.get("versions")
    seq = None
    if not isinstance(versions, dict):
        out.append("versions")
        versions = {}
    else:
        seq = version_sequence(list(versions))
        if seq is None:
            out.append("version sequence")
    if "head" not in inv:
        out.append("head missing")
    elif seq is not None and inv["head"] != seq[-1]:
        out.append("head")
    manifest = inv.get("manifest")
    content = []
    if not path_lists(manifest):
        out.append("manifest structure")
        manifest = {}
    if len({d.lower() for d in manifest}) != len(manifest):
        out.append("manifest repeated digest")
    for d, paths in manifest.items():
        if not digest_form_ok(alg, d):
            out.append("manifest digest form")
        for p in paths:
            content.append(p)
            e = p.split("/")
            if not path_ok(p) or len(e) < 3 or not re.match(r"v[0-9]+\Z", e[0]):
                out.append("content path " + p)
            elif cd is not None and e[1] != cd:
                out.append("content directory " + p)
            elif seq is not None and e[0] not in seq:
                out.append("content path version " + p)
    if conflicts(content):
        out.append("content paths conflict")
    used = set()
    for v, block in versions.items():
        if not isinstance(block, dict):
            out.append(v + " block")
            continue
        if not isinstance(block.get("created"), str) or not created_ok(block["created"]):
            out.append(v + " created")
        if "message" in block and not isinstance(block["message"], str):
            out.append(v + " message")
        if "user" in block:
            u = block["user"]
            if not isinstance(u, dict) or not isinstance(u.get("name"), str):
                out.append(v + " user")
            elif "address" in u and not isinstance(u["address"], str):
                out.append(v + " address")
        state = block.get("state")
        if not path_lists(state):
            out.append(v + " state")
            continue
        logical = []
        for d, paths in state.items():
            if not digest_form_ok(alg, d):
                out.append(v + " state digest form")
            used.add(d)
            logical += paths
            if d not in manifest:
                out.append(v + " digest not in manifest")
        if not all(path_ok(p) for p in logical):
            out.append(v + " logical path")
        if conflicts(logical):
            out.append(v + " logical paths conflict")
    for d, paths in manifest.items():
        if paths and d not in used:
            out.append("manifest digest not used")
        if not paths and d in used:
            out.append("no content for digest")
    if "fixity" in inv:
        fixity = inv["fixity"]
        if not isinstance(fixity, dict):
            out.append("fixity")
        else:
            for falg, block in fixity.items():
                if not path_lists(block):
                    out.append("fixity structure")
                    continue
                if falg not in HEX and not falg.endswith("-spec-ex"):
                    out.append("fixity algorithm " + falg)
                    continue
                if len({d.lower() for d in block}) != len(block):
                    out.append("fixity repeated digest")
                for d, paths in block.items():
                    if not digest_form_ok(falg, d):
                        out.append("fixity digest form")
                    if not set(paths) <= set(content):
                        out.append("fixity path")
    return out


def path_lists(block):
    return isinstance(block, dict) and all(
        isinstance(v, list) and all(isinstance(p, str) for p in v) for v in block.values())


def load(data):
    return json.loads(data.decode("utf-8"))


def object_problems(tree):
    """Problems with an object given as a tree with directory entries."""
    out = []
    files = {p: d for p, d in tree.items() if isinstance(d, bytes)}
    dirs = {p for p, d in tree.items() if d is None}
    out += ["not a file or directory " + p for p, d in tree.items() if isinstance(d, str)]
    for p in tree:
        e = p.split("/")
        dirs |= {"/".join(e[:n]) for n in range(1, len(e))}
    decl = sorted(p for p in list(files) + list(dirs) if "/" not in p and p.startswith("0="))
    spec = None
    if len(decl) != 1 or decl[0] not in ["0=ocfl_object_" + s for s in SPECS] or decl[0] not in files:
        out.append("declaration " + str(decl))
    else:
        spec = decl[0][14:]
        if files[decl[0]] not in (decl[0][2:].encode() + b"\n", decl[0][2:].encode()):
            out.append("declaration content")
    if "inventory.json" not in files:
        return out + ["no root inventory"]
    try:
        inv = load(files["inventory.json"])
    except (ValueError, RecursionError) as e:
        return out + ["root inventory not JSON %s" % e]
    p = inventory_problems(inv)
    if p:
        return out + ["root inventory: " + x for x in p]
    if spec is not None and inv["type"] != "https://ocfl.io/%s/spec/#inventory" % spec:
        out.append("root inventory type differs from declaration")
    versions = version_sequence(list(inv["versions"]))
    cd = inv.get("contentDirectory", "content")
    alg = inv["digestAlgorithm"]
    out += sidecar_problems(files, "", alg)
    # Root
    for p in files:
        if "/" not in p and p not in (decl + ["inventory.json", "inventory.json." + alg]):
            out.append("unexpected root file " + p)
    for p in dirs:
        if "/" not in p and p not in versions + ["logs", "extensions"]:
            out.append("unexpected root directory " + p)
    for p in files:
        if p.startswith("extensions/") and p.count("/") == 1:
            out.append("file in extensions " + p)
    # Versions
    prev_spec = "1.0"
    digests = {}
    prior_content = set()
    first_cd = None
    for v in versions:
        if v not in dirs:
            out.append("no version directory " + v)
            continue
        vinv = inv if v == versions[-1] else None  # with or without a copy in its directory
        has_inventory = v + "/inventory.json" in files
        if has_inventory:
            vdata = files[v + "/inventory.json"]
            if v == versions[-1]:
                if vdata != files["inventory.json"]:
                    out.append("head inventory differs from root inventory")
            else:
                try:
                    vinv = load(vdata)
                except (ValueError, RecursionError):
                    out.append(v + " inventory not JSON")
                    continue
                p = inventory_problems(vinv)
                if p:
                    out += [v + " inventory: " + x for x in p]
                    continue
                if vinv["id"] != inv["id"]:
                    out.append(v + " id")
                if vinv["head"] != v:
                    out.append(v + " inventory is for another version")
                if vinv.get("contentDirectory", "content") != cd:
                    out.append(v + " contentDirectory")
                for u in vinv["versions"]:
                    if u not in inv["versions"]:
                        out.append(v + " inventory has other versions")
                    elif not same_state(states(vinv, u), states(inv, u)):
                        out.append(v + " inventory has different state for " + u)
                vcontent = {p for ps in vinv["manifest"].values() for p in ps}
                if not prior_content <= vcontent:
                    out.append(v + " inventory lacks earlier content")
                prior_content |= vcontent
            out += sidecar_problems(files, v + "/", vinv["digestAlgorithm"])
        if vinv:
            vspec = vinv["type"][16:19]
            if vspec < prev_spec:
                out.append(v + " lower spec version")
            prev_spec = vspec
            if first_cd is None:
                first_cd = (v == versions[0], "contentDirectory" in vinv)
            elif first_cd[0] and not first_cd[1] and "contentDirectory" in vinv:
                out.append("contentDirectory not in first version")
        names = {p[len(v) + 1:] for p in files if p.startswith(v + "/") and "/" not in p[len(v) + 1:]}
        allowed = {"inventory.json", "inventory.json." + vinv["digestAlgorithm"]} if has_inventory else set()
        for n in names - allowed:
            out.append("unexpected file %s/%s" % (v, n))
        vc = v + "/" + cd
        for d in dirs:
            if d.startswith(vc + "/") and not any(f.startswith(d + "/") for f in list(files) + list(dirs)):
                out.append("empty directory " + d)
        for i in ([vinv] if vinv else []):
            collect(digests, i["digestAlgorithm"], i["manifest"])
            for falg, block in i.get("fixity", {}).items():
                collect(digests, falg, block)
    # Content
    stored = {p for p in files if len(p.split("/")) > 2 and p.split("/")[0] in versions and p.split("/")[1] == cd}
    manifest = {p for ps in inv["manifest"].values() for p in ps}
    out += ["content not in manifest " + p for p in sorted(stored - manifest)]
    out += ["content missing " + p for p in sorted(manifest - stored)]
    collect(digests, alg, inv["manifest"])
    for falg, block in inv.get("fixity", {}).items():
        collect(digests, falg, block)
    for (falg, p), ds in digests.items():
        if p not in files:
            if p in prior_content and p not in manifest:
                out.append("earlier content no longer in manifest " + p)
            continue
        if falg not in HEX:
            continue
        if {x.lower() for x in ds} != {digest(falg, files[p])}:
            out.append("%s digest of %s" % (falg, p))
    return out


def collect(digests, alg, block):
    for d, paths in block.items():
        for p in paths:
            digests.setdefault((alg, p), set()).add(d)


def states(inv, v):
    """logical path -> set of content paths for version v."""
    return {lp: frozenset(inv["manifest"].get(d, []))
            for d, lps in inv["versions"][v]["state"].items() for lp in lps}


def same_state(earlier, later):
    """True for the same logical paths with the same content, of which the later inventory may know more copies."""
    return earlier.keys() == later.keys() and all(c <= later[p] for p, c in earlier.items())


def sidecar_problems(files, prefix, alg):
    name = prefix + "inventory.json." + alg
    if name not in files:
        return ["no sidecar " + name]
    m = re.match(rb"(\S+)[ \t]+inventory\.json\s*\Z", files[name])
    if not m or m.group(1).decode("latin1").lower() != digest(alg, files[prefix + "inventory.json"]):
        return ["sidecar " + name]
    return []


def read_version(tree, version=None):
    """Logical files of version (default head): dict of logical path -> bytes."""
    inv = load(tree["inventory.json"])
    version = inv["head"] if version is None else version
    out = {}
    for d, paths in inv["versions"][version]["state"].items():
        content = {tree[c] for c in inv["manifest"][d]}
        if len(content) != 1:
            raise ValueError("content for digest %s differs" % d)
        data = content.pop()
        if digest(inv["digestAlgorithm"], data) != d.lower():
            raise ValueError("content for digest %s is wrong" % d)
        for p in paths:
            out[p] = data
    return out
