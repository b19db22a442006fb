"""X04: content and metadata go through BagIt bags unchanged; bags that are not valid are refused."""
import hashlib
import itertools
import json
import os

from mc import oracle
from mc.lib import A, B, C, STATES, make_object
from mc.tree import read_tree, write_tree

from . import l09

PROPERTY = "X04"
LEVEL = "model_checking"
RULE = ("An execution is one bag made from a version, one version made from a bag (by the library or by the command line), or one damaged bag offered; a state is a distinct (content, "
        "metadata, damage, route)")
ASSUMPTIONS = ["Bags are on the local filesystem", "A line break in a message is not kept by the BagIt format as the bagit library writes it"]
PAYLOADS = STATES[:5] + [{"data/data": A, "manifest-sha512.txt": B, "bagit.txt": C, "bag-info.txt": A}, {"per%cent%25": A, "x" * 100 + "/y": b"\x00\xff"}]
META = {
    "id": [None, "info:obj/1", "http://example.org/\u00e9 x"],
    "message": [None, "text: with colon", "\u00e9 \u540d"],
    "name": [None, "A Person"],
    "address": [None, "mailto:a@example.org", "https://example.org/a", "xmailto:a@example.org", "mailto:b:a@example.org", "mailto:mailto:a@example.org"],
}
METAS = [dict(zip(META, v)) for v in itertools.product(*META.values()) if not (v[3] and not v[2])]
FIELDS = {"External-Identifier": "info:bag/1", "External-Description": "from bag", "Contact-Name": "Bag Name", "Contact-Email": "b@example.org", "Bagging-Date": "2019-05-06"}
ODD = {"External-Identifier": "urn:x:\u00e9 y/z", "External-Description": "a: b; c = d", "Contact-Name": "mailto:name", "Contact-Email": "b:c@example.org", "Bagging-Date": "1999-12-31"}
DAMAGES = ["none", "changed", "shorter", "missing", "extra", "nomanifest", "nodecl", "manifestextra", "manifestdigest", "nodata", "nobag", "notdir", "tagdigest", "missingtag"]
BOUNDS = {
    "quick": "%d payloads x %d sets of metadata out of object into bag, by library and command line; all %d subsets of fields of a bag x all arguments given or not into an object; %d damages x "
             "payloads x 3 routes; object to bag to object" % (len(PAYLOADS), len(METAS), 2 ** len(FIELDS), len(DAMAGES)),
    "thorough": "the same with all payloads for all sets of metadata",
}


def cases(tier):
    out = [["out", p, part, tier] for p in range(len(PAYLOADS)) for part in range(3)]
    out += [["in", n] for n in range(2 ** len(FIELDS))] + [["in", n, "odd"] for n in range(2 ** len(ODD))]
    out += [["damage", p, d] for p in range(len(PAYLOADS)) for d in DAMAGES]
    out += [["round", p] for p in range(len(PAYLOADS))]
    return out


def run(case, world, out):
    {"out": run_out, "in": run_in, "damage": run_damage, "round": run_round}[case[0]](case, world, out)


def encode(p):
    return p.replace("\n", "%0A").replace("\r", "%0D")  # the bagit library leaves % as it is


def decode(p):
    return p.replace("%0A", "\n").replace("%0D", "\r")


def write_bag(payload, fields, alg="sha256"):
    """A bag written independently."""
    tree = {"data/" + p: d for p, d in payload.items()}
    tree["data/."] = None
    del tree["data/."]
    tree["data"] = None
    tree["manifest-%s.txt" % alg] = "".join("%s  data/%s\n" % (hashlib.new(alg, d).hexdigest(), encode(p)) for p, d in sorted(payload.items())).encode()
    tree["bagit.txt"] = b"BagIt-Version: 1.0\nTag-File-Character-Encoding: UTF-8\n"
    tree["bag-info.txt"] = "".join("%s: %s\n" % f for f in fields.items()).encode()
    tree["tagmanifest-%s.txt" % alg] = "".join("%s %s\n" % (hashlib.new(alg, tree[t]).hexdigest(), t) for t in ("bagit.txt", "bag-info.txt", "manifest-%s.txt" % alg)).encode()
    return tree


def read_bag(tree):
    """Payload and fields of a bag read independently, or problems."""
    problems = []
    files = {p: d for p, d in tree.items() if d is not None}
    payload = {p[5:]: d for p, d in files.items() if p.startswith("data/")}
    if not files.get("bagit.txt", b"").startswith(b"BagIt-Version: "):
        problems.append("bagit.txt")
    for name in ("manifest-sha512.txt", "tagmanifest-sha512.txt"):
        listed = {}
        for line in files.get(name, b"missing missing").decode().splitlines():
            digest, p = line.split(None, 1)
            listed[decode(p)] = digest
        expected = {"data/" + p: d for p, d in payload.items()} if name.startswith("m") else {t: files.get(t, b"") for t in ("bagit.txt", "bag-info.txt", "manifest-sha512.txt")}
        if listed != {p: hashlib.sha512(d).hexdigest() for p, d in expected.items()}:
            problems.append(name)
    fields = {}
    for line in files.get("bag-info.txt", b"").decode().splitlines():
        k, v = line.split(":", 1)
        fields.setdefault(k, []).append(v.strip())
    return payload, fields, problems


def make(world, payload, meta, created="2021-02-03T04:05:06Z"):
    import ocfl
    write_tree(world.path("src"), payload)
    vm = ocfl.VersionMetadata(created=created, message=meta.get("message"), name=meta.get("name"), address=meta.get("address"))
    make_object({}, identifier=meta.get("id") or "info:x").create(srcdir=world.path("src"), metadata=vm, objdir=world.path("obj"))


def run_out(case, world, out):
    import ocfl
    _, p, part, tier = case
    payload = PAYLOADS[p]
    for i, meta in enumerate(METAS):
        if i % 3 != part or (tier == "quick" and p > 1 and i % 4):
            continue
        for route in ("library", "cli", "both"):
            if route == "both" and i % 9 != part:
                continue
            for setdate in (False, True):
                world.fresh()
                make(world, payload, meta)
                before = read_tree(world.path("obj"))
                key = "out:%d:%s:%s:%s" % (p, meta, route, setdate)
                if route == "library":
                    m = make_object({}).extract(objdir=world.path("obj"), version="head", dstdir=world.path("bag"))
                    ocfl.bag_extracted_version(world.path("bag"), m, set_bagging_date=setdate)
                else:
                    # Given also a directory it is the bag that is made
                    args = ["extract", "--objdir", world.path("obj"), "--dstbag", world.path("bag")] + (["--dstdir", world.path("other")] if route == "both" else []) + (["--set-bagging-date"] if setdate else [])
                    status, _ = l09.cli("ocfl-object.py", *args)
                    out.check(status == 0, key, "exit status is %s" % status)
                out.step(2)
                out.state((p, i, route, setdate))
                out.done("out")
                got, fields, problems = read_bag(read_tree(world.path("bag")))
                out.check(not problems, key, lambda: "bag is not right: %s" % problems)
                out.check(got == payload, key, lambda: "payload of bag is %s, not %s" % (sorted(got), sorted(payload)))
                address = meta["address"] or ""
                want = {"External-Identifier": meta["id"] or "info:x", "External-Description": meta["message"], "Contact-Name": meta["name"],
                        "Contact-Email": address[7:] if address.startswith("mailto:") else None}
                for k, v in want.items():
                    out.check(fields.get(k) == ([v] if v else None), key, lambda: "%s in bag is %s, not %s" % (k, fields.get(k), v))
                if setdate:
                    out.check(fields.get("Bagging-Date") == ["2021-02-03"], key, "date of bag is %s" % fields.get("Bagging-Date"))
                out.check(read_tree(world.path("obj")) == before, key, "object was changed")
                out.check(set(os.listdir(world.dir)) == {"src", "obj", "bag"}, key, lambda: "there is %s" % os.listdir(world.dir))
    out.sample = {"payload": sorted(payload)}


def run_in(case, world, out):
    """Metadata of the bag is used for what isn't given."""
    import ocfl
    names = list(FIELDS)
    values = ODD if len(case) > 2 else FIELDS
    fields = {f: values[f] for i, f in enumerate(names) if case[1] >> i & 1}
    payload = PAYLOADS[1]
    given_all = {"id": "info:given", "created": "2001-01-01T00:00:00Z", "message": "given", "name": "Given", "address": "mailto:given@example.org"}
    source = {"id": "External-Identifier", "created": "Bagging-Date", "message": "External-Description", "name": "Contact-Name", "address": "Contact-Email"}
    for bits in list(range(32)) + [33, 63, 65, 97, 129] if values is FIELDS else [0, 2, 16]:
        given = {k: v for i, (k, v) in enumerate(given_all.items()) if bits >> i & 1}
        if bits > 32:
            ident = values["External-Identifier"]
            given["id"] = {65: ident.upper(), 97: ident + "x", 129: ident[:-1]}.get(bits, ident)
        world.fresh()
        write_tree(world.path("bag"), write_bag(payload, fields))
        before = read_tree(world.path("bag"))
        want = dict(given)
        for k, f in source.items():
            if k not in want and f in fields:
                want[k] = fields[f] + "T00:00:00Z" if k == "created" else ("mailto:" + fields[f] if k == "address" else fields[f])
        key = "in:%s:%d" % (":".join(str(c) for c in case[1:]), bits)
        m = ocfl.VersionMetadata(**{k: v for k, v in given.items() if k != "id"})
        m.id = given.get("id")
        src = ocfl.bag_as_source(world.path("bag"), m)
        out.step()
        out.state((case[1:], bits))
        out.done("metadata read")
        out.check({k: getattr(m, k) for k in source if getattr(m, k) is not None} == want, key, lambda: "metadata from bag is %s, not %s" % (vars(m), want))
        out.check(os.path.normpath(src) == world.path("bag/data"), key, "source is %s" % src)
        # By the command line
        if bits in (0, 1, 2, 12, 24, 31, 33, 63, 65, 97, 129) or case[1] in (0, 31):
            args = ["create", "--srcbag", world.path("bag"), "--objdir", world.path("obj")] + ["--%s=%s" % kv for kv in given.items()]
            status, _ = l09.cli("ocfl-object.py", *args)
            out.step()
            conflict = "id" in given and fields.get("External-Identifier", given["id"]) != given["id"]
            # With a conflict of identifiers the one given as argument to the object is not that of the bag
            user_ok = not ("address" in want and "name" not in want)
            ok = not conflict and user_ok and "id" in want
            out.done("cli %s" % ("done" if status == 0 else "refused"))
            out.check((status == 0) == ok, key, lambda: "create from bag with %s and %s has exit status %s" % (fields, given, status))
            tree = read_tree(world.path("obj")) if os.path.exists(world.path("obj")) else {}
            if ok and status == 0:
                inv = oracle.load(tree["inventory.json"])
                block = inv["versions"]["v1"]
                got = {"id": inv["id"], "created": block["created"], "message": block.get("message"), "name": block.get("user", {}).get("name"), "address": block.get("user", {}).get("address")}
                if "created" not in want:
                    got.pop("created")
                out.check({k: v for k, v in got.items() if v is not None} == want, key, lambda: "metadata of object is %s, not %s" % (got, want))
                out.check(oracle.read_version(tree) == payload, key, "content of object is not that of the bag")
                out.check(not oracle.object_problems(tree), key, "object made from bag is not valid")
            else:
                out.check(not tree, key, "refused creation has effects %s" % sorted(tree)[:4])
        out.check(read_tree(world.path("bag")) == before, key, "bag was changed")


def damaged(payload, damage):
    tree = write_bag(payload, FIELDS)
    first = sorted(payload)[0]
    man = "manifest-sha256.txt"
    if damage == "changed":
        tree["data/" + first] = b"!" + tree["data/" + first][1:]
    elif damage == "shorter":
        full = [p for p in sorted(payload) if payload[p]][0]
        tree["data/" + full] = tree["data/" + full][:-1]
    elif damage == "missing":
        del tree["data/" + first]
    elif damage == "extra":
        tree["data/extra"] = b"x"
    elif damage == "nomanifest":
        del tree[man]
    elif damage == "nodecl":
        del tree["bagit.txt"]
    elif damage == "manifestextra":
        tree[man] += b"0" * 64 + b"  data/none\n"
    elif damage == "manifestdigest":
        c = tree[man][:1]
        tree[man] = (b"0" if c != b"0" else b"1") + tree[man][1:]
    elif damage == "nodata":
        tree = {p: d for p, d in tree.items() if not p.startswith("data")}
    elif damage == "tagdigest":
        tree["bag-info.txt"] += b"More: x\n"
    elif damage == "missingtag":
        del tree["bag-info.txt"]
    return tree


def run_damage(case, world, out):
    import ocfl
    _, p, damage = case
    payload = PAYLOADS[p]
    for route in ("library", "create", "update"):
        world.fresh()
        if damage == "notdir":
            write_tree(world.dir, {"bag": b"file"})
        elif damage != "nobag":
            write_tree(world.path("bag"), damaged(payload, damage))
        if route == "update":
            make(world, STATES[0], {})
        key = "damage:%d:%s:%s" % (p, damage, route)
        before = read_tree(world.dir)
        try:
            if route == "library":
                ocfl.bag_as_source(world.path("bag"), ocfl.VersionMetadata())
                status = 0
            else:
                args = [route, "--srcbag", world.path("bag"), "--objdir", world.path("obj")]
                status, _ = l09.cli("ocfl-object.py", *args)
            done = status == 0
        except Exception as e:
            if not isinstance(e, (ocfl.BaggerError if hasattr(ocfl, "BaggerError") else OSError, OSError)) and type(e).__module__.split(".")[0] not in ("ocfl", "bagit"):
                raise
            done = False
        out.step()
        out.state((p, damage, route))
        out.done("%s %s" % (route, "done" if done else "refused"))
        out.check(done == (damage == "none"), key, lambda: "%s from bag with damage %s was %s" % (route, damage, "done" if done else "refused"))
        if not done:
            out.check(read_tree(world.dir) == before, key, "refused %s has effects" % route)
        elif route != "library":
            tree = read_tree(world.path("obj"))
            out.check(oracle.read_version(tree) == payload and not oracle.object_problems(tree), key, "object from bag is not right")


def run_round(case, world, out):
    """Out of an object of several versions into bags, and from these into another object."""
    import ocfl
    first = case[1]
    order = [first, (first + 1) % len(PAYLOADS), (first + 3) % len(PAYLOADS)]
    meta = {"id": "info:obj/1", "message": "m %d", "name": "N", "address": "mailto:n@example.org"}
    for i, p in enumerate(order):
        write_tree(world.path("src%d" % i), PAYLOADS[p])
        vm = ocfl.VersionMetadata(created="2021-02-0%dT00:00:00Z" % (i + 1), message="m %d" % i, name="N%d" % i, address="mailto:n%d@example.org" % i)
        if i == 0:
            make_object({}).create(srcdir=world.path("src0"), metadata=vm, objdir=world.path("obj"))
        else:
            make_object({}).add_version_with_content(srcdir=world.path("src%d" % i), metadata=vm, objdir=world.path("obj"))
    for i in range(3):
        status, _ = l09.cli("ocfl-object.py", "extract", "--objdir", world.path("obj"), "--objver", "v%d" % (i + 1), "--dstbag", world.path("bag%d" % i), "--set-bagging-date")
        status2, _ = l09.cli("ocfl-object.py", "create" if i == 0 else "update", "--srcbag", world.path("bag%d" % i), "--objdir", world.path("obj2"))
        out.step(2)
        out.state(tuple(order[:i + 1]))
        out.check((status, status2) == (0, 0), "round:%d:%d" % (first, i), "exit status is %s, %s" % (status, status2))
    a, b = read_tree(world.path("obj")), read_tree(world.path("obj2"))
    inv = [oracle.load(t["inventory.json"]) for t in (a, b)]
    for i in range(3):
        v = "v%d" % (i + 1)
        out.check(oracle.read_version(b, v) == PAYLOADS[order[i]] == oracle.read_version(a, v), "round:%d:%d" % (first, i), "content that has gone through a bag differs")
        x, y = inv[0]["versions"][v], inv[1]["versions"][v]
        out.check(x == y, "round:%d:%d" % (first, i), lambda: "version that has gone through a bag is %s, not %s" % (y, x))
    out.check(inv[0]["id"] == inv[1]["id"], "round:%d" % first, "identifier that has gone through a bag differs")
    out.check(not oracle.object_problems(b), "round:%d" % first, "object from bags is not valid")
    out.done("round trip")
