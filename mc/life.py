"""Explicit-state exploration of the life cycle of an object.

A state is the tree of a real object written by the code under test together with
the reference model of it. Each transition runs one public operation of the code
under test on the object (restored from the state) and the same operation on the
model. States are deduplicated on the tree and the model.
"""
import copy

from . import mcfs
from .lib import A, B, C, EMPTY, STATES, Memory, make_object

EDIT_SRC = {"x": A, "y": C, "sub/z": B, "e": EMPTY, "big": b"0123456789" * 20}


class Refused(Exception):
    """The model says that the operation must be refused."""


class Model:
    """What a user knows about an object from the operations that were done."""

    def __init__(self):
        self.versions = []     # per version: logical path -> bytes
        self.meta = []         # per version: metadata dict
        self.opts = None       # digest, fixity, cd, spec of the object now

    def copy(self):
        m = Model()
        m.versions = [dict(v) for v in self.versions]
        m.meta = copy.deepcopy(self.meta)
        m.opts = dict(self.opts) if self.opts else None
        return m

    def canon(self):
        return ([sorted(v.items()) for v in self.versions], self.meta, sorted((self.opts or {}).items(), key=str))


METAS = [
    {"created": "2020-01-02T03:04:05Z", "message": "m1", "name": "N", "address": "mailto:n@example.org"},
    {"created": "2021-12-31T23:59:59.123456+01:00"},
    {"created": "2022-02-03T04:05:06Z", "message": "", "name": "only name"},
    {"created": "2022-02-03T04:05:06Z", "message": "line 1\nline \u00e9 2", "name": "\u540d", "address": "n@x"},
]


def vmeta(d):
    import ocfl
    return ocfl.VersionMetadata(**d)


def put_sources(be):
    for j, s in enumerate(STATES):
        be.put("src/%d" % j, s)
    be.put("src/edit", EDIT_SRC)
    be.put("src/none", {})


def apply_edits(state, edits):
    """New logical state after edits, raising Refused if one has to be refused."""
    state = dict(state)
    for e in edits:
        state = apply_edit(state, e)
    return state


def bad_path(path, others):
    if any(x in ("", ".", "..") for x in path.split("/")):
        return True
    return any(o == path or o.startswith(path + "/") or path.startswith(o + "/") for o in others)


def apply_edit(state, e):
    state = dict(state)
    paths = sorted(state)
    if e[0] == "add":
        if bad_path(e[2], paths):
            raise Refused()
        state[e[2]] = EDIT_SRC[e[1]]
    elif e[0] == "del":
        if e[1] not in state:
            raise Refused()
        del state[e[1]]
    elif e[0] == "ren":
        if e[1] not in state or bad_path(e[2], [p for p in paths if p != e[1]] + [e[1]] * (e[1] == e[2])):
            raise Refused()
        state[e[2]] = state.pop(e[1])
    return state


def resolve(edits, state):
    """Replace the selectors "first" and "last" in edits with logical paths of state."""
    out = []
    for e in edits:
        paths = sorted(state)
        sel = {"first": paths[0] if paths else "none", "last": paths[-1] if paths else "none"}
        e = [e[0]] + [sel.get(x, x) for x in e[1:]]
        out.append(e)
        try:
            state = apply_edit(state, e)
        except Refused:
            pass
    return out


def do_real(be, op, model, rel="obj"):
    """Run op on the real object, return the inventory."""
    kind = op[0]
    opts = dict(model.opts) if model.opts else {}
    opts["fixity"] = None  # the fixity algorithms persist in the object unless given again
    opts.update(op[-1])
    if kind == "create":
        return make_object(opts).create(srcdir=be.url("src/%d" % op[1]), metadata=vmeta(METAS[op[2]]), objdir=be.url(rel))
    if kind == "build":
        for n, j in enumerate(op[1], 1):
            be.put("bsrc/v%d" % n, STATES[j])
        return make_object(opts).build(srcdir=be.url("bsrc"), objdir=be.url(rel),
                                       versions_metadata={n: vmeta(METAS[m]) for n, m in enumerate(op[2], 1)})
    obj = make_object(opts, lax_digests=bool(opts.get("lax")))
    if kind == "update":
        return obj.add_version_with_content(objdir=be.url(rel), srcdir=be.url("src/%d" % op[1]), metadata=vmeta(METAS[op[2]]))
    if kind == "meta":
        return obj.add_version_with_content(objdir=be.url(rel), metadata=vmeta(METAS[op[1]]))
    if kind == "edit":
        nv = obj.start_new_version(objdir=be.url(rel), srcdir=be.url("src/edit"),
                                   digest_algorithm=op[-1].get("digest"), fixity=op[-1].get("fixity"),
                                   metadata=vmeta(METAS[op[2]]), carry_content_forward=bool(op[1]))
        for e in resolve(op[3], model.versions[-1] if op[1] else {}):
            if e[0] == "add":
                nv.add(e[1], e[2])
            elif e[0] == "del":
                nv.delete(e[1])
            else:
                nv.rename(e[1], e[2])
        return obj.write_new_version(nv)
    raise AssertionError(kind)


def do_model(op, model):
    """Model after op, or raise Refused."""
    m = model.copy()
    kind = op[0]
    if kind in ("create", "build"):
        opts = {"digest": "sha512", "norm": "uri", "fd": 1, "dd": 1, "spec": "1.1", "cd": "content", "fixity": None}
        opts.update(op[-1])
        m.opts = opts
        js = [op[1]] if kind == "create" else op[1]
        ms = [op[2]] if kind == "create" else op[2]
        for j, mm in zip(js, ms):
            m.versions.append(dict(STATES[j]))
            m.meta.append(METAS[mm])
        return m
    prev = m.versions[-1]
    if kind == "update":
        m.versions.append(dict(STATES[op[1]]))
        m.meta.append(METAS[op[2]])
    elif kind == "meta":
        m.versions.append(dict(prev))
        m.meta.append(METAS[op[1]])
    elif kind == "edit":
        start = prev if op[1] else {}
        m.versions.append(apply_edits(start, resolve(op[3], start)))
        m.meta.append(METAS[op[2]])
    for k, v in op[-1].items():
        m.opts[k] = v
    return m


def given(spec):
    """Tree and model for an object written independently of the code under test."""
    from . import writer
    spec = dict(spec)
    states = [STATES[j] for j in spec.pop("states")]
    tree = writer.write_object(states, **spec)
    m = Model()
    m.versions = [dict(s) for s in states]
    m.meta = [writer.metadata(n, spec.get("meta", "full")) for n in range(1, len(states) + 1)]
    algs = spec.get("alg", "sha512")
    specs = spec.get("spec", "1.1")
    m.opts = {"digest": algs if isinstance(algs, str) else algs[-1], "norm": "uri", "fd": 1, "dd": 1,
              "spec": specs if isinstance(specs, str) else specs[-1], "cd": spec.get("cd") or "content", "fixity": None}
    return tree, m


def explore(init, ops, depth, out, on_state, on_transition=None, first=None):
    """Breadth first search from the object written by operation init.

    If first is given then it is the only operation used in the initial state, so that the
    exploration can be divided between cases. An operation init of the form
    ["given", writer arguments] starts with an object written by mc/writer.py.

    on_state(be, tree, model, history) for every state, and
    on_transition(tree, model, op, tree2, model2, history) for every transition.
    """
    be = Memory()
    put_sources(be)
    src0 = be.get("src")
    if init[0] == "given":
        tree, m0 = given(init[1])
        be.put("obj", tree)
        tree = be.get("obj")
    else:
        do_real(be, init, Model())
        m0 = do_model(init, Model())
        tree = be.get("obj")
    out.step()
    out.check(be.get("src") == src0, "source-modified:%s" % init, "source changed by %s" % init)
    seen = set()
    frontier = [(tree, m0, [init])]
    if on_transition is not None:
        on_transition({}, Model(), init, tree, m0, [init])
    while frontier:
        tree, model, history = frontier.pop(0)
        c = (sorted(tree.items(), key=str), model.canon())
        out.state(c)
        h = repr(c)
        if h in seen:
            continue
        seen.add(h)
        mcfs.STORE.reset()
        put_sources(be)
        be.put("obj", tree)
        on_state(be, tree, model, history)
        if len(history) > depth:
            continue
        for op in ops if first is None or len(history) > 1 else [first]:
            try:
                model2 = do_model(op, model)
            except Refused:
                model2 = None
            mcfs.STORE.reset()
            put_sources(be)
            be.put("obj", tree)
            before = be.everything()
            if model2 is None:
                try:
                    do_real(be, op, model)
                    out.violation("not-refused:%s" % (history + [op]), "operation was not refused: %s" % (history + [op]))
                except Exception as e:  # the kind of exception is of no importance here
                    if not type(e).__module__.startswith("ocfl"):
                        raise
                out.check(be.everything() == before, "refused-changes:%s" % (history + [op]), "refused operation changed something")
                out.step()
                continue
            do_real(be, op, model)
            out.step()
            tree2 = be.get("obj")
            after = be.everything()
            other = {p for p in set(before) | set(after) if not p.startswith("obj/") and before.get(p) != after.get(p)}
            out.check(not other, "other-files:%s" % (history + [op]), lambda: "files outside the object were changed %s" % sorted(other))
            if on_transition is not None:
                on_transition(tree, model, op, tree2, model2, history + [op])
            frontier.append((tree2, model2, history + [op]))
