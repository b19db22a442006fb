"""File trees as values: dict of relative path -> bytes (file) or None (directory)."""
import os


def read_tree(root):
    """Read a directory on the local filesystem. Special files and links are shown as str."""
    tree = {}
    for dirpath, dirs, files in os.walk(root):
        rel = os.path.relpath(dirpath, root)
        rel = "" if rel == "." else rel + "/"
        for d in dirs:
            p = os.path.join(dirpath, d)
            tree[rel + d] = None if not os.path.islink(p) else "link:" + os.readlink(p)
        for f in files:
            p = os.path.join(dirpath, f)
            if os.path.islink(p):
                tree[rel + f] = "link:" + os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as fh:
                    tree[rel + f] = fh.read()
            else:
                tree[rel + f] = "special"
    return tree


def write_tree(root, tree):
    """Write tree below root, which need not exist, adding parent directories as needed."""
    os.makedirs(root, exist_ok=True)
    for path, data in tree.items():
        full = os.path.join(root, path)
        if data is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as fh:
                fh.write(data)


def files_only(tree):
    return {p: d for p, d in tree.items() if d is not None}


def with_dirs(tree):
    """Add the entries for the directories implied by file paths."""
    out = {}
    for path, data in tree.items():
        elements = path.split("/")
        for n in range(1, len(elements)):
            out.setdefault("/".join(elements[:n]), None)
        out[path] = data
    return out


def under(tree, prefix):
    """Sub-tree below the directory prefix."""
    prefix = prefix.rstrip("/") + "/"
    return {p[len(prefix):]: d for p, d in tree.items() if p.startswith(prefix)}


def diff(a, b):
    """Human readable list of differences between trees."""
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            out.append("- " + p)
        elif p not in a:
            out.append("+ " + p)
        elif a[p] != b[p]:
            out.append("! " + p + " " + repr(a[p])[:60] + " -> " + repr(b[p])[:60])
    return out
