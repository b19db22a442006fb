"""mcfs: an in-memory fsspec filesystem whose every effect the checks control.

Semantics follow the local (POSIX) filesystem as seen through fsspec's
LocalFileSystem: directories must exist before files are created in them, an
open handle refers to an inode, opening for write truncates, mkdir with
create_parents is not atomic (an existence test followed by makedirs).

Each primitive operation calls Store.point(kind, path) before it happens, which
is where faults are injected and other actors are scheduled. Each primitive
effect is appended to Store.log, from which the state after every prefix
(and every torn write) can be rebuilt with replay().

The paths given are normalized as an operating system would (".." moves up).
There is one Store per process, reset() starts again. No real file is touched.
"""
import errno
import io
import os
import posixpath

import fsspec
from fsspec.spec import AbstractFileSystem


class Inode:
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = bytearray(data)


DIR = None


class Store:
    def __init__(self):
        self.reset()

    def reset(self, tree=None):
        self.nodes = {"": DIR}
        self.log = []
        self.logging = False
        self.hook = None
        self.list_order = None      # function(list of names) -> list, for listing order
        self.chunk = None           # maximum bytes returned by one read
        if tree:
            self.load(tree)

    def load(self, tree):
        for path, data in tree.items():
            elements = path.split("/")
            for n in range(1, len(elements)):
                self.nodes.setdefault("/".join(elements[:n]), DIR)
            self.nodes[path] = DIR if data is None else Inode(data)

    def tree(self, prefix=""):
        """Value of the tree below prefix."""
        out = {}
        pre = prefix + "/" if prefix else ""
        for path, node in self.nodes.items():
            if path != "" and path.startswith(pre):
                out[path[len(pre):]] = None if node is DIR else bytes(node.data)
        return out

    def point(self, kind, path):
        if self.hook is not None:
            self.hook(kind, path)

    def effect(self, *entry):
        if self.logging:
            self.log.append(entry)
        apply(self.nodes, entry)


def apply(nodes, entry):
    """Apply one logged effect to nodes."""
    kind = entry[0]
    if kind == "mkdir":
        nodes[entry[1]] = DIR
    elif kind == "create":
        if nodes.get(entry[1]) is DIR:
            nodes[entry[1]] = Inode()
        else:
            del nodes[entry[1]].data[:]
    elif kind == "write":
        # write at offset in the inode currently at path
        inode, offset, data = entry[2], entry[3], entry[4]
        if inode is None:
            inode = nodes.get(entry[1])
            if inode is None:
                return
        if len(inode.data) < offset:
            inode.data.extend(b"\0" * (offset - len(inode.data)))
        inode.data[offset:offset + len(data)] = data
    elif kind == "unlink":
        nodes.pop(entry[1], None)
    elif kind == "rmdir":
        nodes.pop(entry[1], None)
    elif kind == "rename":
        old, new = entry[1], entry[2]
        moved = {p: n for p, n in nodes.items() if p == old or p.startswith(old + "/")}
        for p in moved:
            del nodes[p]
        for p, n in moved.items():
            nodes[new + p[len(old):]] = n
    else:
        raise AssertionError(kind)


def replay(tree, log, n, torn=None):
    """Tree after the first n effects of log, and then torn bytes of effect n (a write)."""
    s = Store()
    s.load(tree)
    for entry in log[:n]:
        if entry[0] == "write":
            entry = entry[:2] + (None,) + entry[3:]
        apply(s.nodes, entry)
    if torn is not None:
        entry = log[n]
        assert entry[0] == "write"
        apply(s.nodes, ("write", entry[1], None, entry[3], entry[4][:torn]))
    return s.tree()


STORE = Store()


def norm(path):
    path = str(path)
    for proto in ("mcfs://", "mcfs:"):
        if path.startswith(proto):
            path = path[len(proto):]
            break
    out = []
    for element in path.split("/"):
        if element in ("", "."):
            continue
        if element == "..":
            if out:
                out.pop()
            else:
                out.append("^")     # above the top of the filesystem
            continue
        out.append(element)
    return "/".join(out)


def err(code, path):
    return OSError(code, os.strerror(code), path)


class MCFile(io.RawIOBase):
    """File handle on an inode, effects are immediate."""

    def __init__(self, store, path, inode, mode):
        super().__init__()
        self.store, self.path, self.inode, self.mode = store, path, inode, mode
        self.pos = len(inode.data) if "a" in mode else 0
        self.size = len(inode.data)

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return "r" not in self.mode or "+" in self.mode

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.inode.data)}[whence] + offset
        return self.pos

    def tell(self):
        return self.pos

    def read(self, size=-1):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        self.store.point("read", self.path)
        end = len(self.inode.data) if size is None or size < 0 else self.pos + size
        if self.store.chunk is not None:
            end = min(end, self.pos + self.store.chunk)
            if size is None or size < 0:
                end = len(self.inode.data)
        data = bytes(self.inode.data[self.pos:end])
        self.pos += len(data)
        return data

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, data):
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        data = bytes(data)
        if data:
            self.store.point("write", self.path)
            self.store.effect("write", self.path, self.inode, self.pos, data)
            self.pos += len(data)
        return len(data)

    def close(self):
        if not self.closed and self.writable():
            try:
                self.store.point("close", self.path)
            finally:
                super().close()
        else:
            super().close()


class MCFileSystem(AbstractFileSystem):
    """fsspec filesystem on the process wide STORE."""

    protocol = "mcfs"
    root_marker = ""
    cachable = False

    @property
    def store(self):
        return STORE

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        return norm(path)

    def _get(self, path):
        """Node at path, None for directory. Raises as the operating system would."""
        nodes = self.store.nodes
        if path in nodes:
            return nodes[path]
        elements = path.split("/")
        for n in range(1, len(elements)):
            parent = "/".join(elements[:n])
            if parent in nodes and nodes[parent] is not DIR:
                raise err(errno.ENOTDIR, path)
        raise err(errno.ENOENT, path)

    def _info(self, path):
        node = self._get(path)
        if node is DIR:
            return {"name": path, "size": 0, "type": "directory"}
        return {"name": path, "size": len(node.data), "type": "file"}

    def info(self, path, **kwargs):
        path = self._strip_protocol(path)
        self.store.point("info", path)
        return self._info(path)

    def ls(self, path, detail=True, **kwargs):
        path = self._strip_protocol(path)
        self.store.point("ls", path)
        node = self._get(path)
        if node is not DIR:
            infos = [self._info(path)]
        else:
            prefix = path + "/" if path else ""
            names = sorted({p[len(prefix):] for p in self.store.nodes
                            if p != "" and p.startswith(prefix) and "/" not in p[len(prefix):]})
            if self.store.list_order is not None:
                names = self.store.list_order(names)
            infos = [self._info(prefix + n) for n in names]
        return infos if detail else [i["name"] for i in infos]

    def exists(self, path, **kwargs):
        path = self._strip_protocol(path)
        self.store.point("exists", path)
        return path in self.store.nodes

    lexists = exists

    def isdir(self, path):
        path = self._strip_protocol(path)
        self.store.point("isdir", path)
        return path in self.store.nodes and self.store.nodes[path] is DIR

    def isfile(self, path):
        path = self._strip_protocol(path)
        self.store.point("isfile", path)
        return path in self.store.nodes and self.store.nodes[path] is not DIR

    def _parent_ok(self, path):
        parent = posixpath.dirname(path)
        if self._get(parent) is not DIR:
            raise err(errno.ENOTDIR, path)

    def _os_mkdir(self, path):
        self.store.point("mkdir", path)
        if path in self.store.nodes:
            raise err(errno.EEXIST, path)
        self._parent_ok(path)
        self.store.effect("mkdir", path)

    def mkdir(self, path, create_parents=True, **kwargs):
        path = self._strip_protocol(path)
        if self.exists(path):
            raise err(errno.EEXIST, path)
        if create_parents:
            self.makedirs(path, exist_ok=True)
        else:
            self._os_mkdir(path)

    def makedirs(self, path, exist_ok=False):
        # As os.makedirs, one directory at a time
        path = self._strip_protocol(path)
        elements = path.split("/")
        for n in range(1, len(elements)):
            parent = "/".join(elements[:n])
            if parent not in self.store.nodes:
                try:
                    self._os_mkdir(parent)
                except FileExistsError:
                    pass
        try:
            self._os_mkdir(path)
        except FileExistsError:
            if not exist_ok or self.store.nodes.get(path, 0) is not DIR:
                raise

    def rmdir(self, path):
        path = self._strip_protocol(path)
        self.store.point("rmdir", path)
        if self._get(path) is not DIR:
            raise err(errno.ENOTDIR, path)
        if any(p.startswith(path + "/") for p in self.store.nodes):
            raise err(errno.ENOTEMPTY, path)
        self.store.effect("rmdir", path)

    def rm_file(self, path):
        path = self._strip_protocol(path)
        self.store.point("unlink", path)
        if self._get(path) is DIR:
            raise err(errno.EISDIR, path)
        self.store.effect("unlink", path)

    _rm = rm_file

    def rm(self, path, recursive=False, maxdepth=None):
        for p in ([path] if isinstance(path, str) else path):
            p = self._strip_protocol(p)
            if self._get(p) is DIR:
                if not recursive:
                    raise err(errno.EISDIR, p)
                below = sorted((q for q in self.store.nodes if q.startswith(p + "/")), reverse=True)
                for q in below + [p]:
                    if self.store.nodes[q] is DIR:
                        self.rmdir(q)
                    else:
                        self.rm_file(q)
            else:
                self.rm_file(p)

    def mv(self, path1, path2, recursive=False, maxdepth=None, **kwargs):
        path1, path2 = self._strip_protocol(path1), self._strip_protocol(path2)
        self.store.point("rename", path1)
        self._get(path1)
        self._parent_ok(path2)
        if path2 in self.store.nodes and self.store.nodes[path2] is DIR:
            path2 = path2 + "/" + posixpath.basename(path1)
        elif path2 in self.store.nodes and self.store.nodes[path1] is DIR:
            raise err(errno.ENOTDIR, path2)
        self.store.effect("rename", path1, path2)

    mv_file = mv
    move = mv
    rename = mv

    def cp_file(self, path1, path2, **kwargs):
        path1, path2 = self._strip_protocol(path1), self._strip_protocol(path2)
        if self._get(path1) is DIR:
            self.makedirs(path2, exist_ok=True)
            return
        with self._open(path1, "rb") as src, self._open(path2, "wb") as dst:
            dst.write(src.read())

    def created(self, path):
        return self.modified(path)

    def modified(self, path):
        import datetime
        return datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)

    def touch(self, path, truncate=True, **kwargs):
        path = self._strip_protocol(path)
        self._open(path, "wb" if truncate or path not in self.store.nodes else "ab").close()

    def _open(self, path, mode="rb", block_size=None, autocommit=True, cache_options=None, **kwargs):
        path = self._strip_protocol(path)
        self.store.point("open-" + mode.replace("b", ""), path)
        nodes = self.store.nodes
        if "r" in mode:
            node = self._get(path)
            if node is DIR:
                raise err(errno.EISDIR, path)
            return MCFile(self.store, path, node, mode)
        if "x" in mode and path in nodes:
            raise err(errno.EEXIST, path)
        if path in nodes:
            if nodes[path] is DIR:
                raise err(errno.EISDIR, path)
            if "a" not in mode:
                self.store.effect("create", path)
        else:
            self._parent_ok(path)
            self.store.effect("create", path)
        return MCFile(self.store, path, nodes[path], mode)


fsspec.register_implementation("mcfs", MCFileSystem, clobber=True)
