"""X02: digests are those of the whole content, by the algorithm named, whatever its size, storage and way of reading."""
import hashlib
import io
import re
import subprocess

from mc import mcfs
from mc.lib import Memory
from mc.tree import write_tree

PROPERTY = "X02"
LEVEL = "model_checking"
RULE = ("An execution is one digest computed (of a file or string) or one classification of a digest string; a state is a distinct (algorithm, content, storage, way of reading) or "
        "(algorithm, string)")
ASSUMPTIONS = ["Contents of other lengths than those around multiples of the buffer and block sizes behave like them", "coreutils' md5sum, sha*sum and b2sum are right"]
LENGTH = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}
TOOL = {"sha512": ["sha512sum"], "sha256": ["sha256sum"], "sha1": ["sha1sum"], "md5": ["md5sum"], "blake2b-512": ["b2sum"], "blake2b-384": ["b2sum", "-l", "384"],
        "blake2b-256": ["b2sum", "-l", "256"], "blake2b-160": ["b2sum", "-l", "160"]}
TRUNCATED = {"sha512-spec-ex": ("sha512", 15), "sha256-spec-ex": ("sha256", 6)}
ALGS = list(LENGTH) + list(TRUNCATED)
UNKNOWN = ["", "SHA512", "sha-512", "sha384", "sha512/256", "blake2b", "blake2b-128", "md4", "crc32", None, " sha512", "sha512 ", "sha3-512", "blake2s-256"]
K = 64 * 1024
SIZES = {
    "quick": [0, 1, 2, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 8191, 8192, 8193, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 4 * K, 4 * K + 1, 5 * K + 7],
    "thorough": sorted(set(range(0, 300)) | {n * K + d for n in range(0, 9) for d in (-2, -1, 0, 1, 2) if n * K + d >= 0} | {1 << n for n in range(22)}),
}
READS = [None, [1], [0.5], [K - 1, 1], [3, 7, K], [K // 2]]
STRINGS = ["", "a", "abc", "info:obj/1", "\u00e9", "\U0001f600", "\x00", "a\nb", "a\r\nb", " ", "\u0301e", "x" * 200, "\ufeffa", "\u2028"]
BOUNDS = {
    "quick": "%d algorithms x %d sizes around buffer and block sizes x %d kinds of content x local, in-memory and named file x %d patterns of short reads; all digest strings of every "
             "length to 140 of 7 kinds, and with every single character at start, middle and end replaced by each of 0-0x17f" % (len(ALGS), len(SIZES["quick"]), 3, len(READS)),
    "thorough": "all sizes to 300, around every multiple of the buffer to 8, and all powers of two to 2 MB",
}


def cases(tier):
    out = [["file", alg, tier, part] for alg in ALGS for part in range(4)]
    out += [["string", alg] for alg in ALGS] + [["form", alg] for alg in ALGS] + [["unknown"], ["tools"]]
    return out


def contents(n):
    yield bytes(n)
    yield bytes((i * 131 + i // 256 * 7 + i // 65536) & 255 for i in range(n)) if n < 1000 else (bytes(range(256)) * (n // 256 + 1))[:n - 1] + b"\xfe"
    yield b"\r\n" * (n // 2) + b"\x1a" * (n % 2)


def expected(alg, data):
    if alg in TRUNCATED:
        base, n = TRUNCATED[alg]
        d = expected(base, data)
        return d[:n] + "..." + d[-3:]
    if alg.startswith("blake2b-"):
        return hashlib.blake2b(data, digest_size=int(alg[8:]) // 8).hexdigest()
    return hashlib.new(alg, data).hexdigest()


class Pattern:
    """Short reads in a cyclic pattern of sizes."""

    def __init__(self, pattern):
        self.pattern, self.i = pattern, 0

    def size(self, n):
        p = self.pattern[self.i % len(self.pattern)]
        self.i += 1
        return max(1, min(n, int(n * p) if isinstance(p, float) else p))


class ShortFile(io.RawIOBase):
    def __init__(self, data, pattern):
        self.fh, self.p = io.BytesIO(data), Pattern(pattern)

    def readable(self):
        return True

    def read(self, n=-1):
        return self.fh.read(self.p.size(n) if n and n > 0 else n)


class ShortFs:
    """A filesystem whose files give less data than asked for."""

    def __init__(self, fs, data, pattern):
        self.fs, self.data, self.pattern = fs, data, pattern

    def __getattr__(self, name):
        return getattr(self.fs, name)

    def open(self, path, mode="rb", **kwargs):
        assert mode == "rb", mode
        return ShortFile(self.data, self.pattern)


def run(case, world, out):
    {"file": run_file, "string": run_string, "form": run_form, "unknown": run_unknown, "tools": run_tools}[case[0]](case, world, out)


def run_file(case, world, out):
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.local import LocalFileSystem
    from ocfl.digest import file_digest
    from ocfl.fsw import fsw_openfs
    _, alg, tier, part = case
    be = Memory()
    for size in SIZES[tier][part::4]:
        for kind, data in enumerate(contents(size)):
            want = expected(alg, data)
            write_tree(world.path("f"), {"x": data})
            be.put("f", {"x": data})
            got = {
                "path": file_digest(world.path("f/x"), alg),
                "local": file_digest("x", alg, fs=DirFileSystem(world.path("f"), LocalFileSystem())),
                "mcfs": file_digest("x", digest_type=alg, fs=fsw_openfs(be.url("f"))),
            }
            for p in READS[1:]:
                if p == [1] and size > 9000:
                    continue
                got[str(p)] = file_digest("x", alg, fs=ShortFs(fsw_openfs(be.url("f")), data, p))
            if alg == "sha512":
                got["default"] = file_digest(world.path("f/x"))
            for how, d in got.items():
                out.step()
                out.state((alg, size, kind, how))
                out.check(d == want, "%s:%d:%d:%s" % (alg, size, kind, how), lambda: "digest %s of %d bytes read as %s is %s, not %s" % (alg, size, how, d, want))
            out.done("file", len(got))
    out.sample = {"algorithm": alg, "digest of last": want}


def run_tools(case, world, out):
    """The expected values agree with independent programs."""
    for alg, cmd in TOOL.items():
        for size in (0, 1, 111, 112, 128, K, K + 1):
            for data in contents(size):
                d = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, check=True).stdout.decode().split()[0]
                out.step()
                out.done("tool")
                out.state((alg, size, d))
                out.check(expected(alg, data) == d, "tool:%s:%d" % (alg, size), "hashlib and %s do not agree" % cmd)


def run_string(case, world, out):
    from ocfl.digest import string_digest
    alg = case[1]
    for s in STRINGS:
        out.step()
        out.state((alg, s))
        try:
            d = string_digest(s, alg)
        except ValueError:
            out.done("string refused")
            out.check(alg not in ("sha512", "sha256", "sha1", "md5"), "string:%s" % alg, "string_digest refused for %s" % alg)
            continue
        out.done("string")
        out.check(d == expected(alg, s.encode("utf-8")), "string:%s:%r" % (alg, s), "digest of string is %s" % d)
        if alg == "sha512":
            out.check(string_digest(s) == d, "string:default", "default is not sha512")


def run_form(case, world, out):
    """Which strings are taken as digests, and how they are normalized."""
    from ocfl.digest import digest_regex, normalized_digest
    alg = case[1]
    if alg in TRUNCATED:
        n = TRUNCATED[alg][1]
        good = "0123456789abcdef"[:n] + "..." + "abc"

        def ok(s):
            return len(s) == len(good) and s[n:n + 3] == "..." and all(c in "0123456789abcdef" for c in s[:n] + s[n + 3:])
    else:
        good = ("0123456789abcdefABCDEF" * 6)[:LENGTH[alg]]

        def ok(s):
            return len(s) == LENGTH[alg] and all(c in "0123456789abcdefABCDEF" for c in s)
    strings = []
    for size in range(141):
        for unit in ("0", "f", "F", "aB", "g", "0 ", "\u0660"):
            strings.append((unit * size)[:size])
    for pos in (0, 1, len(good) // 2, len(good) - 1):
        for c in range(0x180):
            strings.append(good[:pos] + chr(c) + good[pos + 1:])
    for c in ("\n", "\r", " ", "\x00", "0", "a", "$", "\u2028"):
        strings += [good + c, c + good, good[:-1] + c, good[1:] + c]
    strings += [good, good.lower(), good.upper(), good[:-1], "0x" + good[2:], good.replace("0", "\uff10")]
    for s in strings:
        got = re.fullmatch(digest_regex(alg), s, re.DOTALL) is not None
        out.step()
        out.state((alg, s))
        out.done("digest" if got else "not a digest")
        out.check(got == ok(s), "form:%s:%r" % (alg, s), lambda: "%r is taken as %s: %s" % (s, alg, got))
        if ok(s):
            norm = normalized_digest(s, alg)
            out.check(norm == (s if alg in TRUNCATED else s.lower()), "form:%s:%r" % (alg, s), lambda: "%r is normalized to %r" % (s, norm))
            if alg not in TRUNCATED:
                same = {normalized_digest(x, alg) for x in (s, s.upper(), s.lower(), s.swapcase())}
                out.check(len(same) == 1, "form:%s:%r" % (alg, s), "forms of one digest are normalized to %s" % same)
    # Normalization keeps different digests apart
    a, b = good[:-1] + "0", good[:-1] + "1"
    out.check(normalized_digest(a, alg) != normalized_digest(b, alg), "form:apart", "different digests are normalized to the same")


def run_unknown(case, world, out):
    from ocfl.digest import digest_regex, file_digest, string_digest
    write_tree(world.path("f"), {"x": b"abc"})
    for alg in UNKNOWN:
        for f in (lambda: file_digest(world.path("f/x"), alg), lambda: string_digest("abc", alg), lambda: digest_regex(alg)):
            out.step()
            out.state(alg)
            try:
                got = f()
                out.violation("unknown:%r" % alg, "digest by unknown algorithm %r is %s" % (alg, got))
            except ValueError:
                out.done("unknown refused")
    for missing in ("f/none", "f"):
        try:
            got = file_digest(world.path(missing))
            out.violation("missing:%s" % missing, "digest of %s is %s" % (missing, got))
        except OSError:
            out.done("missing refused")
