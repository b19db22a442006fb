"""Runner: exhaustive enumeration of the cases of one check, in parallel.

A check is a module in /verif/checks with

  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  cases(tier)       -> list of JSON-able case descriptions, simplest first; the
                       whole bounded space of the check for that tier
  run(case, world)  -> Outcome; explores that case against the real code

The runner hands every case to a pool of worker processes (so that the union is
explored exhaustively, never sampled), merges the coverage that was measured,
compares violations with the committed known findings and writes the evidence.
"""
import errno
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534
CASE_TIMEOUT_S = 240
MEMORY_LIMIT = 4 << 30


class HarnessError(Exception):
    """The machinery itself (not the code under test) went wrong."""


class Hang(BaseException):
    """A case did not finish in CASE_TIMEOUT_S."""


def h8(value):
    """8 byte hash of a canonical (repr-able) value, used to count distinct states."""
    return hashlib.blake2b(repr(value).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Outcome:
    """What exploring one case covered and found."""

    def __init__(self):
        self.states = set()       # hashes of distinct canonical states reached
        self.transitions = 0      # operations / environment steps executed on the real code
        self.executions = 0       # complete executions compared with the oracle
        self.labels = {}          # observed outcome label -> count
        self.violations = []      # (key, message)
        self.sample = None
        self.hang = False

    def state(self, value):
        self.states.add(h8(value))

    def step(self, n=1):
        self.transitions += n

    def done(self, label, n=1):
        self.executions += n
        self.labels[label] = self.labels.get(label, 0) + n

    def violation(self, key, message):
        """key identifies the failing input/history in a way that is stable between runs."""
        if len(self.violations) < 20:
            self.violations.append((str(key), str(message)[:2000]))

    def check(self, ok, key, message):
        if not ok:
            self.violation(key, message() if callable(message) else message)
        return ok


class World:
    """Scratch space for one worker, emptied between cases."""

    def __init__(self, base):
        self.base = base
        self.n = 0
        self.dir = None
        self.fresh()

    def fresh(self):
        """New empty scratch directory for a case; the old one is removed."""
        if self.dir is not None:
            force_rmtree(self.dir)
        self.n += 1
        self.dir = os.path.join(self.base, "c%d" % self.n)
        os.mkdir(self.dir)
        return self.dir

    def path(self, *parts):
        return os.path.join(self.dir, *parts)


def force_rmtree(path):
    assert "/ocflmc-" in path, path

    def onerror(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass
    shutil.rmtree(path, onerror=onerror)


def quieten():
    """Silence logging and warnings of the code under test."""
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def import_repo():
    """Import the ocfl package from the working tree in REPO."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import ocfl
    if not os.path.abspath(ocfl.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError("ocfl imported from %s and not from %s" % (ocfl.__file__, REPO))
    return ocfl


_W = {}


def drop_privileges():
    """Become nobody: an escaped write of the code under test can reach nothing real."""
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            return False
    return True


def _worker_init(modname, base, counter):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        counter.value += 1
        n = counter.value
    os.environ["HOME"] = base
    drop_privileges()
    wbase = os.path.join(base, "w%d" % n)
    os.mkdir(wbase)
    os.chdir(wbase)
    tempfile.tempdir = wbase
    quieten()
    sys.setrecursionlimit(3000)
    _W["world"] = World(wbase)
    _W["mod"] = importlib.import_module(modname)

    def on_alarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))


def run_case(mod, case, world):
    """Run one case; an exception raised in the code under test is a violation."""
    out = Outcome()
    world.fresh()
    signal.alarm(getattr(mod, "CASE_TIMEOUT_S", CASE_TIMEOUT_S))
    try:
        mod.run(case, world, out)
    except Hang:
        out.hang = True
        out.violation("hang:" + case_key(case), "case did not finish within the time limit: %s" % (json.dumps(case)[:500]))
    except (KeyboardInterrupt, HarnessError):
        raise
    except BaseException as e:
        # No case raises on a tree where the property holds. Lack of space or memory is about
        # the sandbox, unless all that a case may use has gone; anything else is down to the
        # code under test
        if isinstance(e, MemoryError) and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024 < MEMORY_LIMIT // 2 or (isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM)):
            raise HarnessError("case %s: %s" % (json.dumps(case)[:500], "".join(traceback.format_exception(e))))
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f for f in tb if f.filename.startswith(os.path.abspath(REPO) + os.sep)]
        where = repo[-1] if repo else tb[-1]
        out.violation("exception:" + type(e).__name__ + ":" + case_key(case),
                      "unexpected %s: %s (at %s:%d in %s) for case %s" %
                      (type(e).__name__, str(e)[:300], where.filename, where.lineno, where.name, json.dumps(case)[:500]))
    finally:
        signal.alarm(0)
    return out


def case_key(case):
    return h8(json.dumps(case, sort_keys=True)).hex()


def _work(chunk):
    """Run a list of (index, case); return merged coverage and violations."""
    mod, world = _W["mod"], _W["world"]
    states, transitions, executions, labels, violations, samples = set(), 0, 0, {}, [], []
    ncases = 0
    for index, case in chunk:
        try:
            out = run_case(mod, case, world)
        except HarnessError as e:
            return ("error", str(e))
        states |= out.states
        transitions += out.transitions
        executions += out.executions
        for k, v in out.labels.items():
            labels[k] = labels.get(k, 0) + v
        for key, message in out.violations:
            violations.append((index, key, message))
        if out.sample is not None and len(samples) < 2:
            samples.append((index, case, out.sample))
        ncases += 1
        if out.hang:
            break
    return ("ok", ncases, states, transitions, executions, labels, violations, samples)


def load_findings():
    """Known findings: (property, key) pairs that are recorded and not repaired."""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as fh:
        return json.load(fh)


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    parser.add_argument("--replay", help="replay one recorded violation")
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    os.environ.setdefault("TZ", "UTC")
    for var in ("OCFL_ROOT",):
        os.environ.pop(var, None)
    quieten()
    import_repo()
    sys.path.insert(0, VERIF)
    modname = "checks." + args.property.lower()
    mod = importlib.import_module(modname)
    assert mod.PROPERTY == args.property
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    base = tempfile.mkdtemp(prefix="ocflmc-", dir=shm)
    os.chmod(base, 0o755)
    if os.getuid() == 0:
        os.chown(base, NOBODY, NOBODY)
    try:
        if args.replay:
            return replay(mod, modname, base, args)
        return explore(mod, modname, base, args, seed)
    finally:
        force_rmtree(base)


def replay(mod, modname, base, args):
    with open(args.replay, encoding="utf-8") as fh:
        rec = json.load(fh)
    _worker_init(modname, base, multiprocessing.Value("i", 0))
    out = run_case(_W["mod"], rec["case"], _W["world"])
    for key, message in out.violations:
        print("%s\n  %s" % (key, message))
    again = [k for k, _ in out.violations]
    print("replayed case %s: %s" % (json.dumps(rec["case"])[:300], "VIOLATED" if again else "no violation"))
    return 1 if again else 0


def explore(mod, modname, base, args, seed):
    t0 = time.time()
    cases = list(mod.cases(args.tier))
    if not cases:
        raise HarnessError("no cases")
    indexed = list(enumerate(cases))
    size = getattr(mod, "CHUNK", None) or max(1, min(200, len(cases) // (args.jobs * 12)))
    # Interleave so that neighbouring (similarly expensive) cases go to different chunks
    nchunks = -(-len(indexed) // size)
    chunks = [indexed[i::nchunks] for i in range(nchunks)]
    states, transitions, executions, labels, violations, samples = set(), 0, 0, {}, [], []
    ncases = 0
    counter = multiprocessing.Value("i", 0)
    ctx = multiprocessing.get_context("fork")
    complete, trouble = True, None
    with ctx.Pool(args.jobs, initializer=_worker_init, initargs=(modname, base, counter)) as pool:
        results = pool.imap_unordered(_work, chunks)
        for _ in chunks:
            try:
                res = results.next(timeout=800)
            except multiprocessing.TimeoutError:
                pool.terminate()
                trouble = "no progress, a worker may have died"
                break
            if res[0] == "error":
                pool.terminate()
                trouble = res[1]
                break
            _, n, st, tr, ex, lb, vi, sa = res
            ncases += n
            states |= st
            transitions += tr
            executions += ex
            for k, v in lb.items():
                labels[k] = labels.get(k, 0) + v
            violations += vi
            samples += sa
            if len(violations) > 200 or any(key.startswith("hang:") for _, key, _ in violations):
                complete = False
                pool.terminate()
                break
    if trouble and not violations:
        raise HarnessError(trouble)
    violations.sort(key=lambda v: (v[0], v[1]))
    # Sort violations into known findings and others
    findings = [f for f in load_findings()["findings"] if f["property"] == args.property]
    known, new = {}, []
    for index, key, message in violations:
        f = next((f for f in findings if f["key"] == key), None)
        if f is None:
            new.append((index, key, message))
        else:
            known[f["key"]] = f
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (args.property, f["what"]))
    reported = set()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for index, key, message in new:
        if key in reported:
            continue
        reported.add(key)
        if len(reported) > 5:
            break
        name = "%s-%s.json" % (args.property, hashlib.sha1(key.encode()).hexdigest()[:10])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": args.property, "tier": args.tier, "key": key, "message": message,
                       "case": cases[index],
                       "replay_cmd": "./run %s --replay %s" % (args.property, path)}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (args.property, path))
        print("  [%s] %s" % (key, message))
    samples.sort(key=lambda s: s[0])
    shown = [{"case": c, "observed": s} for _, c, s in samples[:2] + samples[len(samples) // 2:len(samples) // 2 + 1] + samples[-1:]]
    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": executions,
        "evaluations": ncases,
        "distinct_nontrivial": len(states),
        "rule": mod.RULE,
        "samples": shown,
        "outcomes": {k: labels[k] for k in sorted(labels)[:60]},
        "bounds": mod.BOUNDS[args.tier],
        "exhaustive": complete and not trouble and ncases == len(cases),
    }
    if mod.LEVEL == "model_checking":
        del coverage["distinct_nontrivial"]
    else:
        del coverage["states"]
        del coverage["traces_validated_against_impl"]
        coverage["executions"] = executions
    evidence = {
        "property": args.property, "tier": args.tier, "seed": seed, "level": mod.LEVEL,
        "coverage": coverage, "wall_s": round(time.time() - t0, 2),
        "assumptions": mod.ASSUMPTIONS, "violations": len({k for _, k, _ in new}),
    }
    with open(os.path.join(VERIF, "evidence", args.property + ".json"), "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    print("%s %s: %d cases, %d executions, %d states, %d transitions, %d outcome classes, %.1fs%s" %
          (args.property, args.tier, ncases, executions, len(states), transitions, len(labels), time.time() - t0,
           "" if complete else " (stopped early after violations)"))
    if trouble:
        print("HARNESS ERROR: " + trouble, file=sys.stderr)
        return 1 if new else 2
    if executions == 0 and not new:
        raise HarnessError("nothing was executed")
    return 1 if new else 0
