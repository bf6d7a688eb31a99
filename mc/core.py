"""Exhaustive bounded exploration: enumeration, execution, evidence."""
import concurrent.futures as cf
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
DEADLINE = float(os.environ.get("MC_DEADLINE", "840"))
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "90"))


class Violation(Exception):
    """The property is broken on the current case.

    `key` names the specific input / call site / history for known findings.
    """
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------
# enumeration
# --------------------------------------------------------------------------
def deviations(options, k):
    """All option vectors differing from the default in at most k places.

    options: dict name -> list of values; the first value is the default.
    """
    names = list(options)
    default = {n: options[n][0] for n in names}
    for r in range(0, k + 1):
        for subset in itertools.combinations(names, r):
            for values in itertools.product(*[options[n][1:] for n in subset]):
                cfg = dict(default)
                cfg.update(zip(subset, values))
                yield cfg


def widened(options, extra, tier):
    """Deviations over widened domains.

    At most two deviations over the union of both domains and, in the thorough
    tier, all vectors with three deviations over the first domains only.
    """
    both = {n: list(v) + list(extra.get(n, [])) for n, v in options.items()}
    for c in deviations(both, 2):
        yield c
    if tier != "quick":
        default = {n: v[0] for n, v in options.items()}
        for c in deviations(options, 3):
            if sum(c[n] != default[n] for n in c) == 3:
                yield c


def product(options):
    """Full product of named domains."""
    names = list(options)
    for values in itertools.product(*[options[n] for n in names]):
        yield dict(zip(names, values))


def words(alphabet, depth, min_depth=None):
    """All words over the alphabet of length depth (or min_depth..depth)."""
    lo = depth if min_depth is None else min_depth
    for n in range(lo, depth + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield list(w)


def interleavings(n, m):
    """All merges of two sequences of length n and m as tuples of 0/1."""
    for pos in itertools.combinations(range(n + m), n):
        s = [1] * (n + m)
        for p in pos:
            s[p] = 0
        yield s


# --------------------------------------------------------------------------
# recording
# --------------------------------------------------------------------------
class Rec:
    """What one worker observed."""
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0

    def call(self, n=1):
        self.transitions += n

    def state(self, *parts):
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, (str, bytes)):
                h.update(p.encode() if isinstance(p, str) else p)
            else:
                a = np.atleast_1d(np.asarray(p, dtype=float))
                with np.errstate(all="ignore"):
                    mag = np.where((a == 0) | ~np.isfinite(a), 1.0,
                                   10.0 ** np.floor(np.log10(np.abs(
                                       np.where((a == 0) | ~np.isfinite(a),
                                                1.0, a)))))
                    a = np.round(a / mag, 8) * mag + 0.0
                h.update(str(a.shape).encode())
                h.update(np.ascontiguousarray(a).tobytes())
            h.update(b"|")
        self.states.add(int.from_bytes(h.digest(), "big"))

    # oracles ---------------------------------------------------------------
    def close(self, got, want, what, atol=1e-8, rtol=1e-7, key=None):
        import numpy as np
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s"
                            % (what, got.shape, want.shape), key)
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)):
            if np.all(np.isfinite(want)):
                raise Violation("%s: not finite: %s" % (what, _short(got)), key)
        scale = np.max(np.abs(want)) if np.all(np.isfinite(want)) else 0.0
        err = np.abs(got - want)
        tol = atol + rtol * scale
        bad = ~(err <= tol)
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)),
                                 err.shape)
            raise Violation(
                "%s: got %r, expected %r at index %s (tolerance %.3g)"
                % (what, float(got[i]), float(want[i]),
                   tuple(int(x) for x in i), tol), key)

    def same(self, got, want, what, key=None):
        """Bit-identical arrays."""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s"
                            % (what, got.shape, want.shape), key)
        if not np.array_equal(got, want, equal_nan=True):
            d = np.abs(got.astype(float) - want.astype(float))
            raise Violation("%s: differs by up to %g: %s vs %s"
                            % (what, float(np.nanmax(d)), _short(got),
                               _short(want)), key)

    def ok(self, cond, what, key=None):
        if not cond:
            raise Violation(what, key)


def _short(a):
    s = repr(a.tolist())
    return s if len(s) < 300 else s[:300] + "..."


# --------------------------------------------------------------------------
# execution
# --------------------------------------------------------------------------
_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, rec):
    """Returns None or (message, key)."""
    # processor time, so that a busy machine does not matter; the wall clock
    # only ends executions that wait for ever
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, 6.0 * CASE_TIMEOUT)
    try:
        mod.run(case, rec)
        return None
    except Violation as v:
        return v.message, v.key
    except CaseTimeout:
        return "execution did not terminate within %g s" % CASE_TIMEOUT, None
    except Exception as e:  # an unexpected error on valid use
        tb = traceback.format_exc().strip().splitlines()
        return "unexpected %s: %s [%s]" % (
            type(e).__name__, e, " / ".join(s.strip() for s in tb[-7:-1])), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(chunk):
    warnings.simplefilter("ignore")
    rec = Rec()
    fails = []
    for idx, case in chunk:
        r = run_case(_MOD, case, rec)
        if r is not None:
            fails.append((idx, case, r[0], r[1]))
            if len(fails) >= 20:
                break
    return rec.states, rec.transitions, rec.traces, len(chunk), fails


def _silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _chunks(cases, size):
    it = enumerate(cases)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known: property=%s " % prop):
                    continue
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" ")
                    keys[key] = text
    return keys


def explore(mod, tier, seed, jobs=None):
    """Run all cases of a property module. Returns the exit code."""
    global _MOD
    _MOD = mod
    prop = mod.PROPERTY
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    known = known_keys(prop)
    states = set()
    transitions = traces = n_cases = 0
    fails = []
    samples = []
    crashed = None
    late = False

    ctx = multiprocessing.get_context("fork")
    size = getattr(mod, "CHUNK", 32)
    gen = _chunks(mod.cases(tier), size)
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx,
                                initializer=_silence) as pool:
        pending = {}
        exhausted = False
        try:
            while True:
                while not exhausted and len(pending) < 4 * jobs:
                    try:
                        c = next(gen)
                    except StopIteration:
                        exhausted = True
                        break
                    if len(samples) < 3:
                        samples.append(c[len(c) // 2][1])
                    pending[pool.submit(_worker, c)] = c
                if not pending:
                    break
                done, _ = cf.wait(pending, timeout=5.0,
                                  return_when=cf.FIRST_COMPLETED)
                for f in done:
                    c = pending.pop(f)
                    s, tr, tv, n, fl = f.result()
                    states |= s
                    transitions += tr
                    traces += tv
                    n_cases += n
                    fails += fl
                unknown = sum(1 for x in fails if x[3] not in known)
                if unknown >= 40 and not exhausted:
                    exhausted = True
                if time.time() - t0 > DEADLINE:
                    late = True
                    raise TimeoutError
        except cf.process.BrokenProcessPool:
            crashed = [c for c in pending.values()]
        except TimeoutError:
            for p in list(pool._processes.values()):
                p.kill()
    if crashed is not None:
        # find the culprit: run the chunks in flight one case per process
        culprit = _find_crash(mod, crashed)
        if culprit is None:
            print("ERROR: a worker process died and the case could not be "
                  "reproduced")
            return 3
        fails.append((culprit[0], culprit[1],
                      "the process crashed (%s)" % culprit[2], None))

    fails.sort(key=lambda f: f[0])
    new = [f for f in fails if f[3] not in known]
    old = {}
    for f in fails:
        if f[3] in known:
            old.setdefault(f[3], f)
    for key in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[key], key))

    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (idx, case, msg, key) in enumerate(new[:5]):
        body = {"property": prop, "tier": tier, "case": case, "message": msg,
                "key": key}
        name = "%s-%s.json" % (prop, hashlib.sha1(
            json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case: %s" % json.dumps(case)[:600])
        print("  %s" % msg)

    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "samples": samples,
        "exhaustive": bool(exhausted and not late and crashed is None),
        "bounds": mod.bounds(tier),
        "oracle": mod.ORACLE,
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking", "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d traces "
          "validated, %d violations, %.1f s"
          % (prop, tier, n_cases, len(states), transitions, traces, len(new),
             time.time() - t0))
    if new:
        return 1
    if late:
        print("ERROR: exploration did not finish in time")
        return 3
    return 0


def _find_crash(mod, chunks):
    for c in chunks:
        for idx, case in c:
            pid = os.fork()
            if pid == 0:
                _silence()
                try:
                    run_case(mod, case, Rec())
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):
                return idx, case, "signal %d" % os.WTERMSIG(status)
    return None
